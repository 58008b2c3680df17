#include "vnet.h"
#include <iostream>
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"
using namespace DPPIR;
using namespace DPPIR::sockets;
template <typename T> const unsigned char* at(LogicalBuffer<T>& b, size_t i) { return (const unsigned char*)&b[i]; }
static const unsigned char* at(CipherLogicalBuffer& b, size_t i) { return (const unsigned char*)b[i]; }
template <typename T> const unsigned char* itp(T* p) { return (const unsigned char*)p; }
static const unsigned char* itp(CipherIterator p) { return (const unsigned char*)*p; }
template <class F> size_t deliver(F rd, std::vector<unsigned char>& all, size_t U, uint32_t& done, uint32_t ask) {
  auto& b = rd(ask); size_t n = b.Size();
  CHECK(n <= ask, "%zu messages delivered, %u asked", n, ask);
  CHECK((size_t)done + n <= all.size() / U, "more messages delivered than sent");
  size_t i = 0;
  for (auto p = b.begin(); p != b.end(); ++p, ++i) {
    CHECK(i < n, "the iterators run past Size()");
    CHECK(memcmp(itp(p), all.data() + (done + i) * U, U) == 0, "message %zu (after %u earlier ones) is not message %zu of the stream", i, done, (size_t)(done + i));
    CHECK(at(b, i) == itp(p), "operator[](%zu) is not the %zu-th message", i, i);
  }
  CHECK(i == n, "iteration yields %zu of Size()=%zu messages", i, n);
  done += n; b.Clear();
  return n;
}
static std::vector<unsigned char> mkstream(size_t n) { std::vector<unsigned char> v(n); for (auto& x : v) x = h::rnd() >> 11; return v; }
static uint32_t pickask(uint32_t left) { switch (h::below(5)) { case 0: return 1; case 1: return 1 + h::below(left); case 2: return std::min<uint32_t>(left, 1 + h::below(5)); default: return left; } }
template <class S> auto window(S& s, int) -> decltype((void)s.rbuffer_, std::pair<char*, char*>()) { return {(char*)&s.rbuffer_, (char*)&s.rbuffer_ + sizeof(s.rbuffer_)}; }
template <class S> std::pair<char*, char*> window(S& s, long) { return {(char*)&s, (char*)&s + sizeof(S)}; }
template <class S, class F> void single(S* s, int fd, int other, F rd, size_t U, const char* what, long it) {
  size_t cap = 140000 / U; uint32_t total = h::flip(10) ? cap * h::range(1, 3) + h::below(3) : h::flip(30) ? h::edgy(1, cap + 2) : h::range(1, 40);
  if (it < 40) total = 1 + it / 3;
  auto all = mkstream(total * U); uint32_t extra = h::flip() ? h::below(200) : 0;  // bytes of a later phase
  h::CASE(h::mix(total, h::mix(it, U)), "%s: %u messages of %zu bytes, fragmentation mode %d, %u bytes of a later phase behind them", what, total, U, vnet::frag, extra);
  vnet::sent_by(other).clear(); vnet::socks[fd].in->d.clear(); vnet::socks[fd].in->at = 0;
  vnet::feed(fd, all.data(), all.size()); auto tail = mkstream(extra); vnet::feed(fd, tail.data(), extra);
  auto w = window(*s, 0);
  vnet::on_read = [&](int f, void* p, size_t n) { CHECK(f == fd, "reads from another connection"); CHECK((char*)p >= w.first && (char*)p + n <= w.second, "the read of %zu bytes goes outside the receive buffer", n); };
  uint32_t done = 0; long idle = 0;
  while (done < total) { size_t k = deliver(rd, all, U, done, pickask(total - done)); idle = k ? 0 : idle + 1; CHECK(idle < 1000000, "no progress"); }
  CHECK(vnet::taken(fd) == total * U, "%zu bytes taken from the stream for %zu bytes of messages", vnet::taken(fd), total * U);
  vnet::on_read = nullptr;
}
int main(int argc, char** argv) {
  h::init(argc, argv); std::cout.setstate(std::ios::failbit); vnet::strict = true;
  long it = 0;
  while (h::more(h::seconds)) {
    it++; h::watchdog(100); vnet::reset(); vnet::frag = h::below(5); vnet::zero_ok = h::flip(20); vnet::seed = h::rnd();
    size_t cs = h::flip() ? 124 * h::range(1, 12) : h::flip(20) ? h::range(30000, 140000) : h::range(1, 400);
    {
      auto p = vnet::pair(); std::unique_ptr<ServerSocket> s(new ServerSocket(cs)); s->sockfd_ = p.first;
      for (int r = 0; r < 3; r++) {
        single(s.get(), p.first, p.second, [&](uint32_t k) -> LogicalBuffer<Query>& { return s->ReadQueries(k); }, 12, "ServerSocket::ReadQueries", it);
        single(s.get(), p.first, p.second, [&](uint32_t k) -> CipherLogicalBuffer& { return s->ReadCiphers(k); }, cs, "ServerSocket::ReadCiphers", it);
      }
      uint32_t c = h::rnd(); vnet::socks[p.first].in->d.clear(); vnet::socks[p.first].in->at = 0; vnet::feed(p.first, &c, 4);
      h::CASE(h::mix(c, 5), "ServerSocket::ReadCount of %u", c); uint32_t got = s->ReadCount(); CHECK(got == c, "ReadCount() = %u for %u", got, c);
    }
    {
      auto p = vnet::pair(); std::unique_ptr<ClientSocket> s(new ClientSocket(cs)); s->sockfd_ = p.first;
      for (int r = 0; r < 3; r++) single(s.get(), p.first, p.second, [&](uint32_t k) -> LogicalBuffer<Response>& { return s->ReadResponses(k); }, 52, "ClientSocket::ReadResponses", it);
    }
    {
      int n = h::range(2, 5), me = h::below(n); std::unique_ptr<ParallelSocket> s(new ParallelSocket(me, n, cs));
      std::vector<int> fd(n), ot(n);
      for (int i = 0; i < n; i++) if (i != me) { auto p = vnet::pair(); fd[i] = p.first; ot[i] = p.second; s->sockfds_[i] = fd[i]; }
      for (int kind = 0; kind < 4; kind++) {
        size_t U = kind == 0 ? cs : kind == 1 ? 76 : kind == 2 ? 12 : 52; std::vector<std::vector<unsigned char>> all(n); std::vector<uint32_t> tot(n), done(n); uint32_t left = 0;
        for (int i = 0; i < n; i++) if (i != me) { tot[i] = h::flip(15) ? 0 : h::flip(10) ? h::range(1, 3 * 140000 / U) : h::range(1, 30); all[i] = mkstream(tot[i] * U); left += tot[i]; vnet::socks[fd[i]].in->d.clear(); vnet::socks[fd[i]].in->at = 0; vnet::feed(fd[i], all[i].data(), all[i].size()); }
        h::CASE(h::mix(it, h::mix(kind, 99)), "ParallelSocket read of kind %d (%zu bytes), server %d of %d, fragmentation mode %d", kind, U, me, n, vnet::frag);
        long idle = 0;
        while (left) {
          int i = h::below(n); if (i == me || done[i] >= tot[i]) continue;
          uint32_t ask = pickask(tot[i] - done[i]); size_t k;
          vnet::on_read = [&](int f, void*, size_t) { CHECK(f == fd[i], "reading from server %d uses the connection of another server", i); };
          if (kind == 0) k = deliver([&](uint32_t a) -> CipherLogicalBuffer& { return s->ReadCiphers(i, a); }, all[i], U, done[i], ask);
          else if (kind == 1) k = deliver([&](uint32_t a) -> LogicalBuffer<OfflineSecret>& { return s->ReadSecrets(i, a); }, all[i], U, done[i], ask);
          else if (kind == 2) k = deliver([&](uint32_t a) -> LogicalBuffer<Query>& { return s->ReadQueries(i, a); }, all[i], U, done[i], ask);
          else k = deliver([&](uint32_t a) -> LogicalBuffer<Response>& { return s->ReadResponses(i, a); }, all[i], U, done[i], ask);
          left -= k; idle = k ? 0 : idle + 1; CHECK(idle < 1000000, "no progress");
        }
        vnet::on_read = nullptr;
        for (int i = 0; i < n; i++) if (i != me) CHECK(vnet::taken(fd[i]) == tot[i] * U, "server %d: %zu bytes taken for %zu", i, vnet::taken(fd[i]), tot[i] * U);
      }
      for (int i = 0; i < n; i++) if (i != me) { uint32_t c = h::rnd(); vnet::feed(fd[i], &c, 4); uint32_t got = s->ReadCount(i); CHECK(got == c, "ParallelSocket::ReadCount(%d) = %u for %u", i, got, c); }
    }
  }
  return h::done();
}
