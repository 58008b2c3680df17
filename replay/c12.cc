#include "vnet.h"
#include <iostream>
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"
using namespace DPPIR;
using namespace DPPIR::sockets;
static std::vector<unsigned char> mk(size_t n) { std::vector<unsigned char> v(n); for (auto& x : v) x = h::rnd() >> 11; return v; }
static uint32_t pick(size_t U) { size_t cap = 140000 / U; return h::flip(10) ? cap * h::range(1, 3) + h::below(3) : h::flip(30) ? h::edgy(0, cap + 2) : h::below(60); }
template <class F, class G> void run(int fd, size_t U, const char* what, F snd, G flush, long it) {
  uint32_t n = pick(U); auto all = mk(n * U); auto& w = vnet::sent_by(fd); w.clear(); std::vector<unsigned char> one(U);
  h::CASE(n ? h::mix(n, h::mix(U, it)) : 0, "%s: %u messages of %zu bytes, fragmentation mode %d", what, n, U, vnet::frag);
  size_t flushes = 0;
  for (uint32_t i = 0; i < n; i++) {
    memcpy(one.data(), all.data() + i * U, U); snd(one.data());
    CHECK(w.size() <= (i + 1) * U, "more bytes on the wire than messages sent");
    if (h::flip(1)) { flush(); CHECK(w.size() == (i + 1) * U, "after a flush %zu bytes are on the wire instead of %zu", w.size(), (size_t)((i + 1) * U)); }
  }
  flush(); if (h::flip(20)) flush();
  CHECK(w.size() == all.size(), "%zu bytes on the wire for %zu bytes of messages", w.size(), all.size());
  CHECK(w == all, "the bytes on the wire are not the messages in order");
}
int main(int argc, char** argv) {
  h::init(argc, argv); std::cout.setstate(std::ios::failbit); vnet::strict = true;
  long it = 0;
  while (h::more(h::seconds)) {
    it++; h::watchdog(100); vnet::reset(); vnet::frag = h::below(5); vnet::zero_ok = h::flip(20); vnet::seed = h::rnd();
    if (vnet::frag == 1 && h::flip(70)) vnet::frag = 3;
    size_t cs = h::flip() ? 124 * h::range(1, 12) : h::flip(20) ? h::range(30000, 140000) : h::range(1, 400);
    {
      auto p = vnet::pair(); std::unique_ptr<ClientSocket> s(new ClientSocket(cs)); s->sockfd_ = p.first;
      uint32_t c = h::rnd(); s->SendCount(c); CHECK(vnet::sent_by(p.first).size() == 4 && memcmp(vnet::sent_by(p.first).data(), &c, 4) == 0, "SendCount(%u) puts something else on the wire", c);
      for (int r = 0; r < 2; r++) {
        run(p.first, cs, "ClientSocket::SendCipher", [&](unsigned char* m) { s->SendCipher((char*)m); }, [&] { s->FlushCiphers(); }, it);
        run(p.first, 12, "ClientSocket::SendQuery", [&](unsigned char* m) { s->SendQuery(*(Query*)m); }, [&] { s->FlushQueries(); }, it);
      }
    }
    {
      auto p = vnet::pair(); std::unique_ptr<ServerSocket> s(new ServerSocket(cs)); s->sockfd_ = p.first;
      for (int r = 0; r < 2; r++) run(p.first, 52, "ServerSocket::SendResponse", [&](unsigned char* m) { s->SendResponse(*(Response*)m); }, [&] { s->FlushResponses(); }, it);
    }
    {
      int n = h::range(2, 5), me = h::below(n); std::unique_ptr<ParallelSocket> s(new ParallelSocket(me, n, cs)); std::vector<int> fd(n);
      for (int i = 0; i < n; i++) if (i != me) { fd[i] = vnet::pair().first; s->sockfds_[i] = fd[i]; }
      for (int round = 0; round < 2; round++) for (int kind = 0; kind < 4; kind++) {
        size_t U = kind == 0 ? cs : kind == 1 ? 76 : kind == 2 ? 12 : 52; std::vector<std::vector<unsigned char>> exp(n); uint32_t k = pick(U) * (kind == 1 ? 1 : n - 1);
        h::CASE(h::mix(it, h::mix(k, kind)), "ParallelSocket: %u messages of kind %d (%zu bytes), server %d of %d, fragmentation mode %d", k, kind, U, me, n, vnet::frag);
        for (int i = 0; i < n; i++) if (i != me) vnet::sent_by(fd[i]).clear();
        auto fl = [&](int i) { if (kind == 0) s->FlushCiphers(i); else if (kind == 1) s->FlushSecrets(i); else if (kind == 2) s->FlushQueries(i); else s->FlushResponses(i); };
        for (uint32_t j = 0; j < k; j++) {
          auto m = mk(U); int t; do t = h::below(n); while (t == me);
          if (kind == 0) s->SendCipher(t, (char*)m.data()); else if (kind == 2) s->SendQuery(t, *(Query*)m.data()); else if (kind == 3) s->SendResponse(t, *(Response*)m.data()); else s->BroadcastSecret(*(OfflineSecret*)m.data());
          for (int i = 0; i < n; i++) if (i != me && (kind == 1 || i == t)) exp[i].insert(exp[i].end(), m.begin(), m.end());
          if (h::flip(1)) { fl(t); CHECK(vnet::sent_by(fd[t]) == exp[t], "after a flush the bytes sent to server %d are not its messages", t); }
        }
        if (kind == 0) s->FlushCiphers(); else if (kind == 1) s->FlushSecrets(); else if (kind == 2) s->FlushQueries(); else s->FlushResponses();
        for (int i = 0; i < n; i++) if (i != me) CHECK(vnet::sent_by(fd[i]) == exp[i], "server %d: %zu bytes on the wire, %zu expected, or different content", i, vnet::sent_by(fd[i]).size(), exp[i].size());
      }
      for (int i = 0; i < n; i++) if (i != me) vnet::sent_by(fd[i]).clear();
      uint32_t c = h::rnd(); s->BroadcastCount(c);
      for (int i = 0; i < n; i++) if (i != me) CHECK(vnet::sent_by(fd[i]).size() == 4 && memcmp(vnet::sent_by(fd[i]).data(), &c, 4) == 0, "BroadcastCount does not reach server %d", i);
    }
  }
  return h::done();
}
