// In-memory network: replaces the socket system calls the repository uses, with arbitrary fragmentation.
#pragma once
#include <arpa/inet.h>
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <atomic>
#include <condition_variable>
#include <deque>
#include <mutex>
#include <thread>
#include "common.h"
namespace vnet {
struct Stream { std::vector<unsigned char> d; size_t at = 0; };  // one direction
struct Sock { int kind = 0; int port = 0; std::shared_ptr<Stream> in, out; std::deque<int> pending; };
static std::recursive_mutex m; static std::condition_variable_any cv;
static std::map<int, Sock> socks; static std::map<int, int> listeners; static int nextfd = 1000;
static int frag = 3;            // 0: whole, 1: single bytes, 2: up to 16 bytes, 3: random, 4: just short of what was asked
static bool strict = false;     // single-threaded use: a read without data is an error of the code under test
static bool zero_ok = false;    // calls may also move nothing
static uint64_t seed = 1;
static long calls = 0;
inline uint64_t rnd() { seed += 0x9e3779b97f4a7c15ULL; return h::mix(seed, 77); }
inline size_t part(size_t n) {  // how much of n available units one call moves
  if (n == 0) return 0;
  if (zero_ok && rnd() % 7 == 0) return 0;
  switch (frag) { case 0: return n; case 1: return 1; case 2: return 1 + rnd() % std::min<size_t>(n, 16); case 4: return n > 1 ? n - 1 : 1; default: return rnd() % 3 == 0 ? n : 1 + rnd() % n; }
}
inline void reset() { std::lock_guard<std::recursive_mutex> l(m); socks.clear(); listeners.clear(); nextfd = 1000; }
inline int make(std::shared_ptr<Stream> in, std::shared_ptr<Stream> out) { int fd = nextfd++; Sock& s = socks[fd]; s.kind = 2; s.in = in; s.out = out; return fd; }
// a connected pair, for harnesses that play the other side themselves
inline std::pair<int, int> pair() { std::lock_guard<std::recursive_mutex> l(m); auto a = std::make_shared<Stream>(), b = std::make_shared<Stream>(); int x = make(a, b), y = make(b, a); return {x, y}; }
inline std::vector<unsigned char>& sent_by(int fd) { return socks[fd].out->d; }
inline void feed(int fd, const void* p, size_t n) { std::lock_guard<std::recursive_mutex> l(m); auto& d = socks[fd].in->d; d.insert(d.end(), (const unsigned char*)p, (const unsigned char*)p + n); cv.notify_all(); }
inline size_t taken(int fd) { return socks[fd].in->at; }
static std::function<void(int, void*, size_t)> on_read;
static std::function<void()> idle;  // called (unlocked) while somebody waits
static long read_limit_fd = -1;
}  // namespace vnet
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
  if (fd < 1000) return syscall(SYS_read, fd, b, n);
  if (vnet::on_read) vnet::on_read(fd, b, n);
  std::unique_lock<std::recursive_mutex> l(vnet::m);
  auto it = vnet::socks.find(fd);
  if (it == vnet::socks.end() || it->second.kind != 2) h::fail("read from a descriptor that is not a connection (%d)", fd);
  auto s = it->second.in; vnet::calls++;
  if (n == 0) return 0;
  if (s->at == s->d.size()) {
    if (vnet::strict) h::fail("the code waits for %zu more bytes although the peer sent everything", n);
    vnet::cv.wait(l, [&] { return s->at < s->d.size(); });
  }
  size_t k = vnet::part(std::min(n, s->d.size() - s->at));
  memcpy(b, s->d.data() + s->at, k); s->at += k;
  if (s->at > (1u << 20) && !vnet::strict) { s->d.erase(s->d.begin(), s->d.begin() + s->at); s->at = 0; }
  return k;
}
ssize_t send(int fd, const void* b, size_t n, int) {
  std::unique_lock<std::recursive_mutex> l(vnet::m);
  auto it = vnet::socks.find(fd);
  if (it == vnet::socks.end() || it->second.kind != 2) h::fail("send on a descriptor that is not a connection (%d)", fd);
  vnet::calls++;
  size_t k = vnet::part(n); auto& d = it->second.out->d;
  d.insert(d.end(), (const unsigned char*)b, (const unsigned char*)b + k);
  vnet::cv.notify_all();
  return k;
}
int poll(struct pollfd* p, nfds_t n, int timeout) {
  std::unique_lock<std::recursive_mutex> l(vnet::m);
  auto scan = [&](bool all) {
    int r = 0;
    for (nfds_t i = 0; i < n; i++) {
      p[i].revents = 0; if (p[i].fd < 0) continue;
      auto it = vnet::socks.find(p[i].fd);
      if (it == vnet::socks.end() || it->second.kind != 2) h::fail("poll on a descriptor that is not a connection (%d)", p[i].fd);
      if ((p[i].events & POLLIN) && it->second.in->at < it->second.in->d.size() && (all || vnet::rnd() % 3)) { p[i].revents = POLLIN; r++; }
    }
    return r;
  };
  int r = scan(false);
  if (r == 0 && timeout < 0) {
    if (vnet::strict && scan(true) == 0) h::fail("the code waits for messages although every sibling sent everything");
    vnet::cv.wait(l, [&] { return (r = scan(true)) > 0; });
  }
  return r;
}
int socket(int, int, int) { std::lock_guard<std::recursive_mutex> l(vnet::m); int fd = vnet::nextfd++; vnet::socks[fd].kind = 0; return fd; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int getsockopt(int, int, int, void* v, socklen_t*) { *(int*)v = 1 << 30; return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) { std::lock_guard<std::recursive_mutex> l(vnet::m); vnet::socks[fd].port = ntohs(((const sockaddr_in*)a)->sin_port); return 0; }
int listen(int fd, int) { std::lock_guard<std::recursive_mutex> l(vnet::m); vnet::socks[fd].kind = 1; vnet::listeners[vnet::socks[fd].port] = fd; return 0; }
int accept(int fd, struct sockaddr*, socklen_t*) {
  std::unique_lock<std::recursive_mutex> l(vnet::m); auto& q = vnet::socks[fd].pending;
  vnet::cv.wait(l, [&] { return !q.empty(); });
  int c = q.front(); q.pop_front(); return c;
}
int connect(int fd, const struct sockaddr* a, socklen_t) {
  std::lock_guard<std::recursive_mutex> l(vnet::m); auto it = vnet::listeners.find(ntohs(((const sockaddr_in*)a)->sin_port));
  if (it == vnet::listeners.end()) { errno = ECONNREFUSED; return -1; }
  auto x = std::make_shared<vnet::Stream>(), y = std::make_shared<vnet::Stream>();
  int other = vnet::make(y, x); vnet::Sock& s = vnet::socks[fd]; s.kind = 2; s.in = x; s.out = y;
  vnet::socks[it->second].pending.push_back(other); vnet::cv.notify_all(); return 0;
}
unsigned sleep(unsigned) { usleep(500); return 0; }
}
