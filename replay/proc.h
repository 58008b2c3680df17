// Processes connected by local sockets that replace the TCP sockets of the code; every read and send may be partial.
#pragma once
#include <errno.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
#include <iostream>
#include "common.h"
namespace pn {
static int frag = 0;  // 0: whole, 1: single bytes, 2: up to 16 bytes, 3: random, 4: just short of what was asked
static uint64_t seed = 1; static long caseid = 0; static int master = 0; static std::vector<int> kids; static bool is_sock[65536];
inline uint64_t rnd() { seed += 0x9e3779b97f4a7c15ULL; return h::mix(seed, 77); }
inline size_t part(size_t n) {
  if (n == 0) return 0;
  switch (frag) { case 0: return n; case 1: return 1; case 2: return 1 + rnd() % std::min<size_t>(n, 16); case 4: return n > 1 ? n - 1 : 1; default: return rnd() % 3 == 0 ? n : 1 + rnd() % n; }
}
// a send moves at least an eighth (the kernel's buffers hold few small pieces)
inline size_t spart(size_t n) { size_t k = part(n), m = n / 8 + 1; return std::min(n, std::max(k, m)); }
inline socklen_t name(struct sockaddr_un* u, int port) {
  memset(u, 0, sizeof *u); u->sun_family = AF_UNIX; int k = snprintf(u->sun_path + 1, 90, "dppir_verif_%d_%ld_%d", master, caseid, port);
  return offsetof(struct sockaddr_un, sun_path) + 1 + k;
}
// starts `f` as a process of its own
inline void spawn(uint64_t s, const std::function<void()>& f) {
  fflush(stdout); int p = fork();
  if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); seed = s; h::rs = s; srand((unsigned)s); std::cout.rdbuf(nullptr); f(); _exit(0); }
  if (p < 0) _exit(3);
  kids.push_back(p);
}
// waits for every process; false: one of them failed (it reported itself)
inline void join() { for (int k : kids) { int st = 0; waitpid(k, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st) == 1) h::fail("a party process ended abnormally (status %d)", st); } kids.clear(); }
inline void lost() {
  if (getpid() != master) _exit(4);  // some other process failed; it reports
  usleep(300000); bool bad = false;
  for (int k : kids) { int st = 0; if (waitpid(k, &st, WNOHANG) == k && (!WIFEXITED(st) || WEXITSTATUS(st) != 0)) bad = true; }
  if (bad) { h::put("FAIL a party process ended abnormally\nCASE "); h::put(h::lastcase); h::put("\n"); _exit(1); }
  h::fail("a party ended the connection before it had sent everything");
}
inline void start(int argc, char** argv) { h::init(argc, argv); master = getpid(); std::cout.rdbuf(nullptr); signal(SIGPIPE, SIG_IGN); }
inline void newcase() { caseid++; kids.clear(); if (getpid() == master) for (int i = 3; i < 65536 && i < 4096; i++) if (is_sock[i]) { syscall(SYS_close, i); is_sock[i] = false; } }
}  // namespace pn
extern "C" {
ssize_t read(int fd, void* b, size_t n) {
  if (fd < 0 || fd >= 65536 || !pn::is_sock[fd]) return syscall(SYS_read, fd, b, n);
  if (n == 0) return 0;
  ssize_t r = syscall(SYS_read, fd, b, pn::part(n));
  if (r == 0 || (r < 0 && errno == ECONNRESET)) pn::lost();
  return r;
}
ssize_t send(int fd, const void* b, size_t n, int) {
  ssize_t r = syscall(SYS_sendto, fd, b, pn::spart(n), MSG_NOSIGNAL, 0, 0);
  if (r < 0) pn::lost();
  return r;
}
int socket(int, int, int) { int fd = syscall(SYS_socket, AF_UNIX, SOCK_STREAM, 0); if (fd >= 0) { pn::is_sock[fd] = true; int v = 1 << 23; syscall(SYS_setsockopt, fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } return fd; }
int setsockopt(int, int, int, const void*, socklen_t) { return 0; }
int getsockopt(int, int, int, void* v, socklen_t*) { *(int*)v = 1 << 30; return 0; }
int bind(int fd, const struct sockaddr* a, socklen_t) { struct sockaddr_un u; socklen_t l = pn::name(&u, ntohs(((const sockaddr_in*)a)->sin_port)); return syscall(SYS_bind, fd, &u, l); }
int connect(int fd, const struct sockaddr* a, socklen_t) { struct sockaddr_un u; socklen_t l = pn::name(&u, ntohs(((const sockaddr_in*)a)->sin_port)); return syscall(SYS_connect, fd, &u, l); }
int accept(int fd, struct sockaddr*, socklen_t*) { int r = syscall(SYS_accept, fd, 0, 0); if (r >= 0) { pn::is_sock[r] = true; int v = 1 << 23; syscall(SYS_setsockopt, r, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); } return r; }
unsigned sleep(unsigned) { usleep(400); return 0; }
int close(int fd) { if (fd >= 0 && fd < 65536) pn::is_sock[fd] = false; return syscall(SYS_close, fd); }
}
