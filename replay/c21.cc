#include "common.h"
#include <sys/wait.h>
#include "DPPIR/types/containers.h"
using namespace DPPIR;
struct S { uint64_t a, b, c; };
template <typename T> static T mk(uint64_t v);
template <> uint32_t mk<uint32_t>(uint64_t v) { return v; }
template <> bool mk<bool>(uint64_t v) { return v & 1; }
template <> S mk<S>(uint64_t v) { return {v, ~v, v * 3}; }
template <typename T> static bool same(const T& a, const T& b) { return a == b; }
static bool same(const S& a, const S& b) { return a.a == b.a && a.b == b.b && a.c == b.c; }
template <typename T> static void one(uint32_t n, uint32_t id, const char* t) {
  h::CASE(n > 1 ? h::mix(n, h::mix(id, sizeof(T))) : 0, "ServersMap<%s> own id %u of %u servers", t, id, n); h::watchdog(60);
  T f = mk<T>(h::rnd());
  ServersMap<T> m(id, n, f); const ServersMap<T>& c = m;
  for (uint32_t i = 0; i < n; i++) if (i != id) { CHECK(same(m[i], f), "slot %u does not hold the fill value", i); CHECK(&m[i] == &c[i], "const access to %u gives another slot", i); }
  ServersMap<T> p(id, n);
  std::unique_ptr<T[]> v(new T[n]()); std::set<T*> at; T* base = p.Ptr();
  for (int r = 0; r < 2; r++) for (uint32_t k = 0; k < n; k++) {
    uint32_t i = r ? n - 1 - k : k; if (i == id) continue;
    T x = mk<T>(h::rnd()); p[i] = x; v[i] = x; at.insert(&p[i]);
    CHECK(&p[i] >= base && &p[i] < base + (n - 1), "slot %u lies outside the storage", i);
  }
  CHECK(at.size() == n - 1, "%zu distinct slots for %u siblings", at.size(), n - 1);
  for (uint32_t i = 0; i < n; i++) if (i != id) CHECK(same(p[i], v[i]), "slot %u was overwritten through another server's slot", i);
}
static void own(uint32_t n, uint32_t id, bool cst) {
  h::CASE(h::mix(n, id + 1000), "own id %u of %u servers%s", id, n, cst ? " (const)" : "");
  fflush(stdout);
  pid_t q = fork();
  if (q == 0) { close(1); close(2); signal(SIGABRT, SIG_DFL); ServersMap<uint32_t> m(id, n, 7); const ServersMap<uint32_t>& c = m; volatile uint32_t x = cst ? c[id] : m[id]; (void)x; _exit(0); }
  int st; waitpid(q, &st, 0);
  CHECK(WIFSIGNALED(st), "asking for the own id did not stop the process");
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  for (uint32_t n = 1; n <= 255; n = n < 12 ? n + 1 : n < 250 ? n + 17 : n + 1) for (uint32_t id = 0; id < n; id = n < 20 ? id + 1 : id < n - 3 && id > 2 ? std::min(id + 19, n - 2) : id + 1) { one<uint32_t>(n, id, "uint32_t"); one<bool>(n, id, "bool"); one<S>(n, id, "24 bytes"); }
  for (int i = 0; i < 6; i++) { uint32_t n = h::edgy(1, 254); own(n, h::edgy(0, n - 1), i & 1); }
  while (h::more(h::seconds)) { uint32_t n = h::edgy(1, 255), id = h::edgy(0, n - 1); one<uint32_t>(n, id, "uint32_t"); one<S>(n, id, "24 bytes"); }
  return h::done();
}
