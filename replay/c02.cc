#include "sodium_ctl.h"
#include "DPPIR/sharing/incremental.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
static const uint32_t P = 2147483647u;
int main(int argc, char** argv) {
  h::init(argc, argv); h::control_random();
  long it = 0;
  while (h::more(h::seconds)) {
    size_t n = it < 300 ? it : h::flip(3) ? h::range(300, 70000) : h::below(300);
    it++;
    h::rmode = it % 5 == 1 ? 1 : it % 5 == 2 ? 2 : 0; h::draws.clear();
    h::CASE(n ? h::mix(n, it) : 0, "n=%zu random source mode %d", n, h::rmode); h::watchdog(60);
    auto s = sharing::PreIncrementalSecretShares(n);
    CHECK(s.size() == n, "%zu shares instead of %zu", s.size(), n);
    for (size_t i = 0; i < n; i++) {
      CHECK(s[i].x < P, "share %zu: x=%u not below the prime", i, s[i].x);
      CHECK(s[i].y >= 1 && s[i].y < P, "share %zu: y=%u outside [1,prime)", i, s[i].y);
    }
    // every part from a draw of its own over exactly its range
    std::multiset<uint32_t> dx, dy;
    for (auto& d : h::draws) { if (d.bound == P) dx.insert(d.value); else if (d.bound == P - 1) dy.insert(d.value + 1); }
    for (size_t i = 0; i < n; i++) {
      auto a = dx.find(s[i].x); CHECK(a != dx.end(), "share %zu: x=%u is not an own uniform draw over [0,prime)", i, (uint32_t)s[i].x); dx.erase(a);
      auto b = dy.find(s[i].y); CHECK(b != dy.end(), "share %zu: y=%u is not an own uniform draw over [1,prime)", i, (uint32_t)s[i].y); dy.erase(b);
    }
  }
  return h::done();
}
