#include "sodium_ctl.h"
#include "DPPIR/sharing/incremental.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
static const uint64_t P = 2147483647ULL;
int main(int argc, char** argv) {
  h::init(argc, argv); if (sodium_init() < 0) return 2;
  while (h::more(h::seconds)) {
    size_t n = h::flip(5) ? h::range(20, 60) : h::below(9);
    uint32_t key = h::edgy(0, P - 1);
    std::vector<incremental_share_t> s; std::string d; uint64_t k = h::mix(n, key);
    for (size_t i = 0; i < n; i++) {
      uint32_t x = h::edgy(0, P - 1), y = h::edgy(1, P - 1);
      if (h::flip(10)) x = key; if (h::flip(5)) y = 1 + (uint32_t)h::below(3);
      s.push_back({x, y}); d += " (" + std::to_string(x) + "," + std::to_string(y) + ")"; k = h::mix(k, x * P + y);
    }
    h::CASE(n ? k : 0, "key=%u shares:%s", key, d.c_str()); h::watchdog(30);
    uint32_t t = sharing::GenerateIncrementalTally(key, s);
    CHECK(t < P, "tally %u is not below the prime", t);
    uint32_t v = t; unsigned __int128 o = t;
    for (size_t i = 0; i < n; i++) {
      v = sharing::IncrementalReconstruct(v, s[i]);
      o = (o * s[i].y + s[i].x) % P;
      CHECK(v == (uint32_t)o, "reconstruction step %zu gives %u instead of %u", i, v, (uint32_t)o);
    }
    CHECK(v == key, "reconstruction gives %u instead of the key %u", v, key);
    // reconstruction alone, on arbitrary tallies
    for (int j = 0; j < 4; j++) {
      uint32_t a = h::edgy(0, P - 1), x = h::edgy(0, P - 1), y = h::edgy(1, P - 1);
      h::CASE(h::mix(a, h::mix(x, y)), "IncrementalReconstruct(%u, {%u,%u})", a, x, y);
      incremental_share_t sh{x, y};
      uint32_t r = sharing::IncrementalReconstruct(a, sh), w = ((unsigned __int128)a * y + x) % P;
      CHECK(r == w, "got %u want %u", r, w);
    }
  }
  return h::done();
}
