#include "common.h"
#include "DPPIR/shuffle/local_shuffle.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
int main(int argc, char** argv) {
  h::init(argc, argv);
  long it = 0;
  while (h::more(h::seconds)) {
    int seed = h::flip(20) ? (int)h::edgy(0, 3) - 1 : (int)h::rnd();
    shuffle::LocalShuffler s(seed);
    int rounds = h::flip(40) ? h::range(2, 3) : 1;
    for (int r = 0; r < rounds; r++) {
      uint32_t n = it < 400 ? it : h::flip(1) ? h::range(60000, 140000) : h::flip(10) ? h::below(5000) : h::below(64);
      it++;
      h::CASE(n ? h::mix(n, h::mix(seed, r)) : 0, "seed=%d n=%u initialisation %d", seed, n, r + 1); h::watchdog(60);
      s.Initialize(n);
      std::vector<char> hit(n, 0);
      std::vector<uint32_t> f(n);
      for (uint32_t i = 0; i < n; i++) {
        uint32_t t = s.Shuffle(i); f[i] = t;
        CHECK(t < n, "Shuffle(%u)=%u is outside the batch", i, t);
        CHECK(!hit[t], "Shuffle(%u)=%u was already the target of another index", i, t); hit[t] = 1;
        uint32_t d = s.Deshuffle(t);
        CHECK(d == i, "Deshuffle(Shuffle(%u)=%u)=%u", i, t, d);
      }
      for (uint32_t i = 0; i < n; i++) { uint32_t d = s.Deshuffle(i); CHECK(d < n && s.Shuffle(d) == i, "Shuffle(Deshuffle(%u)=%u) is not %u", i, d, i); }
      for (uint32_t i = 0; i < n; i++) CHECK(s.Shuffle(i) == f[i], "Shuffle(%u) is not stable", i);
      if (h::flip()) { s.FinishForward(); for (uint32_t i = 0; i < n; i++) { uint32_t d = s.Deshuffle(i); CHECK(d < n && f[d] == i, "Deshuffle(%u) changed after FinishForward", i); } }
      if (h::flip()) { if (h::flip()) s.FinishForward(); s.FinishBackward(); }
    }
  }
  return h::done();
}
