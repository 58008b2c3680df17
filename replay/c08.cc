#include "common.h"
#include <math.h>
#include <iostream>
#include "DPPIR/noise/noise.h"
using namespace DPPIR;
static int fixed[2]; static int pos = 0; static bool ctl = false;
extern "C" int rand(void) noexcept { return ctl ? fixed[pos++ & 1] : (int)(h::rnd() >> 33); }
extern "C" void srand(unsigned) noexcept {}
int main(int argc, char** argv) {
  h::init(argc, argv);
  std::cout.setstate(std::ios_base::badbit);
  long it = 0;
  const double es[] = {0.01, 0.1, 0.5, 1, 2, 2.302585, 10, 100}, ds[] = {1, 0.5, 0.1, 0.01, 1e-6, 1e-9};
  while (h::more(h::seconds)) {
    double e = h::flip() ? es[h::below(8)] : exp((double)h::below(1000) / 1000 * 9 - 5), d = h::flip() ? ds[h::below(6)] : exp(-(double)h::below(20000) / 1000.0);
    int z = it % 17; if (z == 0) e = 0; if (z == 1) d = 0; if (z == 2) e = d = 0;
    it++;
    bool none = e == 0 || d == 0;
    long double cut = none ? 0 : (2.0L / e) * logl(1.0L / d), tol = 1e-6L * (1 + cut);
    if (2 * cut >= 4294967295.0L) continue;
    h::CASE(h::mix(it, (uint64_t)(e * 1e6)), "epsilon=%.17g delta=%.17g", e, d); h::watchdog(60);
    noise::NoiseDistribution nd(e, d);
    ctl = false;
    for (int k = 0; k < 3; k++) { long double v = nd.Sample(); CHECK(v <= cut + tol && v >= 0 && v > cut - 1 - tol, "default noise amount %.0Lf, cutoff is %.8Lf", v, cut); }
    CHECK(none || fabsl(nd.cutoff_ - cut) <= tol, "cutoff is %.12g, (2/epsilon)ln(1/delta) is %.12Lg", nd.cutoff_, cut);
    for (int k = 0; k < 12; k++) {
      fixed[0] = h::flip(20) ? 0 : h::flip(20) ? RAND_MAX : (int)h::below(RAND_MAX); fixed[1] = h::flip(15) ? 0 : h::flip(15) ? RAND_MAX : h::flip(10) ? RAND_MAX / 2 + (int)h::below(3) : h::flip(30) ? (int)h::below(RAND_MAX >> h::below(30)) : (int)h::below(RAND_MAX);
      pos = 0; ctl = true;
      h::CASE(h::mix(fixed[0], h::mix(fixed[1], it)), "epsilon=%.17g delta=%.17g rand()=%d,%d", e, d, fixed[0], fixed[1]);
      long double v = nd.SampleReal(); ctl = false;
      CHECK(v >= 0 && v <= 2 * cut + 2 * tol, "%.0Lf noise queries sampled, twice the cutoff is %.8Lf", v, 2 * cut);
      long double u0 = fixed[0] / (long double)RAND_MAX, u1 = fixed[1] / (long double)RAND_MAX, dd = fabsl(u1 - 0.5L);
      if (none || 1 - 2 * dd < 1e-7L) { if (!none) { long double lim = u0 < 0.5L ? 0 : 2 * cut; (void)lim; } continue; }
      long double lap = -(u0 < 0.5L ? -1 : 1) * (2.0L / e) * logl(1 - 2 * dd), w = cut + (lap < cut ? lap : cut); if (w < 0) w = 0;
      CHECK(v <= w + tol && v > w - 1 - tol, "%.0Lf noise queries sampled, clamped shifted Laplace value is %.8Lf", v, w);
    }
  }
  return h::done();
}
