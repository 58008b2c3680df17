#include "sodium_ctl.h"
#include "DPPIR/sharing/additive.h"
#include "DPPIR/types/types.h"
using namespace DPPIR;
int main(int argc, char** argv) {
  h::init(argc, argv); h::control_random();
  long it = 0;
  while (h::more(h::seconds)) {
    size_t n = it < 200 ? it + 1 : h::flip(2) ? h::range(1000, 70000) : h::range(1, 300); it++;
    h::rmode = it % 7 == 1 ? 1 : it % 7 == 2 ? 2 : 0; h::bufs.clear();
    h::CASE(h::mix(n, it), "n=%zu random source mode %d", n, h::rmode); h::watchdog(60);
    auto s = sharing::GenerateAdditiveSecretShares(n);
    CHECK(s.size() == n, "%zu shares instead of %zu", s.size(), n);
    unsigned char x[52] = {0};
    for (auto& q : s) { CHECK(q.size() == 52, "share of %zu bytes", q.size()); for (int j = 0; j < 52; j++) x[j] ^= (unsigned char)q[j]; }
    for (int j = 0; j < 52; j++) CHECK(x[j] == 0, "xor of all shares is not zero at byte %d", j);
    // all but one are draws of their own
    std::multiset<std::string> d; size_t drawn = 0;
    for (auto& b : h::bufs) { drawn += b.size(); if (b.size() == 52) d.insert(std::string(b.begin(), b.end())); }
    CHECK(drawn >= 52 * (n - 1), "only %zu random bytes drawn for %zu masks", drawn, n - 1);
    if (d.size() == h::bufs.size()) { size_t own = 0; for (auto& q : s) { auto f = d.find(std::string(q.begin(), q.end())); if (f != d.end()) { d.erase(f); own++; } } CHECK(own >= n - 1, "only %zu of %zu shares are random draws of their own", own, n); }
    Response v, w; unsigned char* p = (unsigned char*)&v; for (int j = 0; j < 52; j++) p[j] = h::flip(20) ? 0 : h::rnd();
    w = v;
    std::vector<size_t> o(n); for (size_t i = 0; i < n; i++) o[i] = i;
    if (h::flip()) for (size_t i = n; i > 1; i--) std::swap(o[i - 1], o[h::below(i)]);
    for (size_t i = 0; i < n; i++) {
      const preshare_t& q = s[o[i]]; preshare_t q0 = q;
      if (h::flip()) sharing::AdditiveReconstruct(w, q, &w);
      else {
        char g[52 + 32]; memset(g, 0x5a, sizeof g); Response* t = (Response*)(g + 16); Response w0 = w;
        sharing::AdditiveReconstruct(w, q, t);
        CHECK(memcmp(&w0, &w, 52) == 0 && q0 == q, "source or share changed");
        for (int j = 0; j < 16; j++) CHECK(g[j] == 0x5a && g[68 + j] == 0x5a, "bytes outside the target changed");
        for (int j = 0; j < 52; j++) CHECK(((unsigned char*)t)[j] == (unsigned char)(((unsigned char*)&w0)[j] ^ (unsigned char)q[j]), "byte %d is not source xor share", j);
        w = *t;
      }
    }
    CHECK(memcmp(&v, &w, 52) == 0, "applying all %zu shares does not give back the response", n);
  }
  return h::done();
}
