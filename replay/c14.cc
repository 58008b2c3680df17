#include "sodium_ctl.h"
#include "DPPIR/types/state.h"
using namespace DPPIR;
struct S { tag_t t; std::vector<incremental_share_t> v; preshare_t p; };
static void same(const std::vector<incremental_share_t>& a, const std::vector<incremental_share_t>& b, uint32_t k) {
  CHECK(a.size() == b.size(), "secret %u: %zu shares, %zu stored", k, a.size(), b.size());
  for (size_t i = 0; i < a.size(); i++) CHECK(a[i].x == b[i].x && a[i].y == b[i].y, "secret %u: share %zu is not the stored one", k, i);
}
int main(int argc, char** argv) {
  h::init(argc, argv); h::control_random();
  long it = 0;
  while (h::more(h::seconds)) {
    it++; uint32_t n = it < 20 ? it : it % 60 == 0 ? h::range(60000, 140000) : h::range(1, 300); uint8_t parties = n > 1000 ? 2 : h::edgy(1, h::flip(10) ? 255 : 6);
    bool inter = h::flip(30), noise = h::flip(30), again = h::flip(30);
    h::CASE(h::mix(it, n), "%u secrets, %d parties%s%s", n, parties, inter ? ", used one at a time" : "", noise ? ", noise" : ""); h::watchdog(60);
    ClientState c; std::vector<S> s;
    for (int round = 0; round < (again ? 2 : 1); round++) {
      c.Initialize(parties, n, noise, false); s.clear();
      auto load = [&](uint32_t k) { c.LoadNext(); CHECK(c.GetTag() == s[k].t, "query %u: tag %lu, stored %lu", k, c.GetTag(), s[k].t); same(c.GetIncrementalShares(), s[k].v, k);
        if (!noise) CHECK(c.GetPreshare() == s[k].p, "query %u: wrong preshare", k); };
      for (uint32_t k = 0; k < n; k++) {
        S x; x.t = h::rnd(); x.v.resize(parties); for (auto& q : x.v) { q.x = h::rnd(); q.y = h::rnd(); } for (auto& q : x.p) q = h::rnd();
        auto v = x.v; if (noise) c.AddNoiseSecret(x.t, std::move(v)); else c.AddSecret(x.t, std::move(v), x.p);
        s.push_back(x);
        if (inter) load(k);
      }
      if (!inter) for (uint32_t k = 0; k < n; k++) load(k);
      if (!noise) { c.FinishSharing(); for (uint32_t k = 0; k < n; k++) { c.LoadNext(); CHECK(c.GetPreshare() == s[k].p, "response %u: preshare is not the one stored with query %u", k, k); } }
      c.Free();
    }
    h::CASE(h::mix(it, n + 1), "simulated, %d parties%s", parties, noise ? ", noise" : "");
    ClientState q; q.Initialize(parties, n, noise, true); preshare_t zero; zero.fill(0);
    for (uint32_t k = 0; k < 5; k++) {
      q.LoadNext(); CHECK(q.GetTag() == 0, "simulated tag %lu", q.GetTag());
      CHECK(q.GetIncrementalShares().size() == parties, "simulated: %zu shares for %d parties", q.GetIncrementalShares().size(), parties);
      for (auto& e : q.GetIncrementalShares()) CHECK(e.x == 0 && e.y == 1, "simulated share is not the identity");
      if (!noise) CHECK(q.GetPreshare() == zero, "simulated preshare is not zero");
    }
    if (!noise) { q.FinishSharing(); for (int k = 0; k < 3; k++) { q.LoadNext(); CHECK(q.GetPreshare() == zero, "simulated preshare is not zero after sharing"); } }
  }
  return h::done();
}
