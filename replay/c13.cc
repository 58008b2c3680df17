#include <sys/wait.h>
#include <fcntl.h>
#include "sodium_ctl.h"
#include "DPPIR/types/state.h"
using namespace DPPIR;
static OfflineSecret mk(tag_t t) {
  OfflineSecret s; s.tag = t; s.next_tag = h::edgy(0, ~0ull); s.share.x = h::edgy(0, 2147483646); s.share.y = h::edgy(1, 2147483646);
  for (auto& c : s.preshare) c = h::rnd();
  return s;
}
template <class F> static bool dies(F f) {
  fflush(stdout); pid_t p = fork();
  if (p == 0) { int n = open("/dev/null", O_WRONLY); dup2(n, 2); dup2(n, 1); signal(SIGABRT, SIG_DFL); f(); _exit(0); }
  int st; waitpid(p, &st, 0); return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
static tag_t freshtag(std::map<tag_t, OfflineSecret>& m) {
  for (;;) { tag_t t; switch (h::below(5)) { case 0: t = h::below(8); break; case 1: t = ~0ull - h::below(4); break; case 2: t = h::below(4) << (8 * h::below(8)); break; case 3: t = h::below(100000); break; default: t = h::rnd(); } if (!m.count(t)) return t; }
}
int main(int argc, char** argv) {
  h::init(argc, argv); h::control_random();
  long it = 0;
  while (h::more(h::seconds)) {
    it++; uint32_t n = it % 50 == 0 ? h::range(1000, 20000) : h::range(1, 60);
    h::CASE(h::mix(it, n), "%u secrets with distinct tags", n); h::watchdog(60);
    std::map<tag_t, OfflineSecret> m; PartyState ps; BackendState bs; ps.Initialize(false); bs.Initialize(false); std::vector<tag_t> tags;
    auto look = [&](tag_t t) {
      const OfflineSecret& s = m[t];
      ps.LoadSecret(t);
      CHECK(ps.GetNextTag() == s.next_tag, "party: tag %lu: next tag %lu, stored %lu", t, ps.GetNextTag(), (tag_t)s.next_tag);
      CHECK(ps.GetIncremental().x == s.share.x && ps.GetIncremental().y == s.share.y, "party: tag %lu: wrong incremental share", t);
      tag_t other = tags[h::below(tags.size())];
      CHECK(memcmp(&ps.GetPreshare(other), &m[other].preshare, 52) == 0, "party: tag %lu: wrong preshare", other);
      CHECK(ps.GetNextTag() == s.next_tag, "party: tag %lu: GetPreshare of another tag changed the loaded secret", t);
      bs.LoadSecret(t);
      CHECK(bs.GetIncremental().x == s.share.x && bs.GetIncremental().y == s.share.y, "backend: tag %lu: wrong incremental share", t);
      CHECK(memcmp(&bs.GetPreshare(), &s.preshare, 52) == 0, "backend: tag %lu: wrong preshare", t);
    };
    for (uint32_t i = 0; i < n; i++) {
      tag_t t = freshtag(m); OfflineSecret s = mk(t); m[t] = s; tags.push_back(t); ps.Store(s); bs.Store(s); memset(&s, 0x5a, sizeof s);
      if (h::flip(20)) look(tags[h::below(tags.size())]);
    }
    for (tag_t t : tags) look(t);
    CHECK(ps.size() == n && bs.size() == n, "%u secrets stored, %u / %u held", n, ps.size(), bs.size());
    uint32_t c = 0; for (auto it = ps.begin(); it != ps.end(); ++it) { c++; CHECK(m.count(it->first) && m[it->first].next_tag == it->second.next_tag, "iteration yields a secret that was not stored"); }
    CHECK(c == n, "iteration yields %u of %u secrets", c, n);
    if (it % 40 == 1) {
      tag_t t = tags[h::below(n)]; OfflineSecret d = h::flip() ? m[t] : mk(t);
      h::CASE(h::mix(it, 77), "tag %lu stored twice", t);
      CHECK(dies([&] { ps.Store(d); }), "party accepts tag %lu a second time", t);
      CHECK(dies([&] { bs.Store(d); }), "backend accepts tag %lu a second time", t);
    }
    PartyState sp; BackendState sb; sp.Initialize(true); sb.Initialize(true); preshare_t zero; zero.fill(0);
    for (int i = 0; i < 5; i++) {
      tag_t t = h::flip() ? h::rnd() : h::below(5), u = h::rnd(); h::CASE(h::mix(it, i + 100), "simulated lookup of tag %lu", t);
      sp.LoadSecret(t); sb.LoadSecret(t);
      CHECK(sp.GetNextTag() == 0 && sp.GetIncremental().x == 0 && sp.GetIncremental().y == 1 && sp.GetPreshare(u) == zero, "party: simulated secret is not the identity");
      CHECK(sb.GetIncremental().x == 0 && sb.GetIncremental().y == 1 && sb.GetPreshare() == zero, "backend: simulated secret is not the identity");
    }
  }
  return h::done();
}
