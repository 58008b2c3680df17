// CFLAGS: -DDPPIR_SAMPLE
// LINK: -Wl,--wrap=_ZNK5DPPIR5noise17NoiseDistribution10SampleRealEv
#include "layer.h"
#include "DPPIR/protocol/client/client.h"
int main(int argc, char** argv) {
  shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pn::start(argc, argv); if (sodium_init() < 0) return 3;
  long it = 0;
  while (h::more(h::seconds)) {
    it++; int kind = it % 2;
    // kind 0: clients of one deployment, seen by the first party; kind 1: clients and all parties but the last, seen by the last
    int S = kind == 0 ? (h::flip() ? h::range(1, 6) : h::range(200, 254)) : h::flip() ? 1 : h::range(2, 3), P = h::flip(60) ? 2 : h::range(3, 4); uint32_t n = h::flip(10) ? h::range(100, 300) : h::range(1, 8), rows = S + h::below(9), nmax = h::below(4);
    std::vector<int> ids; for (int s = 0; s < S; s++) ids.push_back(s); ids = perm(ids); if (kind == 0 && ids.size() > 5) { ids.resize(5); ids.push_back(S - 1); std::sort(ids.begin(), ids.end()); ids.erase(std::unique(ids.begin(), ids.end()), ids.end()); }
    h::CASE(h::mix(it, 2), "%d parties, %d servers, %u queries per client, %u rows, up to %u noise queries per row%s", P, S, n, rows, kind ? nmax : 0, kind ? "" : " (clients only)");
    pn::newcase(); memset(shm->ns, 0, sizeof shm->ns); std::vector<skey_t> sk; config::Config conf = make_config(P, S, rows, &sk); pn::frag = 0; h::watchdog(120);
    int last = kind == 0 ? 0 : P - 1;
    for (int a = 0; a < last; a++)
      for (int s : ids)
        pn::spawn(h::rnd(), [&] {
          me = s; for (int i = 0; i < 16; i++) script.push_back(h::below(nmax + 1)); h::watchdog(100); config::Config c = conf; Database db(rows);
          if (S == 1) { protocol::Party b(a, s, std::move(c), std::move(db)); b.Start(true, false); } else { protocol::ParallelParty b(a, s, std::move(c), std::move(db)); b.Start(true, false); }
        });
    for (int s : ids) pn::spawn(h::rnd(), [&] { h::watchdog(100); config::Config c = conf; Database db(rows); protocol::Client cl(s, std::move(c), std::move(db)); cl.Start(n, true, false); });
    std::map<int, std::unique_ptr<sockets::ServerSocket>> v; size_t csz = onion::CipherSize(P - last); std::map<int, uint32_t> cnt;
    for (int s : ids) { v[s] = std::make_unique<sockets::ServerSocket>(csz); v[s]->Initialize(conf.parties[last].servers[s].port); }
    for (int s : ids) cnt[s] = v[s]->ReadCount();
    for (int s : ids) v[s]->SendReady();
    std::vector<std::set<tag_t>> seen(P);
    for (int s : ids) {
      uint32_t left = cnt[s];
      while (left) {
        auto& b = v[s]->ReadCiphers(left);
        for (char* c : b) {
          left--; std::string cur(c, csz); tag_t t = 0;
          for (int a = last; a < P; a++) {
            auto l = onion::OnionDecrypt(cur.data(), P - a, conf.parties[a].onion_pkey, sk[a]); t = l.Msg().tag;
            CHECK(seen[a].insert(t).second, "at party %d two live queries have the tag %lu (the second one comes from server %d)", a, (unsigned long)t, s);
            if (a + 1 < P) cur = std::string(l.NextLayer(), onion::CipherSize(P - a - 1));
          }
        }
        b.Clear();
      }
    }
    for (int s : ids) v[s]->SendReady();
    pn::join(); h::watchdog(0);
  }
  return h::done();
}
