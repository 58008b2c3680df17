// CFLAGS: -DDPPIR_SAMPLE
// LINK: -Wl,--wrap=_ZNK5DPPIR5noise17NoiseDistribution10SampleRealEv
#include "layer.h"
#include "DPPIR/protocol/backend/backend.h"
#include "DPPIR/protocol/client/client.h"
// secrets, queries and responses of one client, without a network (skipped if these functions do not exist)
template <class C> static auto local(C& c, uint32_t n, const Database& db, int P, int) -> decltype(c.MakeSecret(0), c.MakeQuery(0), c.ReconstructResponse((Response*)0), c.state_.Initialize(P, n, false, false), void()) {
  c.queries_count_ = n; c.state_.Initialize(P, n, false, false); std::vector<std::vector<OfflineSecret>> sec;
  for (uint32_t i = 0; i < n; i++) { auto s = c.MakeSecret(i); sec.emplace_back(s.get(), s.get() + P); }
  std::vector<uint32_t> keys; std::set<tag_t> tags;
  for (uint32_t i = 0; i < n; i++) {
    uint32_t key = h::below(db.Size()); keys.push_back(key); Query q = c.MakeQuery(key); tag_t t = q.tag; uint32_t y = q.tally;
    CHECK(tags.insert(t).second, "two queries of one client share the tag %lu", (unsigned long)t);
    for (int a = 0; a < P; a++) { CHECK(sec[i][a].tag == t, "query %u reaches party %d with tag %lu but its secret has tag %lu", i, a, (unsigned long)t, (unsigned long)sec[i][a].tag); t = sec[i][a].next_tag; y = sharing::IncrementalReconstruct(y, sec[i][a].share); }
    CHECK(y == key, "query for key %u reaches the database as %u", key, y);
  }
  c.state_.FinishSharing();
  for (uint32_t i = 0; i < n; i++) {
    Response r = db.Lookup(keys[i]); for (int a = 0; a < P; a++) for (size_t j = 0; j < sizeof r; j++) ((char*)&r)[j] ^= sec[i][a].preshare[j];
    c.ReconstructResponse(&r); CHECK(memcmp(&r, &db.Lookup(keys[i]), sizeof r) == 0, "the client reconstructs something else than the row of key %u", keys[i]);
  }
}
template <class C> static void local(C&, uint32_t, const Database&, int, long) {}
int main(int argc, char** argv) {
  shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pn::start(argc, argv); if (sodium_init() < 0) return 3;
  long it = 0; const uint64_t PR = 2147483647ull;
  while (h::more(h::seconds)) {
    it++; int S = it < 4 ? 1 : h::flip(55) ? 1 : h::range(2, 3), P = it < 3 ? 1 + it : h::flip(50) ? 2 : h::range(3, 5); uint32_t rows = h::flip(20) ? h::range(S, S + 2) : h::range(S, S + 29); bool sim = h::flip(20); int kind = h::below(3);
    uint32_t n = h::flip(10) ? h::range(100, 400) : h::range(1, 10); uint32_t nmax = h::below(4); int frag = h::below(5);
    h::CASE(h::mix(it, 2), "%s, %d parties, %d servers each, %u rows, %u queries per client, up to %u noise queries per row, fragmentation %d%s", kind == 0 ? "client alone" : kind == 1 ? "client and all parties" : "scripted client and all parties", P, S, rows, n, nmax, frag, sim ? ", simulated offline stage" : "");
    pn::newcase(); memset(shm->ns, 0, sizeof shm->ns); std::vector<skey_t> sk; config::Config conf = make_config(P, S, rows, &sk); pn::frag = 0; h::watchdog(120);
    std::vector<pkey_t> pk; for (auto& a : conf.parties) pk.push_back(a.onion_pkey);
    if (kind == 0) {
      pn::spawn(h::rnd(), [&] { h::watchdog(100); Database db(rows), db2(rows); config::Config c = conf; protocol::Client cl(h::below(S), std::move(c), std::move(db)); local(cl, n, db2, P, 0); });
      for (int s = 0; s < S; s++) { }  // the client connects to one server
      int any = 0; { std::vector<std::unique_ptr<sockets::ServerSocket>> v; std::vector<int> fds;
        for (int s = 0; s < S; s++) { int fd = socket(0, 0, 0); sockaddr_in a; a.sin_port = htons(conf.parties[0].servers[s].port); bind(fd, (sockaddr*)&a, sizeof a); listen(fd, 5); } any = 1; }
      pn::join(); (void)any; continue;
    }
    for (int a = 0; a < P; a++)
      for (int s = 0; s < S; s++)
        pn::spawn(h::rnd(), [&] {
          me = s; for (int i = 0; i < 16; i++) script.push_back(h::below(nmax + 1)); pn::frag = frag; h::watchdog(100); config::Config c = conf; Database db(rows);
          if (a == P - 1) { protocol::BackendParty b(s, std::move(c), std::move(db)); b.Start(!sim, true); }
          else if (S == 1) { protocol::Party b(a, s, std::move(c), std::move(db)); b.Start(!sim, true); }
          else { protocol::ParallelParty b(a, s, std::move(c), std::move(db)); b.Start(!sim, true); }
        });
    if (kind == 1) {
      for (int s = 0; s < S; s++) pn::spawn(h::rnd(), [&] { pn::frag = frag; h::watchdog(100); config::Config c = conf; Database db(rows); protocol::Client cl(s, std::move(c), std::move(db)); cl.Start(n, !sim, true); });
    } else {
      uint64_t tin = (uint64_t)n * S; std::vector<tag_t> ids; for (uint64_t i = 0; i < tin; i++) ids.push_back(i);
      std::vector<std::vector<tag_t>> tag; for (int a = 0; a <= P; a++) tag.push_back(perm(ids));
      std::vector<std::vector<OfflineSecret>> sec(tin);
      for (uint64_t i = 0; i < tin; i++) for (int a = 0; a < P; a++) { OfflineSecret o; o.tag = tag[a][i]; o.next_tag = tag[a + 1][i]; o.share.x = sim ? 0 : h::below(PR); o.share.y = sim ? 1 : 1 + h::below(PR - 1); o.preshare = rpre(); if (sim) o.preshare.fill(0); sec[i].push_back(o); }
      std::vector<std::unique_ptr<sockets::ClientSocket>> back; size_t csz = onion::CipherSize(P);
      for (int s = 0; s < S; s++) { back.push_back(std::make_unique<sockets::ClientSocket>(csz)); back[s]->Initialize("127.0.0.1", conf.parties[0].servers[s].port); }
      for (int s = 0; s < S; s++) back[s]->SendCount(n);
      for (int s = 0; s < S; s++) back[s]->WaitForReady();
      if (!sim) {
        for (int s = 0; s < S; s++) { for (uint32_t i = 0; i < n; i++) { auto c = onion::OnionEncrypt(sec[s * n + i].data(), 0, P, pk); back[s]->SendCipher(c.get()); } back[s]->FlushCiphers(); }
        for (int s = 0; s < S; s++) back[s]->WaitForReady();
      }
      Database db(rows); std::vector<uint32_t> keys(tin);
      for (int s = 0; s < S; s++) {
        for (uint32_t i = 0; i < n; i++) { uint64_t k = s * n + i; keys[k] = h::below(rows); std::vector<incremental_share_t> sh; for (auto& o : sec[k]) sh.push_back(o.share); Query q; q.tag = sim ? 0 : sec[k][0].tag; q.tally = sim ? keys[k] : sharing::GenerateIncrementalTally(keys[k], sh); back[s]->SendQuery(q); }
        back[s]->FlushQueries();
      }
      for (int s = 0; s < S; s++) {
        uint32_t got = 0;
        while (got < n) {
          auto& b = back[s]->ReadResponses(n - got);
          for (Response& r : b) { uint64_t k = s * n + got++; for (int a = 0; a < P; a++) for (size_t j = 0; j < sizeof r; j++) ((char*)&r)[j] ^= sec[k][a].preshare[j]; CHECK(memcmp(&r, &db.Lookup(keys[k]), sizeof r) == 0, "query %lu of server %d for key %u is answered with something else than that row", (unsigned long)k % n, s, keys[k]); }
          b.Clear();
        }
      }
    }
    pn::join(); h::watchdog(0);
  }
  return h::done();
}
