// One party (all its servers, each a process of its own) between a scripted previous hop and a scripted next party.
#pragma once
#include "proc.h"
#include "DPPIR/config/config.h"
#include "DPPIR/noise/noise.h"
#include "DPPIR/onion/onion.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
#include "DPPIR/protocol/party/party.h"
#include "DPPIR/sharing/additive.h"
#include "DPPIR/sharing/incremental.h"
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/server_socket.h"
#include "DPPIR/types/database.h"
using namespace DPPIR;
struct Shm { uint32_t ns[256]; uint32_t sample[256][4096]; };
static Shm* shm; static int me = 0; static std::vector<uint32_t> script;
// the noise samples are chosen by the harness (any value the distribution could give is possible)
extern "C" uint32_t __wrap__ZNK5DPPIR5noise17NoiseDistribution10SampleRealEv(void*) {
  uint32_t i = shm->ns[me]++; uint32_t v = script.empty() ? 0 : script[i % script.size()];
  if (i < 4096) shm->sample[me][i] = v;
  return v;
}
struct LayerCase {
  int S, P, p; uint32_t rows; bool simulated; std::vector<uint32_t> inputs; std::vector<std::vector<uint32_t>> scripts; int frag;
};
struct LayerResult {  // what the harness saw
  std::vector<uint32_t> announced; uint64_t total_in = 0, total_noise = 0;
};
enum { W_FORWARD = 1, W_RESPONSE = 2, W_COUNTS = 4, W_TAGS = 8 };
static config::Config make_config(int P, int S, uint32_t rows, std::vector<skey_t>* sk) {
  config::Config c; c.db_size = rows; c.epsilon = 1; c.delta = 0.5; c.party_count = P; c.server_count = S;
  for (int a = 0; a < P; a++) {
    config::PartyConfig pc; pc.shared_seed = h::rnd(); crypto_box_keypair(pc.onion_pkey.data(), pc.onion_skey.data()); sk->push_back(pc.onion_skey);
    for (int s = 0; s < S; s++) { config::ServerConfig sc; sc.local_seed = h::rnd(); sc.port = 2000 + a * 260 + s; sc.parallel_port = 12000 + a * 260 + s; sc.ip = "127.0.0.1"; pc.servers.push_back(sc); }
    c.parties.push_back(pc);
  }
  return c;
}
static preshare_t rpre() { preshare_t r; for (auto& x : r) x = h::rnd(); return r; }
template <typename T> static std::vector<T> perm(std::vector<T> v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[h::below(i)]); return v; }
static bool ambiguous = false;
static void run_layer(const LayerCase& k, int what) {
  const uint64_t PR = 2147483647ull;
  pn::newcase(); memset(shm->ns, 0, sizeof shm->ns); pn::frag = 0;
  std::vector<skey_t> sk; config::Config conf = make_config(k.P, k.S, k.rows, &sk); std::vector<pkey_t> pk; for (auto& a : conf.parties) pk.push_back(a.onion_pkey);
  for (int s = 0; s < k.S; s++)
    pn::spawn(h::rnd(), [&] {
      me = s; script = k.scripts[s]; pn::frag = k.frag; h::watchdog(100); config::Config c = conf; Database db(k.rows);
      if (k.S == 1) { protocol::Party a(k.p, s, std::move(c), std::move(db)); a.Start(!k.simulated, true); }
      else { protocol::ParallelParty a(k.p, s, std::move(c), std::move(db)); a.Start(!k.simulated, true); }
    });
  h::watchdog(120);
  size_t csz = onion::CipherSize(k.P - k.p), nsz = onion::CipherSize(k.P - k.p - 1);
  std::vector<std::unique_ptr<sockets::ClientSocket>> back; std::vector<std::unique_ptr<sockets::ServerSocket>> next;
  for (int s = 0; s < k.S; s++) { back.push_back(std::make_unique<sockets::ClientSocket>(csz)); next.push_back(std::make_unique<sockets::ServerSocket>(nsz)); }
  for (int s = 0; s < k.S; s++) { back[s]->Initialize("127.0.0.1", conf.parties[k.p].servers[s].port); next[s]->Initialize(conf.parties[k.p + 1].servers[s].port); }
  uint64_t tin = 0; for (auto n : k.inputs) tin += n;
  for (int s = 0; s < k.S; s++) back[s]->SendCount(k.inputs[s]);
  std::vector<uint32_t> ann(k.S); uint64_t tann = 0; for (int s = 0; s < k.S; s++) { ann[s] = next[s]->ReadCount(); tann += ann[s]; }
  // noise the servers sampled
  uint64_t tnoise = 0; std::vector<std::vector<uint32_t>> smp(k.S); bool hooked = true;
  for (int s = 0; s < k.S; s++) { for (uint32_t i = 0; i < shm->ns[s] && i < 4096; i++) { smp[s].push_back(shm->sample[s][i]); tnoise += smp[s].back(); } auto r = noise::FindRange(s, k.S, k.rows); if (shm->ns[s] != r.second - r.first) hooked = false; }
  CHECK(tann == tin + tnoise, "%lu queries come in and %lu noise queries were sampled, but the announced counts add up to %lu", tin, tnoise, tann);
  if (k.S == 1) CHECK(ann[0] == tin + tnoise, "announced %u for %lu inputs and %lu noise", ann[0], tin, tnoise);
  // secrets of the inputs, for this and every later party
  std::vector<tag_t> ids; for (uint64_t i = 0; i < tin; i++) ids.push_back(i);
  int L = k.P - k.p; std::vector<std::vector<tag_t>> tag; for (int a = 0; a <= L; a++) tag.push_back(perm(ids));
  std::vector<std::vector<OfflineSecret>> sec(tin);
  for (uint64_t i = 0; i < tin && !k.simulated; i++)
    for (int a = 0; a < L; a++) { OfflineSecret o; o.tag = tag[a][i]; o.next_tag = tag[a + 1][i]; o.share.x = h::below(PR); o.share.y = 1 + h::below(PR - 1); o.preshare = rpre(); sec[i].push_back(o); }
  auto key_of = [](const OfflineSecret& o) { return std::string((const char*)&o, sizeof o); };
  std::map<tag_t, std::vector<OfflineSecret>> noise;  // noise secrets of the later parties, by tag
  if (!k.simulated) {
    for (int s = 0; s < k.S; s++) next[s]->SendReady();
    for (int s = 0; s < k.S; s++) back[s]->WaitForReady();
    uint64_t at = 0;
    for (int s = 0; s < k.S; s++) {
      std::vector<uint64_t> mine; for (uint32_t i = 0; i < k.inputs[s]; i++) mine.push_back(at + i);
      for (uint64_t i : perm(mine)) { auto c = onion::OnionEncrypt(sec[i].data(), k.p, k.P, pk); back[s]->SendCipher(c.get()); }
      back[s]->FlushCiphers(); at += k.inputs[s];
    }
    std::map<std::string, long> want; std::vector<std::vector<OfflineSecret>> extra;
    for (uint64_t i = 0; i < tin; i++) { std::string w; for (int a = 1; a < L; a++) w += key_of(sec[i][a]); want[w]++; }
    for (int s = 0; s < k.S; s++) {
      uint32_t left = ann[s];
      while (left) {
        auto& b = next[s]->ReadCiphers(left);
        for (char* c : b) {
          left--; std::string w; std::vector<OfflineSecret> v; std::string cur(c, nsz);
          for (int a = 1; a < L; a++) { auto l = onion::OnionDecrypt(cur.data(), L - a, pk[k.p + a], sk[k.p + a]); v.push_back(l.Msg()); w += key_of(l.Msg()); if (a + 1 < L) cur = std::string(l.NextLayer(), onion::CipherSize(L - a - 1)); }
          auto f = want.find(w);
          if (f != want.end() && f->second > 0) f->second--; else extra.push_back(v);
        }
        b.Clear();
      }
    }
    if (what & (W_FORWARD | W_TAGS)) {
      for (auto& w : want) CHECK(w.second == 0, "the secrets of an input query were not forwarded to the next party");
      CHECK(extra.size() == tnoise, "%zu noise secrets forwarded, %lu noise queries sampled", extra.size(), tnoise);
    }
    for (auto& v : extra) {
      if (noise.count(v[0].tag) && (what & (W_FORWARD | W_TAGS))) h::fail("two noise queries share the tag %lu", (unsigned long)v[0].tag);
      noise[v[0].tag] = v;
      if (what & W_TAGS) CHECK(v[0].tag >= tin, "the tag %lu of a noise query is also the tag of an input query", (unsigned long)v[0].tag);
    }
  }
  for (int s = 0; s < k.S; s++) next[s]->SendReady();
  for (int s = 0; s < k.S; s++) back[s]->WaitForReady();
  // online
  std::vector<std::vector<uint64_t>> order(k.S); std::vector<uint32_t> tally(tin); std::map<std::pair<tag_t, uint32_t>, std::vector<uint64_t>> handled; std::vector<uint64_t> owner(tin);
  uint64_t at = 0; std::set<uint32_t> usedt;
  for (int s = 0; s < k.S; s++) { std::vector<uint64_t> mine; for (uint32_t i = 0; i < k.inputs[s]; i++) { mine.push_back(at + i); owner[at + i] = s; } order[s] = perm(mine); at += k.inputs[s]; }
  // a query may reach any server of the party, whichever received its secret
  if (k.S > 1 && !k.simulated && h::flip()) { std::vector<uint64_t> all; for (uint64_t i = 0; i < tin; i++) all.push_back(i); all = perm(all); at = 0; for (int s = 0; s < k.S; s++) { order[s].assign(all.begin() + at, all.begin() + at + k.inputs[s]); at += k.inputs[s]; } }
  for (uint64_t i = 0; i < tin; i++) {
    do tally[i] = k.simulated ? k.rows + h::below(PR - k.rows) : h::below(PR); while (k.simulated && !usedt.insert(tally[i]).second);
    uint32_t t2 = k.simulated ? tally[i] : sharing::IncrementalReconstruct(tally[i], sec[i][0].share);
    handled[{k.simulated ? 0 : sec[i][0].next_tag, t2}].push_back(i);
  }
  for (int s = 0; s < k.S; s++) { for (uint64_t i : order[s]) { Query q; q.tag = k.simulated ? i : sec[i][0].tag; q.tally = tally[i]; back[s]->SendQuery(q); } back[s]->FlushQueries(); }
  std::vector<std::vector<int64_t>> fwd(k.S); std::map<tag_t, int> used; std::vector<uint32_t> perkey(k.rows, 0); std::vector<int> seen(tin, 0);
  for (int s = 0; s < k.S; s++) {
    uint32_t left = ann[s];
    while (left) {
      auto& b = next[s]->ReadQueries(left);
      for (Query& q : b) {
        left--; int64_t who = -1;
        auto f = handled.find({k.simulated ? 0 : (tag_t)q.tag, (uint32_t)q.tally});
        bool isnoise = noise.count(q.tag) && (f == handled.end() || f->second.empty());
        if (f != handled.end() && !f->second.empty()) { who = f->second.back(); f->second.pop_back(); seen[who]++; }
        else if (!k.simulated) {
          if (!isnoise) { if (what & W_FORWARD) h::fail("server %d forwards a query (tag %lu, tally %u) that is neither a handled input nor noise", s, (unsigned long)q.tag, q.tally); }
          else {
            if (used[q.tag]++ && (what & (W_FORWARD | W_TAGS))) h::fail("two noise queries use the secret with tag %lu", (unsigned long)q.tag);
            uint32_t t = q.tally; for (auto& o : noise[q.tag]) t = sharing::IncrementalReconstruct(t, o.share);
            if (t < k.rows) perkey[t]++; else if (what & W_FORWARD) h::fail("a noise query asks for key %u of %u", t, k.rows);
          }
        } else if (q.tally < k.rows) perkey[q.tally]++;
        else if (what & W_FORWARD) h::fail("server %d forwards a query with tally %u that is neither an input nor noise", s, q.tally);
        fwd[s].push_back(who);
      }
      b.Clear();
    }
  }
  if (what & W_FORWARD) {
    for (uint64_t i = 0; i < tin; i++) CHECK(seen[i] == 1, "query %lu of the input was not forwarded in its handled form", i);
    if (hooked) for (int s = 0; s < k.S; s++) {
      auto r = noise::FindRange(s, k.S, k.rows); std::vector<uint32_t> a(perkey.begin() + r.first, perkey.begin() + r.second), b = smp[s]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
      CHECK(a == b, "the noise queries per key of server %d do not match its samples", s);
    }
  }
  // responses
  std::vector<Response> resp(tin);
  for (int s = 0; s < k.S; s++) { for (int64_t who : fwd[s]) { Response r; for (size_t j = 0; j < sizeof r; j++) ((char*)&r)[j] = h::rnd(); if (who >= 0) resp[who] = r; next[s]->SendResponse(r); } next[s]->FlushResponses(); }
  for (int s = 0; s < k.S; s++) {
    uint32_t got = 0;
    while (got < k.inputs[s]) {
      auto& b = back[s]->ReadResponses(k.inputs[s] - got);
      for (Response& r : b) {
        uint64_t i = order[s][got++]; if (!seen[i]) { ambiguous = true; continue; }
        char e[sizeof(Response)]; for (size_t j = 0; j < sizeof e; j++) e[j] = ((char*)&resp[i])[j] ^ (k.simulated ? 0 : sec[i][0].preshare[j]);
        if (what & W_RESPONSE) CHECK(memcmp(e, &r, sizeof e) == 0, "server %d: response number %u is not the unmasked response to query number %u", s, got - 1, got - 1);
      }
      b.Clear();
    }
  }
  pn::join();
  // nothing more was sent back
  if (what & W_RESPONSE) for (int fd = 3; fd < 4096; fd++) if (pn::is_sock[fd]) { char c; struct pollfd q = {fd, POLLIN, 0}; if (poll(&q, 1, 0) > 0 && (q.revents & POLLIN)) if (syscall(SYS_recvfrom, fd, &c, 1, MSG_DONTWAIT, 0, 0) > 0) h::fail("the party sent more than was due"); }
  h::watchdog(0);
}
static int layer_main(int argc, char** argv, bool par, int what) {
  shm = (Shm*)mmap(0, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  pn::start(argc, argv); if (sodium_init() < 0) return 3;
  long it = 0;
  while (h::more(h::seconds)) {
    it++; LayerCase k; k.S = par ? (h::flip(60) ? 2 : h::range(3, 5)) : 1; k.P = h::flip(60) ? 2 : h::range(3, 5); k.p = h::below(k.P - 1); k.rows = h::flip(30) ? h::range(k.S, k.S + 1) : h::range(k.S, k.S + 11);
    k.simulated = h::flip(25); int kind = h::below(6); bool big = it % 40 == 0; uint32_t mx = big ? 12500 : h::flip(20) ? 300 : 12; if (big) { k.simulated = true; }
    for (int s = 0; s < k.S; s++) k.inputs.push_back(kind == 0 ? (h::flip() ? 0 : h::below(mx)) : kind == 1 ? 0 : kind == 2 ? mx : h::below(mx + 1));
    int nk = h::below(5);
    for (int s = 0; s < k.S; s++) { std::vector<uint32_t> v; for (int i = 0; i < 16; i++) v.push_back(nk == 0 ? 0 : nk == 1 ? 1 : nk == 2 ? (h::flip() ? 0 : h::below(6)) : nk == 3 && h::flip(20) ? h::below(40) : h::below(4)); k.scripts.push_back(v); }
    k.frag = big ? (h::flip() ? 0 : 3) : h::below(5);
    std::string d; for (int s = 0; s < k.S; s++) { d += std::to_string(k.inputs[s]) + " (noise"; for (int i = 0; i < 6; i++) d += " " + std::to_string(k.scripts[s][i]); d += "...) "; }
    h::CASE(h::mix(it, 1), "%s, %d servers, party %d of %d, %u rows, fragmentation %d, inputs per server: %s", k.simulated ? "simulated offline stage" : "with offline stage", k.S, k.p, k.P, k.rows, k.frag, d.c_str());
    run_layer(k, what);
  }
  return h::done();
}
