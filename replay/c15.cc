#include "common.h"
#include "DPPIR/types/containers.h"
using namespace DPPIR;
static unsigned char at(uint64_t salt, uint64_t i, uint64_t j) { return (unsigned char)h::mix(salt, h::mix(i, j)); }
int main(int argc, char** argv) {
  h::init(argc, argv);
  long it = 0;
  while (h::more(h::seconds)) {
    it++;
    bool real = h::flip(30);
    size_t S = real ? 124 * h::range(1, 5) : h::flip(3) ? h::range(2000, 70000) : h::range(1, 40); size_t L = real ? S + 124 * h::flip() : S + (h::flip(20) ? 0 : h::below(40));
    uint32_t ns = h::flip(20) ? 0 : h::below(it < 500 ? 12 : 400), nl = h::flip(20) ? 0 : h::below(it < 500 ? 12 : 400);
    if (S > 1000) { ns %= 40; nl %= 40; }
    uint64_t salt = h::rnd();
    h::CASE(h::mix(salt, 1), "short size %zu, long size %zu, %u own ciphers, %u received ciphers", S, L, ns, nl); h::watchdog(60);
    std::vector<char> s(S), l(L), e(S);
    auto fill = [&](std::vector<char>& v, int kind, uint32_t i) { for (size_t j = 0; j < v.size(); j++) v[j] = at(salt + kind, i, j); };
    auto same = [&](const char* p, size_t n, int kind, uint32_t i) { for (size_t j = 0; j < n; j++) if ((unsigned char)p[j] != at(salt + kind, i, j)) return false; return true; };
    CipherBatch b(S, L);
    for (int round = 0, rounds = 1 + h::flip(20); round < rounds; round++) {
      b.Initialize(ns, nl);
      // the two kinds may be filled in any interleaving
      uint32_t i = 0, j = 0; int order = h::below(3);
      while (i < ns || j < nl) {
        bool sh = i < ns && (order == 0 ? true : order == 1 ? j >= nl : h::flip()); if (j >= nl) sh = true;
        if (sh) { fill(s, 0, i); b.PushShort(s.data()); i++; }
        else { CHECK(!b.FullLong(), "FullLong() after %u of %u received ciphers", j, nl); fill(l, 1, j); b.PushLong(l.data()); j++; }
      }
      CHECK(b.FullLong(), "FullLong() is false after all %u received ciphers", nl);
      uint32_t k = 0;
      while (b.HasLong()) {
        CHECK(k < nl, "more long ciphers handed out than stored");
        char* p = b.PopLong();
        CHECK(same(p, L, 1, k), "long cipher %u was modified before it was taken", k);
        fill(s, 2, k); b.PushShort(s.data()); k++;
      }
      CHECK(k == nl, "%u of %u long ciphers handed out", k, nl);
      if (ns + nl == 0) { CHECK(b.begin() == b.end(), "an empty batch lists ciphers"); continue; }
      uint32_t c = 0;
      for (auto itr = b.begin(); itr != b.end(); ++itr, c++) {
        CHECK(c < ns + nl, "final batch lists more than %u ciphers", ns + nl);
        CHECK(same(*itr, S, c < ns ? 0 : 2, c < ns ? c : c - ns), "cipher %u of the final batch is wrong", c);
        CHECK(same(b.GetShort(c), S, c < ns ? 0 : 2, c < ns ? c : c - ns), "GetShort(%u) is wrong", c);
      }
      CHECK(c == ns + nl, "final batch lists %u of %u ciphers", c, ns + nl);
      b.Free();
      // random access use: SetShort in any order
      b.Initialize(ns + nl, 0); std::vector<uint32_t> p(ns + nl); for (uint32_t x = 0; x < p.size(); x++) p[x] = x;
      for (uint32_t x = p.size(); x > 1; x--) std::swap(p[x - 1], p[h::below(x)]);
      for (uint32_t x : p) { fill(s, 3, x); b.SetShort(x, s.data()); }
      c = 0;
      for (auto itr = b.begin(); itr != b.end(); ++itr, c++) CHECK(c < p.size() && same(*itr, S, 3, c), "cipher %u set by index is wrong", c);
      CHECK(c == p.size(), "batch filled by index lists %u of %zu ciphers", c, p.size());
      b.Free();
    }
  }
  return h::done();
}
