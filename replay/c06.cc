#include "common.h"
#include "DPPIR/shuffle/parallel_shuffle.h"
using namespace DPPIR;
using shuffle::ParallelShuffler;
static void once(int c, const std::vector<index_t>& n, const std::vector<index_t>& noise, int seed, std::vector<std::unique_ptr<ParallelShuffler>>& s) {
  index_t total = 0; for (auto x : n) total += x;
  for (int i = 0; i < c; i++) { for (int k = h::below(3); k > 0; k--) rand(); std::vector<index_t> copy = n; s[i]->Initialize(copy.data(), noise[i]); }
  uint64_t slices = 0;
  for (int i = 0; i < c; i++) slices += s[i]->GetServerSliceSize();
  CHECK(slices == total, "slices add up to %lu of %u", slices, total);
  std::vector<std::vector<int>> fwd(c);
  for (int i = 0; i < c; i++) {
    std::vector<index_t> to(c, 0), nz(c, 0);
    for (index_t k = 0; k < n[i]; k++) { int t = s[i]->ShuffleOne(); CHECK(t < c, "server %d: target %d", i, t); fwd[i].push_back(t); to[t]++; if (k < noise[i]) nz[t]++; }
    for (int t = 0; t < c; t++) {
      CHECK(s[i]->CountToServer(t) == to[t], "server %d sends %u messages to %d, announces %u", i, to[t], t, s[i]->CountToServer(t));
      CHECK(s[i]->CountNoiseToServer(t) == nz[t], "server %d sends %u noise messages to %d, announces %u", i, nz[t], t, s[i]->CountNoiseToServer(t));
    }
    s[i]->FinishForward();
    // deshuffle: each target's messages come back in order, targets interleaved arbitrarily
    std::vector<std::vector<index_t>> want(c); for (index_t k = 0; k < n[i]; k++) want[fwd[i][k]].push_back(k);
    std::vector<size_t> at(c, 0); index_t left = n[i]; bool order = h::flip(); index_t pos = 0;
    while (left) {
      int t; if (order) t = fwd[i][pos++]; else { t = h::below(c); while (at[t] == want[t].size()) t = (t + 1) % c; }
      index_t r = s[i]->DeshuffleOne(t);
      CHECK(r == want[t][at[t]], "server %d: message %zu returned by server %d belongs to index %u, deshuffled to %u", i, at[t], t, want[t][at[t]], r);
      at[t]++; left--;
    }
  }
  for (int i = 0; i < c; i++) {
    index_t sum = 0;
    std::vector<int> src;
    for (int q = 0; q < c; q++) {
      index_t f = s[i]->CountFromServer(q);
      CHECK(f == s[q]->CountToServer(i), "server %d expects %u messages from %d which sends %u", i, f, q, s[q]->CountToServer(i));
      CHECK(s[i]->PrefixSumCountFromServer(q) == sum, "server %d: prefix sum for %d is %u, not %u", i, q, s[i]->PrefixSumCountFromServer(q), sum);
      sum += f; for (index_t k = 0; k < f; k++) src.push_back(q);
    }
    CHECK(sum == s[i]->GetServerSliceSize(), "server %d receives %u messages for a slice of %u", i, sum, s[i]->GetServerSliceSize());
    for (index_t k = 0; k < sum; k++) CHECK((int)s[i]->FindSourceOf(k) == src[k], "server %d: position %u comes from %d, not %d", i, k, src[k], s[i]->FindSourceOf(k));
    s[i]->FinishBackward();
  }
}
int main(int argc, char** argv) {
  h::init(argc, argv);
  long it = 0;
  while (h::more(h::seconds)) {
    it++;
    int c = it < 6 ? it : h::flip(3) ? h::edgy(100, 255) : h::range(1, 8); int seed = h::flip() ? (int)h::rnd() : (int)h::below(5);
    std::vector<std::unique_ptr<ParallelShuffler>> s; for (int i = 0; i < c; i++) s.push_back(std::make_unique<ParallelShuffler>(i, c, seed));
    for (int round = h::flip(30) ? 2 : 1; round > 0; round--) {
      std::vector<index_t> n(c), z(c); int kind = h::below(6); index_t mx = c > 20 ? 20 : it % 100 == 0 ? 60000 : h::flip(20) ? 300 : 12;
      for (int i = 0; i < c; i++) { n[i] = kind == 0 ? (h::flip() ? 0 : h::below(mx)) : kind == 1 ? mx : kind == 2 ? 0 : kind == 3 ? (i == c - 1 ? h::below(mx) : 0) : h::below(mx + 1); z[i] = h::flip(20) ? h::below(2 * mx) : h::edgy(0, n[i]); }
      std::string d; for (int i = 0; i < c && i < 10; i++) d += std::to_string(n[i]) + "/" + std::to_string(z[i]) + " ";
      h::CASE(h::mix(it, h::mix(c, round)), "%d servers, seed %d, inputs/noise: %s", c, seed, d.c_str()); h::watchdog(60);
      once(c, n, z, seed, s);
    }
  }
  return h::done();
}
