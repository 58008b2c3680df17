#include "common.h"
#include "sodium.h"
#include "DPPIR/onion/onion.h"
using namespace DPPIR;
int main(int argc, char** argv) {
  h::init(argc, argv); if (sodium_init() < 0) return 0;
  std::vector<pkey_t> pk; std::vector<skey_t> sk;
  for (int i = 0; i < 255; i++) { pkey_t p; skey_t s; onion::GenerateKeyPair(&p, &s); pk.push_back(p); sk.push_back(s); }
  for (int k = 0; k < 256; k++) { h::CASE(k, "CipherSize(%d)", k); CHECK(onion::CipherSize(k) == (size_t)k * (sizeof(OfflineSecret) + crypto_box_SEALBYTES), "CipherSize(%d)=%zu", k, onion::CipherSize(k)); }
  long it = 0;
  while (h::more(h::seconds)) {
    it++;
    int count = it < 12 ? it : h::flip(10) ? h::edgy(1, 255) : h::range(1, 12); int first = it < 12 ? 0 : h::flip() ? h::below(std::min(count, 4)) : h::flip() ? count - 1 : h::below(count); int n = count - first;
    h::CASE(h::mix(it, h::mix(count, first)), "%d parties, first party %d", count, first); h::watchdog(60);
    std::vector<OfflineSecret> s(n);
    for (auto& x : s) { unsigned char* p = (unsigned char*)&x; for (size_t i = 0; i < sizeof x; i++) p[i] = h::rnd(); }
    std::vector<pkey_t> keys(pk.begin(), pk.begin() + (h::flip() ? count : 255));
    auto c = onion::OnionEncrypt(s.data(), first, count, keys);
    std::unique_ptr<char[]> cur(new char[onion::CipherSize(n)]); memcpy(cur.get(), c.get(), onion::CipherSize(n)); c = nullptr;
    for (int i = 0; i < n; i++) {
      std::vector<char> copy(cur.get(), cur.get() + onion::CipherSize(n - i));
      auto l = onion::OnionDecrypt(cur.get(), n - i, pk[first + i], sk[first + i]);
      CHECK(memcmp(&l.Msg(), &s[i], sizeof(OfflineSecret)) == 0, "party %d of %d (first %d) does not get its own secret", first + i, count, first);
      CHECK(memcmp(copy.data(), cur.get(), copy.size()) == 0, "decryption changes the cipher");
      size_t m = onion::CipherSize(n - i - 1);
      std::unique_ptr<char[]> nx(new char[m]); memcpy(nx.get(), l.NextLayer(), m); cur = std::move(nx);
    }
  }
  return h::done();
}
