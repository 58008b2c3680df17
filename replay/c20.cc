#include "sodium_ctl.h"
#include "DPPIR/types/database.h"
using namespace DPPIR;
static void eq(const Response& a, const Response& b) {
  bool want = memcmp(&a, &b, 52) == 0;
  CHECK((a == b) == want, "operator== says %d, the bytes are %s", (int)(a == b), want ? "equal" : "different");
  CHECK((a != b) == !want, "operator!= says %d, the bytes are %s", (int)(a != b), want ? "equal" : "different");
}
int main(int argc, char** argv) {
  h::init(argc, argv); h::control_random();
  long it = 0;
  while (h::more(h::seconds)) {
    uint32_t n = it < 300 ? it : h::flip(2) ? h::range(60000, 200000) : h::below(3000);
    it++;
    h::CASE(n ? h::mix(n, it) : 0, "database of %u rows", n); h::watchdog(60);
    Database db(n);
    CHECK(db.Size() == n, "Size()=%u for %u rows", db.Size(), n);
    for (uint32_t k = 0; k < n; k++) {
      const Response& r = db.Lookup(k);
      CHECK(r.value == (uint32_t)(2 * k), "row %u holds %u", k, (unsigned)r.value);
      for (int j = 0; j < 48; j++) CHECK((unsigned char)r.sig[j] == k % 128, "row %u: signature byte %d is %d", k, j, (int)r.sig[j]);
    }
    if (n) for (int m = 0; m < 3; m++) { h::rmode = m; for (int j = 0; j < 4; j++) { uint32_t r = db.RandomRow(); CHECK(r < n, "RandomRow()=%u", r); } }
    for (int j = 0; j < 200; j++) {
      Response a, b; unsigned char* p = (unsigned char*)&a; unsigned char* q = (unsigned char*)&b;
      for (int i = 0; i < 52; i++) p[i] = q[i] = h::flip(30) ? 0 : h::rnd();
      int d = h::below(4);
      h::CASE(h::mix(it, j), "two responses differing in %d bytes", d);
      for (int i = 0; i < d; i++) { int at = h::edgy(0, 51); q[at] ^= h::flip() ? 1 << h::below(8) : h::rnd(); h::CASE(h::mix(it, h::mix(j, at)), "two responses differing around byte %d", at); }
      eq(a, b); eq(a, a);
    }
    if (n > 1) { uint32_t x = h::below(n), y = h::below(n); eq(db.Lookup(x), db.Lookup(y)); }
  }
  for (int i = 0; i < 52; i++) for (int bit = 0; bit < 8; bit++) { Response a, b; memset(&a, 0, 52); b = a; ((unsigned char*)&b)[i] ^= 1 << bit; h::CASE(h::mix(i, bit), "responses differing only in bit %d of byte %d", bit, i); eq(a, b); eq(b, a); }
  if (h::seconds >= 20) {  // one database past 2^31 rows would need 100 GB; the doubling is checked by the proof
  }
  return h::done();
}
