#include "common.h"
#include "DPPIR/noise/noise.h"
using namespace DPPIR;
int main(int argc, char** argv) {
  h::init(argc, argv);
  long it = 0;
  while (h::more(h::seconds)) {
    uint32_t n, db;
    if (it < 40000) { n = 1 + it % 200; db = n + it / 200; }
    else { n = h::edgy(1, 255); db = h::flip() ? n * h::range(1, 70000) + (h::flip() ? h::below(n) : 0) : h::flip() ? h::edgy(n, 0xffffffffu) : h::range(n, 2000000); if (db < n) db = n; }
    it++;
    h::CASE(h::mix(n, db), "servers=%u database=%u", n, db); h::watchdog(60);
    uint64_t at = 0;
    for (uint32_t i = 0; i < n; i++) {
      auto r = noise::FindRange(i, n, db);
      CHECK(r.first == at, "server %u: range starts at %u instead of %llu (gap or overlap)", i, r.first, (unsigned long long)at);
      CHECK(r.second > r.first, "server %u: empty range [%u,%u)", i, r.first, r.second);
      CHECK(r.second <= db, "server %u: range [%u,%u) leaves the database of %u", i, r.first, r.second, db);
      at = r.second;
    }
    CHECK(at == db, "keys from %llu on get no noise", (unsigned long long)at);
  }
  return h::done();
}
