#include "cfg.h"
int main(int argc, char** argv) {
  h::init(argc, argv); long it = 0; char dir[] = "/tmp/verif_c09_XXXXXX"; if (!mkdtemp(dir)) return 3; std::string f = std::string(dir) + "/config";
  while (h::more(h::seconds)) {
    it++; config::Config c = rcfg();
    h::CASE(h::mix(it, 3), "%d parties, %d servers, db_size %u, first address of %zu bytes (case %ld)", c.party_count, c.server_count, c.db_size, c.parties.size() && c.parties[0].servers.size() ? c.parties[0].servers[0].ip.size() : 0, it); h::watchdog(60);
    std::string s = config::Serialize(c); char* b = (char*)malloc(s.size()); memcpy(b, s.data(), s.size());
    config::Config d = config::Deserialize(b, s.size()); free(b);
    const char* w = differ(c, d); CHECK(!w, "after a round trip %s differs", w);
    if (it % 20 == 1) { config::WriteToFile(c, f); config::Config e = config::ReadFile(f); w = differ(c, e); CHECK(!w, "after a round trip through a file %s differs", w); }
  }
  unlink(f.c_str()); rmdir(dir);
  return h::done();
}
