// Clients of the tag functions used by the specification of C19 (verified against the real classes).
#include "DPPIR/protocol/client/client.h"
#include "DPPIR/protocol/parallel_party/parallel_party.h"
#include "DPPIR/protocol/party/party.h"
using namespace DPPIR;
using namespace DPPIR::protocol;
extern "C" {
tag_t c19_client(Client* c, server_id_t server, index_t count, index_t id) {
  c->server_id_ = server;
  c->queries_count_ = count;
  std::unique_ptr<OfflineSecret[]> s = c->MakeSecret(id);
  return s[0].tag;
}
tag_t c19_party(Party* p, index_t inputs, index_t noise, index_t id) {
  p->input_count_ = inputs;
  p->noise_count_ = noise;
  p->shuffled_count_ = inputs + noise;
  std::unique_ptr<OfflineSecret[]> s = p->MakeNoiseSecret(id);
  return s[0].tag;
}
tag_t c19_parallel(ParallelParty* p, party_id_t party, server_id_t server, index_t id) {
  p->party_id_ = party;
  p->server_id_ = server;
  std::unique_ptr<OfflineSecret[]> s = p->MakeNoiseSecret(id);
  return s[0].tag;
}
}
