// Runs a whole protocol round of one party (used by the specifications of C16, C17 and C18).
#include <new>
#include "DPPIR/protocol/party/party.h"
using namespace DPPIR;
using namespace DPPIR::protocol;
extern "C" {
void spec_party(party_id_t party, party_id_t parties, server_id_t server, server_id_t servers, index_t rows);
void spec_end();
void c17_run(Party* p, bool offline) {
  new (&p->noise_) Batch<sample_t>();
  new (&p->tags_) Batch<tag_t>();
  new (&p->queries_) Batch<Query>();
  new (&p->responses_) Batch<Response>();
  spec_party(p->party_id_, p->party_count_, p->server_id_, p->server_count_, p->db_.Size());
  p->Start(offline, true);
  spec_end();
}
}
