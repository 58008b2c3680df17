// Clients of ClientState used by the specification of C14 (verified against the real class).
#include <utility>
#include "DPPIR/types/state.h"
using namespace DPPIR;
extern "C" {
void spec_make(std::vector<incremental_share_t>* out, index_t k);                                    // ghost: the (arbitrary) shares of the k-th secret
void spec_loaded(const tag_t* tag, const std::vector<incremental_share_t>* s, index_t k);            // ghost: the k-th load for a query
void spec_response(const preshare_t* p, index_t k);                                                  // ghost: the k-th load for a response
void spec_identity(const tag_t* tag, const std::vector<incremental_share_t>* s, const preshare_t* p);  // ghost: a load in simulated mode
static void use(ClientState& s, index_t k) {
  s.LoadNext();
  const tag_t& t = s.GetTag();
  spec_loaded(&t, &s.GetIncrementalShares(), k);
}
void c14_batch(party_id_t parties, index_t n, const tag_t* tags, const preshare_t* pre) {
  ClientState s;
  s.Initialize(parties, n, false, false);
  for (index_t k = 0; k < n; k++) {
    std::vector<incremental_share_t> v;
    spec_make(&v, k);
    s.AddSecret(tags[k], std::move(v), pre[k]);
  }
  for (index_t k = 0; k < n; k++) use(s, k);
  s.FinishSharing();
  for (index_t k = 0; k < n; k++) {
    s.LoadNext();
    spec_response(&s.GetPreshare(), k);
  }
}
void c14_interleaved(party_id_t parties, index_t n, const tag_t* tags, const preshare_t* pre) {
  ClientState s;
  s.Initialize(parties, n, false, false);
  for (index_t k = 0; k < n; k++) {
    std::vector<incremental_share_t> v;
    spec_make(&v, k);
    s.AddSecret(tags[k], std::move(v), pre[k]);
    use(s, k);
    spec_response(&s.GetPreshare(), k);
  }
}
void c14_noise(party_id_t parties, index_t n, const tag_t* tags) {
  ClientState s;
  s.Initialize(parties, n, true, false);
  for (index_t k = 0; k < n; k++) {
    std::vector<incremental_share_t> v;
    spec_make(&v, k);
    s.AddNoiseSecret(tags[k], std::move(v));
  }
  for (index_t k = 0; k < n; k++) use(s, k);
}
void c14_sim(party_id_t parties, index_t n, index_t loads) {
  ClientState s;
  s.Initialize(parties, n, false, true);
  for (index_t k = 0; k < loads; k++) s.LoadNext();
  const tag_t& t = s.GetTag();
  const std::vector<incremental_share_t>& v = s.GetIncrementalShares();
  spec_identity(&t, &v, &s.GetPreshare());
  s.FinishSharing();
  for (index_t k = 0; k < loads; k++) s.LoadNext();
  spec_identity(nullptr, nullptr, &s.GetPreshare());
}
void c14_sim_noise(party_id_t parties, index_t n, index_t loads) {
  ClientState s;
  s.Initialize(parties, n, true, true);
  for (index_t k = 0; k < loads; k++) s.LoadNext();
  const tag_t& t = s.GetTag();
  spec_identity(&t, &s.GetIncrementalShares(), nullptr);
}
}
