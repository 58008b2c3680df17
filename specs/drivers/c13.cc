// Clients of PartyState / BackendState used by the specification of C13 (verified against the real classes).
#include "DPPIR/types/state.h"
using namespace DPPIR;
extern "C" {
void spec_found(const tag_t* next, const incremental_share_t* s, const preshare_t* p, index_t j);  // ghost: lookup of the j-th stored tag
void spec_identity(const tag_t* next, const incremental_share_t* s, const preshare_t* p);          // ghost: simulated lookup
void spec_may_stop();                                                                             // ghost: from here on the process may stop
void spec_duplicate_accepted();                                                                   // ghost: must be unreachable
void c13_party(const OfflineSecret* a, index_t n, index_t j) {
  PartyState st;
  st.Initialize(false);
  for (index_t i = 0; i < n; i++) st.Store(a[i]);
  st.LoadSecret(a[j].tag);
  const tag_t& nt = st.GetNextTag();
  const incremental_share_t& inc = st.GetIncremental();
  spec_found(&nt, &inc, &st.GetPreshare(a[j].tag), j);
}
void c13_party_dup(const OfflineSecret* a, index_t n, const OfflineSecret* d) {
  PartyState st;
  st.Initialize(false);
  for (index_t i = 0; i < n; i++) st.Store(a[i]);
  spec_may_stop();
  st.Store(*d);
  spec_duplicate_accepted();
}
void c13_party_sim(const tag_t* tag, const tag_t* tag2) {
  PartyState st;
  st.Initialize(true);
  st.LoadSecret(*tag);
  const tag_t& nt = st.GetNextTag();
  const incremental_share_t& inc = st.GetIncremental();
  spec_identity(&nt, &inc, &st.GetPreshare(*tag2));
}
void c13_backend(const OfflineSecret* a, index_t n, index_t j) {
  BackendState st;
  st.Initialize(false);
  for (index_t i = 0; i < n; i++) st.Store(a[i]);
  st.LoadSecret(a[j].tag);
  const incremental_share_t& inc = st.GetIncremental();
  spec_found(nullptr, &inc, &st.GetPreshare(), j);
}
void c13_backend_dup(const OfflineSecret* a, index_t n, const OfflineSecret* d) {
  BackendState st;
  st.Initialize(false);
  for (index_t i = 0; i < n; i++) st.Store(a[i]);
  spec_may_stop();
  st.Store(*d);
  spec_duplicate_accepted();
}
void c13_backend_sim(const tag_t* tag) {
  BackendState st;
  st.Initialize(true);
  st.LoadSecret(*tag);
  const incremental_share_t& inc = st.GetIncremental();
  spec_identity(nullptr, &inc, &st.GetPreshare());
}
}
