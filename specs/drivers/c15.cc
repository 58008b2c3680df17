// Client of CipherBatch used by the specification of C15 (verified against the real class).
#include "DPPIR/types/containers.h"
using namespace DPPIR;
extern "C" {
void spec_check_popped(const char* p, index_t i);      // ghost: the i-th long cipher was handed out as p
void spec_check_full(bool full, index_t j);            // ghost: FullLong() after j long ciphers
void spec_check_final(const char* b, const char* e);   // ghost: the final batch
void c15_fill(CipherBatch* b, const char* s, const char* l, index_t ns, index_t nl, size_t S, size_t L) {
  b->Initialize(ns, nl);
  for (index_t i = 0; i < ns; i++) b->PushShort(s + i * S);
  for (index_t j = 0; j < nl; j++) {
    spec_check_full(b->FullLong(), j);
    b->PushLong(l + j * L);
  }
  spec_check_full(b->FullLong(), nl);
}
void c15_process(CipherBatch* b, const char* r, index_t nl, size_t S) {
  for (index_t i = 0; b->HasLong(); i++) {
    spec_check_popped(b->PopLong(), i);
    b->PushShort(r + i * S);
  }
}
void c15_final(CipherBatch* b) { spec_check_final(*b->begin(), *b->end()); }
}
