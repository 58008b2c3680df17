// Client of ParallelShuffler used by the specification of C06 (verified against the real class).
#include "DPPIR/shuffle/parallel_shuffle.h"
using namespace DPPIR;
extern "C" {
void spec_shuffled(server_id_t target, index_t k);
bool spec_more();
server_id_t spec_pick();
void spec_deshuffled(index_t k, server_id_t g);
void c06_shuffle(shuffle::ParallelShuffler* p, index_t n) {
  for (index_t k = 0; k < n; k++) spec_shuffled(p->ShuffleOne(), k);
}
void c06_deshuffle(shuffle::ParallelShuffler* p) {
  p->FinishForward();
  while (spec_more()) {
    server_id_t g = spec_pick();
    spec_deshuffled(p->DeshuffleOne(g), g);
  }
}
}
