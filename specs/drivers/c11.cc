// Clients of the socket classes used by the specifications of C11 and C12 (verified against the real classes).
#include "DPPIR/sockets/client_socket.h"
#include "DPPIR/sockets/parallel_socket.h"
#include "DPPIR/sockets/server_socket.h"
using namespace DPPIR;
using namespace DPPIR::sockets;
extern "C" {
index_t spec_ask(index_t left, index_t done);   // ghost: any number of messages in 1..left
void spec_delivered(const char* b, const char* e, size_t size, index_t ask, index_t done);  // ghost: what one read delivered
index_t spec_any(index_t n);                    // ghost: any index
void spec_at(const char* p, index_t i);         // ghost: element i is found at p
void spec_next(size_t i);                       // ghost: message i is about to be sent
}
template <typename T> static const char* B(LogicalBuffer<T>& b) { return reinterpret_cast<const char*>(b.begin()); }
template <typename T> static const char* E(LogicalBuffer<T>& b) { return reinterpret_cast<const char*>(b.end()); }
template <typename T> static const char* A(LogicalBuffer<T>& b, index_t i) { return reinterpret_cast<const char*>(&b[i]); }
static const char* B(CipherLogicalBuffer& b) { return *b.begin(); }
static const char* E(CipherLogicalBuffer& b) { return *b.end(); }
static const char* A(CipherLogicalBuffer& b, index_t i) { return b[i]; }
#define READER(NAME, CLASS, TYPE, CALL)                              \
  extern "C" void NAME(CLASS* s, server_id_t id, index_t total) {    \
    index_t done = 0;                                                \
    while (done < total) {                                           \
      index_t ask = spec_ask(total - done, done);                    \
      TYPE& b = s->CALL;                                             \
      spec_delivered(B(b), E(b), b.Size(), ask, done);               \
      index_t i = spec_any(b.Size());                                \
      if (i < b.Size()) spec_at(A(b, i), i);                         \
      done += b.Size();                                              \
      b.Clear();                                                     \
    }                                                                \
  }
READER(c11_server_queries, ServerSocket, LogicalBuffer<Query>, ReadQueries(ask))
READER(c11_server_ciphers, ServerSocket, CipherLogicalBuffer, ReadCiphers(ask))
READER(c11_client_responses, ClientSocket, LogicalBuffer<Response>, ReadResponses(ask))
extern "C" {
void c12_server_responses(ServerSocket* s, const char* m, size_t n) {
  for (size_t i = 0; i < n; i++) {
    spec_next(i);
    s->SendResponse(*reinterpret_cast<const Response*>(m + i * sizeof(Response)));
  }
  s->FlushResponses();
}
void c12_client_queries(ClientSocket* s, const char* m, size_t n) {
  for (size_t i = 0; i < n; i++) {
    spec_next(i);
    s->SendQuery(*reinterpret_cast<const Query*>(m + i * sizeof(Query)));
  }
  s->FlushQueries();
}
void c12_client_ciphers(ClientSocket* s, const char* m, size_t n, size_t U) {
  for (size_t i = 0; i < n; i++) {
    spec_next(i);
    s->SendCipher(m + i * U);
  }
  s->FlushCiphers();
}
// construction
void c11_new_server(ServerSocket* s, size_t cs, int port) { new (s) ServerSocket(cs); s->Initialize(port); }
}
