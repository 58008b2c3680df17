// A controllable libsodium random source that logs what is drawn.
#pragma once
#include "common.h"
#include "sodium.h"
namespace h {
struct Draw { uint32_t bound, value; };
static std::vector<Draw> draws;
static std::vector<std::vector<unsigned char>> bufs;
static int rmode = 0;   // 0 random, 1 minimum, 2 maximum
inline uint32_t rb_random() { return (uint32_t)rnd(); }
inline uint32_t rb_uniform(const uint32_t n) {
  uint32_t v = n < 2 ? 0 : rmode == 1 ? 0 : rmode == 2 ? n - 1 : (below(8) == 0 ? (flip() ? 0 : n - 1) : (uint32_t)below(n));
  draws.push_back({n, v}); return v;
}
inline void rb_buf(void* const b, const size_t n) {
  unsigned char* p = (unsigned char*)b; std::vector<unsigned char> v(n);
  for (size_t i = 0; i < n; i++) v[i] = (unsigned char)(rmode == 1 ? 0 : rmode == 2 ? 255 : rnd());
  memcpy(p, v.data(), n); bufs.push_back(v);
}
inline const char* rb_name() { return "replay"; }
inline void control_random() {
  static randombytes_implementation im; im.implementation_name = rb_name; im.random = rb_random; im.stir = 0; im.uniform = rb_uniform; im.buf = rb_buf; im.close = 0;
  randombytes_set_implementation(&im);
  if (sodium_init() < 0) { put("FAIL sodium\n"); _exit(1); }
}
}
