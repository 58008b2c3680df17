// Native replay support: runs the real code on generated inputs and compares with an independent oracle.
#pragma once
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
namespace h {
static char lastcase[65536];
static uint64_t rs;
static long evals = 0, nontrivial = 0;
static std::unordered_set<uint64_t> seen;
static std::vector<std::string> samples;
inline uint64_t rnd() { rs += 0x9e3779b97f4a7c15ULL; uint64_t z = rs; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
inline uint64_t below(uint64_t n) { return n ? rnd() % n : 0; }
inline uint64_t range(uint64_t a, uint64_t b) { return a + below(b - a + 1); }
inline bool flip(int pct = 50) { return (int)below(100) < pct; }
// value in [lo,hi] biased to the boundaries
inline uint64_t edgy(uint64_t lo, uint64_t hi) {
  switch (below(6)) { case 0: return lo; case 1: return hi; case 2: return std::min(hi, lo + below(4)); case 3: return hi - std::min(hi - lo, below(4)); default: return range(lo, hi); }
}
inline void put(const char* s) { if (write(1, s, strlen(s)) < 0) {} }
inline void finish_stats() {
  printf("STATS evaluations=%ld distinct_nontrivial=%ld\n", evals, (long)seen.size());
  for (auto& s : samples) printf("SAMPLE %s\n", s.c_str());
  fflush(stdout);
}
// announces a case; `key` identifies it for distinctness (0: trivial)
inline void CASE(uint64_t key, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(lastcase, sizeof lastcase, fmt, ap); va_end(ap);
  evals++;
  if (key) { if (seen.size() < 2000000) seen.insert(key); }
  if (samples.size() < 3 && key) samples.push_back(std::string(lastcase).substr(0, 400));
}
inline void fail(const char* fmt, ...) {
  char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  put("FAIL "); put(b); put("\nCASE "); put(lastcase); put("\n");
  _exit(1);
}
#define CHECK(c, ...) do { if (!(c)) h::fail(__VA_ARGS__); } while (0)
inline void onsig(int s) {
  signal(s, SIG_DFL);
  const char* n = s == SIGABRT ? "process aborted (assertion or sanitizer)" : s == SIGSEGV ? "segmentation fault" : s == SIGFPE ? "arithmetic trap" : s == SIGALRM ? "no progress (hang)" : "signal";
  put("FAIL "); put(n); put("\nCASE "); put(lastcase); put("\n");
  _exit(1);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t z = a * 0x9e3779b97f4a7c15ULL + b + 0x1234567; z ^= z >> 29; z *= 0xbf58476d1ce4e5b9ULL; return z ^ (z >> 32); }
inline bool more(double secs) {
  static struct timespec t0 = {0, 0}; struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
  if (!t0.tv_sec) t0 = t;
  return (t.tv_sec - t0.tv_sec) + (t.tv_nsec - t0.tv_nsec) * 1e-9 < secs;
}
static double seconds = 5;
inline void init(int argc, char** argv) {
  rs = argc > 1 ? strtoull(argv[1], 0, 10) * 7919 + 17 : 1;
  if (argc > 2) seconds = atof(argv[2]);
  for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGALRM, SIGBUS, SIGILL}) signal(s, onsig);
  setvbuf(stdout, 0, _IOLBF, 0);
  more(seconds);
}
inline void watchdog(int s) { alarm(s); }
inline int done() { alarm(0); finish_stats(); return 0; }
}  // namespace h
extern "C" inline const char* __asan_default_options() { return "detect_leaks=0:handle_abort=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
extern "C" inline const char* __ubsan_default_options() { return "abort_on_error=1:print_stacktrace=0"; }
