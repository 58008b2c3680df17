#include "cfg.h"
#include <sanitizer/common_interface_defs.h>
// every parse runs in a process of its own, its input ending at an inaccessible page
static char* page; static const size_t SZ = 1 << 20;
static volatile int* st;  // 1: returned
int main(int argc, char** argv) {
  h::init(argc, argv); long it = 0;
  page = (char*)mmap(0, SZ + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(page + SZ + 4096, 4096, PROT_NONE); mprotect(page, 4096, PROT_NONE); char* end = page + SZ + 4096;
  st = (int*)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  while (h::more(h::seconds)) {
    it++; config::Config c = rcfg(); std::string s = config::Serialize(c); bool valid = false; int kind = h::below(7);
    if (kind == 0) s.resize(h::below(s.size() + 1));
    else if (kind == 1) s.resize(s.size() - std::min<size_t>(s.size(), 1 + h::below(12)));
    else if (kind == 2) { for (int q = 1 + h::below(4); q > 0 && s.size(); q--) s[h::flip() ? h::below(std::min<size_t>(s.size(), 40)) : h::below(s.size())] = h::flip() ? 255 : h::rnd(); }
    else if (kind == 3) for (int q = 1 + h::below(10); q > 0; q--) s.push_back(h::flip() ? 0 : h::rnd());
    else if (kind == 4) { s.clear(); for (int q = h::below(200); q > 0; q--) s.push_back(h::flip(40) ? 0 : h::rnd()); }
    else if (kind == 5) { size_t z = s.find_last_not_of('\0'); if (z != std::string::npos) s.resize(z + 1); }
    else valid = true;
    if (s.size() > SZ - 100) s.resize(SZ - 100);
    std::string hex; for (size_t i = 0; i < s.size() && i < 150; i++) { char b[4]; snprintf(b, 4, "%02x", (unsigned char)s[i]); hex += b; }
    h::CASE(h::mix(it, 4), "input of %zu bytes: %s%s", s.size(), hex.c_str(), s.size() > 150 ? "..." : ""); h::watchdog(60);
    char* at = h::flip(75) ? end - s.size() : page + 4096; memcpy(at, s.data(), s.size()); *st = 0;
    int p = fork();
    if (p == 0) { for (int q : {SIGABRT, SIGSEGV, SIGBUS}) signal(q, SIG_DFL); close(2); __sanitizer_set_death_callback([] { _exit(77); }); alarm(30); config::Deserialize(at, s.size()); *st = 1; _exit(0); }
    int w = 0; waitpid(p, &w, 0);
    if (WIFSIGNALED(w)) CHECK(WTERMSIG(w) == SIGABRT, "the parser was ended by signal %d (a read outside the input)", WTERMSIG(w));
    else if (WEXITSTATUS(w) == 0) CHECK(*st == 1, "the parser ended the process with status 0");
    else CHECK(WEXITSTATUS(w) != 77, "the parser made an invalid memory access (sanitizer)");
    if (valid && *st == 1) h::nontrivial++;
    if (*st == 1) {  // accepted: the input must have been consumed exactly, so serialising gives it back unless counts were cut to a byte
      config::Config d = config::Deserialize(at, s.size()); std::string t = config::Serialize(d);
      CHECK(t.size() == s.size(), "%zu bytes were accepted but the configuration they describe takes %zu bytes", s.size(), t.size());
    }
  }
  return h::done();
}
