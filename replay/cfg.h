#pragma once
#include "common.h"
#include <fstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include "DPPIR/config/config.h"
using namespace DPPIR;
static config::Config rcfg() {
  config::Config c; c.db_size = h::edgy(0, 0xffffffffu); uint64_t b = h::rnd(); 
  auto dbl = [&] { double d; do { uint64_t v = h::rnd(); if (h::flip()) d = (double)h::below(1000) / 7; else memcpy(&d, &v, 8); } while (d != d); return d; };
  c.epsilon = dbl(); c.delta = dbl(); (void)b;
  bool big = h::flip(4); c.party_count = big ? h::edgy(0, 255) : h::below(6); c.server_count = big && c.party_count < 20 ? h::edgy(0, 255) : h::below(5);
  for (int i = 0; i < c.party_count; i++) {
    config::PartyConfig p; p.shared_seed = (int)h::edgy(0, 0xffffffffu);
    int k = h::below(4); for (auto& x : p.onion_pkey) x = k == 0 ? 0 : k == 1 ? 255 : h::rnd(); for (auto& x : p.onion_skey) x = k == 2 ? 10 : h::rnd();
    for (int j = 0; j < c.server_count; j++) {
      config::ServerConfig s; s.local_seed = (int)h::edgy(0, 0xffffffffu); s.port = (int)h::edgy(0, 0xffffffffu); s.parallel_port = (int)h::rnd();
      int n = h::flip(5) ? h::below(300) : h::flip(20) ? 0 : h::below(20); int t = h::below(3); for (int q = 0; q < n; q++) s.ip.push_back(t == 0 ? (char)(1 + h::below(255)) : t == 1 ? '0' + h::below(10) : "\n\r. \xff\x01"[h::below(6)]);
      p.servers.push_back(s);
    }
    c.parties.push_back(p);
  }
  return c;
}
static const char* differ(const config::Config& a, const config::Config& b) {
  if (a.db_size != b.db_size) return "db_size"; if (memcmp(&a.epsilon, &b.epsilon, 8)) return "epsilon"; if (memcmp(&a.delta, &b.delta, 8)) return "delta";
  if (a.party_count != b.party_count) return "party_count"; if (a.server_count != b.server_count) return "server_count"; if (a.parties.size() != b.parties.size()) return "number of parties";
  for (size_t i = 0; i < a.parties.size(); i++) {
    auto &p = a.parties[i], &q = b.parties[i];
    if (p.shared_seed != q.shared_seed) return "shared_seed"; if (p.onion_pkey != q.onion_pkey) return "onion_pkey"; if (p.onion_skey != q.onion_skey) return "onion_skey"; if (p.servers.size() != q.servers.size()) return "number of servers";
    for (size_t j = 0; j < p.servers.size(); j++) { auto &s = p.servers[j], &t = q.servers[j]; if (s.local_seed != t.local_seed) return "local_seed"; if (s.port != t.port) return "port"; if (s.parallel_port != t.parallel_port) return "parallel_port"; if (s.ip != t.ip) return "ip"; }
  }
  return nullptr;
}
