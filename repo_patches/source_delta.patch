From b3945f1080cbf4a2b28a709c56139db2c76cf82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 1/3] fix: noise ranges of the servers must stay inside the
 database

---
 DPPIR/noise/noise.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DPPIR/noise/noise.cc b/DPPIR/noise/noise.cc
index 08bf1d3..a7a35b6 100644
--- a/DPPIR/noise/noise.cc
+++ b/DPPIR/noise/noise.cc
@@ -33,7 +33,7 @@ double RandUniform() { return std::rand() / static_cast<double>(RAND_MAX); }
 std::pair<key_t, key_t> FindRange(server_id_t server_id,
                                   server_id_t servers_count, index_t db_size) {
   assert(db_size >= servers_count);
-  index_t range_size = std::ceil(1.0 * db_size / servers_count);
+  index_t range_size = db_size / servers_count;
   key_t range_start = server_id * range_size;
   key_t range_end = range_start + range_size;
   if (server_id == servers_count - 1) {
-- 
2.43.0


From 88ed11df1cbd9e000f774899c8b6c3446b6deb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:29 +0000
Subject: [PATCH 2/3] fix: stop on truncated configuration files instead of
 reading past the end

---
 DPPIR/config/config.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DPPIR/config/config.cc b/DPPIR/config/config.cc
index db0ebae..72199f4 100644
--- a/DPPIR/config/config.cc
+++ b/DPPIR/config/config.cc
@@ -17,12 +17,14 @@ inline std::string Double2Bin(double v) {
 }
 // Read.
 inline int Bin2Int(const char** data, size_t* n) {
+  assert(*n >= sizeof(int));
   int v = *reinterpret_cast<const int*>(*data);
   *data += sizeof(int);
   *n -= sizeof(int);
   return v;
 }
 inline double Bin2Double(const char** data, size_t* n) {
+  assert(*n >= sizeof(double));
   double v = *reinterpret_cast<const double*>(*data);
   *data += sizeof(double);
   *n -= sizeof(double);
-- 
2.43.0


From 973afdbd232d45d4408f5a1284c424be69c0c9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:02 +0000
Subject: [PATCH 3/3] fix: give the noise of every parallel server tags of its
 own

The tags of a server's noise were derived from the server's own noise count
per row.  With real noise (DPPIR_SAMPLE) the counts of the siblings differ, so
two siblings could use the same tag and the next party stopped on the
duplicate.
---
 .../parallel_party/parallel_party_handlers.cc      | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
index dc40fe6..af529f1 100644
--- a/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
+++ b/DPPIR/protocol/parallel_party/parallel_party_handlers.cc
@@ -7,20 +7,16 @@
 namespace DPPIR {
 namespace protocol {
 
-static int64_t NOISE_OFFSET = -1;
-
 // Randomly sample a tag. Must be from a large enough domain to avoid colisions.
 tag_t ParallelParty::SampleTag(index_t id) {
   // The below leaks information but is helpful for debugging as it allows us
   // to determine the source of a message via its tag.
-  if (NOISE_OFFSET == -1) {
-    index_t range = this->noise_end_ - this->noise_start_;
-    index_t noise_per_row = this->noise_count_ / range;
-    index_t total_noise = noise_per_row * this->db_.Size();
-    NOISE_OFFSET = total_noise - (this->noise_start_ * noise_per_row);
-  }
+  // Tags made by clients fit in 32 bits, the bits above identify the party and
+  // server that made the noise, so that no two tags are the same regardless of
+  // how much noise the other servers sampled.
   // TODO(babman): sample the tag uniformly at random.
-  return this->total_batch_size_ - NOISE_OFFSET + id;
+  tag_t source = (static_cast<tag_t>(this->party_id_) + 1) << 8;
+  return ((source + this->server_id_) << 32) + id;
 }
 
 // Samples an offline secret, stores it in state, and returns it for
-- 
2.43.0

