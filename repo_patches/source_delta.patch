From 6bbe6bd27427b9e98662660998e4b596bb5cf7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 1/6] fix: keep 64-bit positions in Inflights so a capacity
 above INT32_MAX is not truncated

---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..fedd2f3 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -66,7 +66,7 @@ void Inflights::FreeLE(uint64_t to) {
 void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = buffer_.size() * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From baf15aa2bc8268f5bb097fbf09404d9c0db834be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 2/6] fix: make Inflights::FreeFirstOne a no-op when nothing is
 in flight

---
 src/tracker/inflights.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index fedd2f3..ed7e69d 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,12 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ == 0) {
+    return;
+  }
+  FreeLE(buffer_[start_]);
+}
 
 void Inflights::Grow() {
   int64_t new_size = buffer_.size() * 2;
-- 
2.43.0


From eebe01626d0eaac5e253ecce39b8651e7a51e365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:18 +0000
Subject: [PATCH 3/6] fix: never lower a probing peer's next index to or below
 its match index

---
 src/tracker/progress.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracker/progress.cc b/src/tracker/progress.cc
index 7bb53cf..9cfcb4f 100644
--- a/src/tracker/progress.cc
+++ b/src/tracker/progress.cc
@@ -107,7 +107,7 @@ bool Progress::MaybeDecrTo(uint64_t rejected, uint64_t match_hint) {
     return false;
   }
 
-  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), 1);
+  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), match_ + 1);
   probe_sent_ = false;
   return true;
 }
-- 
2.43.0


From 7bcf58d7c065304b35d7ee30f10b5258277128ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:00 +0000
Subject: [PATCH 4/6] fix: build a new snapshot in
 MemoryStorage::CreateSnapshot instead of changing the one handed out

---
 src/storage.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..44cd0ad 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,17 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // The current snapshot object may have been handed out already, so build a
+  // new one instead of modifying it in place.
+  auto snapshot = std::make_shared<raftpb::Snapshot>(*snapshot_);
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
   }
 
-  *(snapshot_->mutable_data()) = data;
+  *(snapshot->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From f991e291f8622823018a8e09e8b775431f311bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:04 +0000
Subject: [PATCH 5/6] fix: refuse to create a snapshot at a compacted index
 instead of reading before the stored entries

---
 src/storage.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/storage.cc b/src/storage.cc
index 44cd0ad..259f804 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -144,6 +144,9 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
 
   assert(!ents_.empty());
   uint64_t offset = ents_[0]->index();
+  if (i < offset) {
+    return std::make_tuple(SnapshotPtr(), Status::Error(kErrCompacted));
+  }
   if (i > LastIndexUnSafe()) {
     // panic
     CRAFT_LOG_FATAL(logger_, "snapshot %d is out of bound lastindex(%d)", i,
-- 
2.43.0


From c78eaf1e2a4791a7dfcc2c481a81b0528df4b59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:02 +0000
Subject: [PATCH 6/6] fix: a leader outside the configuration does not propose
 leaving a joint configuration

A leader demoted to learner and then removed through an automatically left
joint configuration is no longer tracked. Advance appended the leaving entry
all the same and dereferenced the missing progress.
---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..0a6c443 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -442,7 +442,7 @@ void Raft::Advance(const Ready& rd) {
 
     if (trk_.GetConfig().auto_leave && old_applied <= pending_conf_index_ &&
         new_applied >= pending_conf_index_ &&
-        state_ == RaftStateType::kLeader) {
+        state_ == RaftStateType::kLeader && trk_.GetProgress(id_)) {
 			// If the current (and most recent, at least for this leader's term)
 			// configuration should be auto-left, initiate that now. We use a
 			// nil Data which unmarshals into an empty ConfChangeV2 and has the
-- 
2.43.0

