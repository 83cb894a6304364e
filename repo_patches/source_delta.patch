From 18f36d8027067cbc1d61845a90394cb6ad37aa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:22 +0000
Subject: [PATCH 01/18] fix: MemoryStorage::CreateSnapshot no longer alters
 snapshots already handed out

---
 src/storage.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/storage.cc b/src/storage.cc
index 0e97e42..8b1ba0d 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -150,13 +150,17 @@ std::tuple<SnapshotPtr, Status> MemoryStorage::CreateSnapshot(
               LastIndexUnSafe());
   }
 
-  snapshot_->mutable_metadata()->set_index(i);
-  snapshot_->mutable_metadata()->set_term(ents_[i - offset]->term());
+  // The current snapshot may be shared with callers of SnapShot(),
+  // ApplySnapshot() and CreateSnapshot(), so build a new one.
+  auto snapshot = std::make_shared<raftpb::Snapshot>(*snapshot_);
+  snapshot->mutable_metadata()->set_index(i);
+  snapshot->mutable_metadata()->set_term(ents_[i - offset]->term());
   if (cs != nullptr) {
-    *(snapshot_->mutable_metadata()->mutable_conf_state()) = *cs;
+    *(snapshot->mutable_metadata()->mutable_conf_state()) = *cs;
   }
 
-  *(snapshot_->mutable_data()) = data;
+  *(snapshot->mutable_data()) = data;
+  snapshot_ = snapshot;
   return std::make_tuple(snapshot_, Status::OK());
 }
 
-- 
2.43.0


From 148bba94d7b8fa9106457ba844e29b0fbd1c9b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:53 +0000
Subject: [PATCH 02/18] fix: ConfChangesFromString rejects malformed and
 out-of-range ids

---
 src/raftpb/confchange.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/raftpb/confchange.cc b/src/raftpb/confchange.cc
index 9882217..742370e 100644
--- a/src/raftpb/confchange.cc
+++ b/src/raftpb/confchange.cc
@@ -13,6 +13,7 @@
 // limitations under the License.
 #include "src/raftpb/confchange.h"
 
+#include <charconv>
 #include <sstream>
 
 #include "src/logger.h"
@@ -113,11 +114,10 @@ std::tuple<std::vector<raftpb::ConfChangeSingle>, Status> ConfChangesFromString(
     } else {
       return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow input: %s", token.c_str()));
     }
-    uint64_t id;
-    try {
-      id = std::strtoull(token.data()+1, nullptr, 10);
-    } catch (const std::exception& e) {
-      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", e.what()));
+    uint64_t id = 0;
+    auto [ptr, ec] = std::from_chars(token.data() + 1, token.data() + token.size(), id, 10);
+    if (ec != std::errc() || ptr != token.data() + token.size()) {
+      return std::make_tuple(std::vector<raftpb::ConfChangeSingle>(), Status::Error("unknow token %s", token.c_str()));
     }
     cc.set_node_id(id);
     ccs.emplace_back(cc);
-- 
2.43.0


From 7d87fe06673e11e314cbf28c180750486262f629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 03/18] fix: Inflights::FreeFirstOne on an empty window is a
 no-op as documented

---
 src/tracker/inflights.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index 47145b5..dbfc305 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -63,7 +63,12 @@ void Inflights::FreeLE(uint64_t to) {
   }
 }
 
-void Inflights::FreeFirstOne() { FreeLE(buffer_[start_]); }
+void Inflights::FreeFirstOne() {
+  if (count_ == 0) {
+    return;
+  }
+  FreeLE(buffer_[start_]);
+}
 
 void Inflights::Grow() {
   int32_t new_size = buffer_.size() * 2;
-- 
2.43.0


From f7af2cc3a0f85b1dd139c998ddde89909a9e4f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 04/18] fix: Inflights handles window sizes beyond 32 bits

---
 src/tracker/inflights.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracker/inflights.cc b/src/tracker/inflights.cc
index dbfc305..c209f8d 100644
--- a/src/tracker/inflights.cc
+++ b/src/tracker/inflights.cc
@@ -21,12 +21,12 @@ void Inflights::Add(uint64_t inflight) {
   if (Full()) {
     CRAFT_LOG_FATAL(logger_, "cannot add into a Full inflights");
   }
-  int32_t next = start_ + count_;
-  int32_t size = size_;
+  int64_t next = start_ + count_;
+  int64_t size = size_;
   if (next >= size) {
     next -= size;
   }
-  if (next >= static_cast<int32_t>(buffer_.size())) {
+  if (next >= static_cast<int64_t>(buffer_.size())) {
     Grow();
   }
   buffer_[next] = inflight;
@@ -39,8 +39,8 @@ void Inflights::FreeLE(uint64_t to) {
     return;
   }
 
-  int32_t idx = start_;
-  int32_t i;
+  int64_t idx = start_;
+  int64_t i;
   for (i = 0; i < count_; i++) {
     if (to < buffer_[idx]) {  // found the first large inflight
       break;
@@ -71,7 +71,7 @@ void Inflights::FreeFirstOne() {
 }
 
 void Inflights::Grow() {
-  int32_t new_size = buffer_.size() * 2;
+  int64_t new_size = static_cast<int64_t>(buffer_.size()) * 2;
   if (new_size == 0) {
     new_size = 1;
   } else if (new_size > size_) {
-- 
2.43.0


From 9f9fd9ae0a962f666f33c40fa938d0a248bb3fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 05/18] fix: a delayed rejection never moves a peer's Next to
 or below its Match

---
 src/tracker/progress.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/progress.cc b/src/tracker/progress.cc
index 7bb53cf..7373f46 100644
--- a/src/tracker/progress.cc
+++ b/src/tracker/progress.cc
@@ -107,7 +107,8 @@ bool Progress::MaybeDecrTo(uint64_t rejected, uint64_t match_hint) {
     return false;
   }
 
-  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), 1);
+  // Never go back to or below Match: the rejection may be a delayed duplicate.
+  next_ = std::max<uint64_t>(std::min<uint64_t>(rejected, match_hint + 1), match_ + 1);
   probe_sent_ = false;
   return true;
 }
-- 
2.43.0


From 9b03475cc873358e8dec9d5d525629b80e8861ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 06/18] fix: MemoryStorage::Entries computes its iterators
 without leaving the deque

---
 src/storage.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index 8b1ba0d..dc3a1d8 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -75,7 +75,7 @@ MemoryStorage::Entries(uint64_t lo, uint64_t hi, uint64_t max_size) {
 
   // copy entries[lo, hi)
   EntryPtrs ents;
-  ents.assign(ents_.begin() + lo - offset, ents_.begin() + hi - offset);
+  ents.assign(ents_.begin() + (lo - offset), ents_.begin() + (hi - offset));
   return std::make_tuple(Util::LimitSize(std::move(ents), max_size), Status::OK());
 }
 
-- 
2.43.0


From 4fdce4b15b821390ae941a8269cf5afdfa8a23d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 07/18] fix: RawNode::AcceptReady records the accepted Ready so
 Advance has one

---
 src/rawnode.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb8941a..fb6a7ea 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -167,6 +167,7 @@ std::shared_ptr<Ready> RawNode::ReadyWithoutAccept() {
 }
 
 void RawNode::AcceptReady(std::shared_ptr<Ready> rd) {
+  ready_ = rd;
   if (rd->soft_state.has_value()) {
     prev_soft_st_ = *(rd->soft_state);
   }
-- 
2.43.0


From ddc46d38a695a66a4b5b7d733ba7402d39984553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 08/18] fix: a leader that is no longer tracked can still
 append the entry leaving a joint configuration

---
 src/raft.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 03cae5f..04ff300 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -523,7 +523,11 @@ bool Raft::AppendEntry(const EntryPtrs& es) {
   }
   // use latest "last" index after truncate/append
   li = raft_log_->Append(es);
-  trk_.GetProgress(id_)->MaybeUpdate(li);
+  // A leader that was demoted and then removed has no progress of its own.
+  auto self_pr = trk_.GetProgress(id_);
+  if (self_pr) {
+    self_pr->MaybeUpdate(li);
+  }
   // Regardless of maybeCommit's return, our caller will call bcastAppend.
   MaybeCommit();
   return true;
-- 
2.43.0


From 08c9ada33548b76e95daa2f38bc570652f28b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:15 +0000
Subject: [PATCH 09/18] fix: a pre-candidate ignores pre-vote grants of an
 earlier campaign

---
 src/raft.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 04ff300..307035b 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1400,6 +1400,12 @@ Status Raft::StepCandidate(MsgPtr m) {
     HandleSnapshot(m);
     return Status::OK();
   } else if (m->type() == my_vote_resp_type) {
+    // A granted pre-vote carries the term of the campaign it was requested for;
+    // ignore grants of an earlier campaign, which are not for the next term.
+    if (state_ == RaftStateType::kPreCandidate && !m->reject() &&
+        m->from() != id_ && m->term() != term_ + 1) {
+      return Status::OK();
+    }
     auto [gr, rj, res] = Poll(m->from(), m->type(), !m->reject());
     CRAFT_LOG_INFO(logger_, "%llu has received %lld %s votes and %lld vote rejections", id_,
               gr, raftpb::MessageType_Name(m->type()).c_str(), rj);
-- 
2.43.0


From 7e3ba968439dd6a80ca77caf843427263b25b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:06 +0000
Subject: [PATCH 10/18] fix: only a leader that is itself the single voter
 answers reads without a quorum

---
 src/raft.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 307035b..8be7e42 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1043,7 +1043,8 @@ Status Raft::StepLeader(MsgPtr m) {
     }
     case raftpb::MessageType::MsgReadIndex: {
       // only one voting member (the leader) in the cluster
-      if (trk_.IsSingleton()) {
+      auto self_pr = trk_.GetProgress(id_);
+      if (trk_.IsSingleton() && self_pr && !self_pr->IsLearner()) {
         auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
         if (resp->to() != kNone) {
           Send(resp);
-- 
2.43.0


From e8c391542303c9299d394e1979015f872b1133bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:08 +0000
Subject: [PATCH 11/18] fix: a leader re-added to the configuration counts its
 own log at once

---
 src/raft.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 8be7e42..b8c18db 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1759,6 +1759,10 @@ raftpb::ConfState Raft::SwitchToConfig(const ProgressTracker::Config& cfg,
     return cs;
   }
 
+  // A leader that was removed and added again in one step starts over with
+  // fresh progress of its own, but it still holds its whole log.
+  pr->MaybeUpdate(raft_log_->LastIndex());
+
   if (MaybeCommit()) {
     // If the configuration change means that more entries are committed now,
     // broadcast/append to everyone in the updated config.
-- 
2.43.0


From 3523ab7e66cc6b5816911ba7074a0bb55611078e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:27 +0000
Subject: [PATCH 12/18] fix: RawNode::Bootstrap refuses a nonempty storage

---
 src/rawnode.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rawnode.cc b/src/rawnode.cc
index fb6a7ea..4ffa903 100644
--- a/src/rawnode.cc
+++ b/src/rawnode.cc
@@ -60,6 +60,9 @@ Status RawNode::Bootstrap(std::vector<Peer> peers) {
   if (!s.IsOK()) {
     return s;
   }
+  if (last_index != 0) {
+    return Status::Error("can't bootstrap a nonempty Storage");
+  }
 
 	// We've faked out initial entries above, but nothing has been
 	// persisted. Start with an empty HardState (thus the first Ready will
-- 
2.43.0


From fffd79fd0065bdc945e4d54d47fbdd52f70e9c50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:04 +0000
Subject: [PATCH 13/18] fix: MemoryStorage::InitialState reads under the
 storage lock

---
 src/storage.cc | 1 +
 src/storage.h  | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/storage.cc b/src/storage.cc
index dc3a1d8..52f60ae 100644
--- a/src/storage.cc
+++ b/src/storage.cc
@@ -39,6 +39,7 @@ MemoryStorage::MemoryStorage(std::shared_ptr<Logger> logger)
 
 std::tuple<raftpb::HardState, raftpb::ConfState, Status>
 MemoryStorage::InitialState() const {
+  std::shared_lock<std::shared_mutex> guard(mutex_);
   return std::make_tuple(hard_state_, snapshot_->metadata().conf_state(), Status::OK());
 }
 
diff --git a/src/storage.h b/src/storage.h
index a60705d..ab5ece9 100644
--- a/src/storage.h
+++ b/src/storage.h
@@ -156,7 +156,7 @@ class MemoryStorage : public Storage {
   // Protects access to all fields. Most methods of MemoryStorage are
   // run on the raft thread, but Append() is run on an application
   // thread.
-  std::shared_mutex mutex_;
+  mutable std::shared_mutex mutex_;
   raftpb::HardState hard_state_;
   SnapshotPtr snapshot_;
   // ents[i] has raft log position i+snapshot.Metadata.Index
-- 
2.43.0


From 232f4b2cf878bf27c2f9bf0409b6c49598d4c2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:16 +0000
Subject: [PATCH 14/18] fix: Ready::String prints the snapshot when there is
 one

---
 src/raft.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index b8c18db..8c16dd5 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -123,7 +123,7 @@ std::string Ready::String() const {
     ss << "]" << std::endl;
   };
 
-  if (!snapshot) {
+  if (snapshot && !IsEmptySnap(snapshot)) {
     ss << "snapshot index=" << snapshot->metadata().index() << " term=" << snapshot->metadata().term() << std::endl;
     print_vec(snapshot->metadata().conf_state().voters(), "voters");
     print_vec(snapshot->metadata().conf_state().learners(), "learners");
-- 
2.43.0


From 7ba42610105bf2d7bfb17e26ed2447af12392eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:06 +0000
Subject: [PATCH 15/18] fix: confirm pending reads when the local vote or a
 membership change completes the quorum

---
 src/raft.cc | 17 ++++++++++++++++-
 src/raft.h  |  4 ++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/raft.cc b/src/raft.cc
index 8c16dd5..7aecaa5 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1774,6 +1774,11 @@ raftpb::ConfState Raft::SwitchToConfig(const ProgressTracker::Config& cfg,
     trk_.Visit(
         [this](uint64_t id, ProgressPtr& pr) { MaybeSendAppend(id, false); });
   }
+  // The voters that were still to confirm the pending reads may be gone.
+  std::string read_ctx = read_only_->LastPendingRequestCtx();
+  if (!read_ctx.empty()) {
+    ConfirmReadIndex(read_ctx);
+  }
   // If the leadTransferee was removed or demoted, abort the leadership
   // transfer.
   if (trk_.GetConfig().voters.IDs().count(lead_transferee_) == 0 &&
@@ -1892,6 +1897,16 @@ void Raft::ReleasePendingReadIndexMessages() {
   }
 }
 
+void Raft::ConfirmReadIndex(const std::string& context) {
+  auto m = std::make_shared<raftpb::Message>();
+  m->set_type(raftpb::MessageType::MsgHeartbeatResp);
+  m->set_from(id_);
+  m->set_to(id_);
+  m->set_term(term_);
+  m->set_context(context);
+  StepLeader(m);
+}
+
 void Raft::SendMsgReadIndexResponse(MsgPtr m) {
   // thinking: use an internally defined context instead of the user given
   // context. We can express this in terms of the term and index instead of a
@@ -1900,7 +1915,7 @@ void Raft::SendMsgReadIndexResponse(MsgPtr m) {
   // If more than the local vote is needed, go through a full broadcast.
   if (read_only_->Option() == ReadOnly::ReadOnlyOption::kSafe) {
     read_only_->AddRequest(raft_log_->Committed(), m);
-    read_only_->RecvAck(id_, m->entries(0).data());
+    ConfirmReadIndex(m->entries(0).data());
     BcastHeartbeatWithCtx(m->entries(0).data());
   } else if (read_only_->Option() == ReadOnly::ReadOnlyOption::kLeaseBased) {
     auto resp = ResponseToReadIndexReq(m, raft_log_->Committed());
diff --git a/src/raft.h b/src/raft.h
index dea74e3..8e7755c 100644
--- a/src/raft.h
+++ b/src/raft.h
@@ -376,6 +376,10 @@ class Raft {
 
   void SendMsgReadIndexResponse(MsgPtr m);
 
+  // ConfirmReadIndex adds the vote of the local node, which is the leader, to
+  // the pending read with the given context.
+  void ConfirmReadIndex(const std::string& context);
+
   uint64_t Term() const { return term_; }
   void SetTerm(uint64_t term) { term_ = term; }
 
-- 
2.43.0


From 201e73c195be8690a1e5a897847d479e62bd5fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:11 +0000
Subject: [PATCH 16/18] fix: draw the election timeout with 64-bit arithmetic

---
 src/raft.cc | 2 +-
 src/util.cc | 4 ++--
 src/util.h  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/raft.cc b/src/raft.cc
index 7aecaa5..0caa4a4 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -1804,7 +1804,7 @@ bool Raft::PastElectionTimeout() const {
 }
 
 void Raft::ResetRandomizedElectionTimeout() {
-  auto random = Util::Random(0, static_cast<int>(election_timeout_-1));
+  auto random = Util::Random(0, election_timeout_ - 1);
   randomized_election_timeout_ = election_timeout_ + static_cast<int64_t>(random);
 }
 
diff --git a/src/util.cc b/src/util.cc
index b43e322..cd6534c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -104,8 +104,8 @@ bool Util::IsResponseMsg(raftpb::MessageType msgt) {
          msgt == raftpb::MessageType::MsgPreVoteResp;
 }
 
-int Util::Random(int lower_bound, int upper_bound) {
-  std::uniform_int_distribution<int> distribution(lower_bound, upper_bound);
+int64_t Util::Random(int64_t lower_bound, int64_t upper_bound) {
+  std::uniform_int_distribution<int64_t> distribution(lower_bound, upper_bound);
   return distribution(gen_);
 }
 
diff --git a/src/util.h b/src/util.h
index 25cb49c..03e05a6 100644
--- a/src/util.h
+++ b/src/util.h
@@ -55,7 +55,7 @@ class Util {
   static bool IsResponseMsg(raftpb::MessageType msgt);
 
   // [lower_bound, upper_bound]
-  static int Random(int lower_bound, int upper_bound);
+  static int64_t Random(int64_t lower_bound, int64_t upper_bound);
 
  private:
   static thread_local std::mt19937 gen_;
-- 
2.43.0


From 8fc413cb9be67dfc657f9ccb11c5cb165c1c78c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:28 +0000
Subject: [PATCH 17/18] fix: a dropped membership change is not taken for a
 pending one

---
 src/raft.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/raft.cc b/src/raft.cc
index 0caa4a4..efc3d45 100644
--- a/src/raft.cc
+++ b/src/raft.cc
@@ -994,6 +994,7 @@ Status Raft::StepLeader(MsgPtr m) {
         return Status::Error(kErrProposalDropped);
       }
 
+      auto old_pending_conf_index = pending_conf_index_;
       for (int i = 0; i < m->entries_size(); i++) {
         auto& e = m->entries()[i];
         ConfChangeI cc;
@@ -1036,6 +1037,8 @@ Status Raft::StepLeader(MsgPtr m) {
       }
 
       if (!AppendEntry(Util::MakeEntries(m))) {
+        // A dropped conf change is not pending.
+        pending_conf_index_ = old_pending_conf_index;
         return Status::Error(kErrProposalDropped);
       }
       BcastAppend();
-- 
2.43.0


From 2519f1fddf6f096c3e544b0e13a59c99515dcd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:03 +0000
Subject: [PATCH 18/18] fix: the console logger has written its fatal line
 before the process stops

---
 src/logger.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/logger.cc b/src/logger.cc
index a5233c7..ea1b882 100644
--- a/src/logger.cc
+++ b/src/logger.cc
@@ -44,6 +44,8 @@ void ConsoleLogger::Logv(LogLevel level, const char* format, va_list ap) {
   printf(ANSI_COLOR_RESET);
 
   if (level == LogLevel::kFatal) {
+    // abort() does not flush the streams.
+    fflush(stdout);
     abort();
   }
 }
-- 
2.43.0

