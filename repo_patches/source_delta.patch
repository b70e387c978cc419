From b22213238637b4d285b075732353915b69a9bc42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 01/25] fix: close replication streams when a leader steps down

---
 openraft/src/engine/handler/vote_handler/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openraft/src/engine/handler/vote_handler/mod.rs b/openraft/src/engine/handler/vote_handler/mod.rs
index abdd1f5..ccdbb1f 100644
--- a/openraft/src/engine/handler/vote_handler/mod.rs
+++ b/openraft/src/engine/handler/vote_handler/mod.rs
@@ -226,6 +226,13 @@ where C: RaftTypeConfig
             "It must hold: vote is not mine, or I am not a voter(leader just left the cluster)"
         );
 
+        // No longer a Leader: close the replication streams before this node starts to change its local logs by
+        // following another Leader. Otherwise, a stream still sending would read the logs of the other Leader and
+        // replicate them on behalf of the previous one.
+        if self.leader.is_some() {
+            self.output.push_command(Command::RebuildReplicationStreams { targets: vec![] });
+        }
+
         *self.leader = None;
         *self.candidate = None;
 
-- 
2.43.0


From 2a8c6a47dab1fa3f74e6c4e92966c4e0be9864fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 02/25] fix: a leader that is triggered to elect drops its
 leadership and replication

---
 openraft/src/engine/engine_impl.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/openraft/src/engine/engine_impl.rs b/openraft/src/engine/engine_impl.rs
index 7bfab27..1715ef7 100644
--- a/openraft/src/engine/engine_impl.rs
+++ b/openraft/src/engine/engine_impl.rs
@@ -30,6 +30,7 @@ use crate::error::InitializeError;
 use crate::error::NotAllowed;
 use crate::error::NotInMembers;
 use crate::error::RejectAppendEntries;
+use crate::progress::Progress;
 use crate::proposer::leader_state::CandidateState;
 use crate::proposer::Candidate;
 use crate::proposer::Leader;
@@ -218,6 +219,14 @@ where C: RaftTypeConfig
 
         let last_log_id = candidate.last_log_id().copied();
 
+        // An election may be triggered by the user on a Leader: it gives up its leadership before voting for a new
+        // term, and the replication to other nodes has to be closed.
+        if let Some(leader) = self.leader.take() {
+            if leader.progress.iter().any(|(target, _)| *target != self.config.id) {
+                self.output.push_command(Command::RebuildReplicationStreams { targets: vec![] });
+            }
+        }
+
         // Simulate sending RequestVote RPC to local node.
         // Safe unwrap(): it won't reject itself ˙–˙
         self.vote_handler().update_vote(&new_vote).unwrap();
-- 
2.43.0


From 9dc77d0fbd2311ed50b0968ec18e2d35345cbe09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 03/25] fix: snapshot may cover more logs than acked inflight
 logs

---
 openraft/src/progress/inflight/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/inflight/mod.rs b/openraft/src/progress/inflight/mod.rs
index 42b7afe..0f78740 100644
--- a/openraft/src/progress/inflight/mod.rs
+++ b/openraft/src/progress/inflight/mod.rs
@@ -116,7 +116,8 @@ where C: RaftTypeConfig
                 }
             }
             Inflight::Snapshot { last_log_id } => {
-                debug_assert_eq!(&upto, last_log_id);
+                // The snapshot that is actually sent may be newer than the one it was planned to send.
+                debug_assert!(&upto >= last_log_id);
                 *self = Inflight::None;
             }
         }
-- 
2.43.0


From d226ed711ecd9b37d6cb4c84ac809e48356b0745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 04/25] fix: apply committed logs by index, their log ids may
 be discarded

---
 openraft/src/core/raft_core.rs  | 7 ++++---
 openraft/src/core/sm/command.rs | 8 ++++----
 openraft/src/core/sm/worker.rs  | 4 ++--
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 369ce55..f75a478 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -743,7 +743,7 @@ where
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) async fn apply_to_state_machine(
         &mut self,
-        first: LogId<C::NodeId>,
+        first: u64,
         last: LogId<C::NodeId>,
     ) -> Result<(), StorageError<C>> {
         tracing::debug!("{}: {}..={}", func_name!(), first, last);
@@ -1758,8 +1758,9 @@ where
                 already_committed,
                 upto,
             } => {
-                let first = self.engine.state.get_log_id(already_committed.next_index()).unwrap();
-                self.apply_to_state_machine(first, upto).await?;
+                // The logs to apply are still in the log store, but their log ids may have been discarded from
+                // `RaftState.log_ids` if a snapshot is being installed. Thus only the index is used.
+                self.apply_to_state_machine(already_committed.next_index(), upto).await?;
             }
             Command::Replicate { req, target } => {
                 let node = self.replications.get(&target).expect("replication to target node exists");
diff --git a/openraft/src/core/sm/command.rs b/openraft/src/core/sm/command.rs
index 51e170e..fd5236a 100644
--- a/openraft/src/core/sm/command.rs
+++ b/openraft/src/core/sm/command.rs
@@ -36,8 +36,8 @@ where C: RaftTypeConfig
 
     /// Apply the log entries to the state machine.
     Apply {
-        /// The first log id to apply, inclusive.
-        first: LogIdOf<C>,
+        /// The index of the first log to apply, inclusive.
+        first: u64,
 
         /// The last log id to apply, inclusive.
         last: LogIdOf<C>,
@@ -74,8 +74,8 @@ where C: RaftTypeConfig
         Command::InstallFullSnapshot { io_id, snapshot }
     }
 
-    /// Applies log ids within the inclusive range `[first, last]`.
-    pub(crate) fn apply(first: LogIdOf<C>, last: LogIdOf<C>) -> Self {
+    /// Applies logs from index `first` to log id `last`, inclusive.
+    pub(crate) fn apply(first: u64, last: LogIdOf<C>) -> Self {
         Command::Apply { first, last }
     }
 
diff --git a/openraft/src/core/sm/worker.rs b/openraft/src/core/sm/worker.rs
index 72e4928..969aac7 100644
--- a/openraft/src/core/sm/worker.rs
+++ b/openraft/src/core/sm/worker.rs
@@ -161,12 +161,12 @@ where
         }
     }
     #[tracing::instrument(level = "debug", skip_all)]
-    async fn apply(&mut self, first: LogIdOf<C>, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
+    async fn apply(&mut self, first: u64, last: LogIdOf<C>) -> Result<ApplyResult<C>, StorageError<C>> {
         // TODO: prepare response before apply,
         //       so that an Entry does not need to be Clone,
         //       and no references will be used by apply
 
-        let since = first.index;
+        let since = first;
         let end = last.index + 1;
 
         let entries = self.log_reader.try_get_log_entries(since..end).await?;
-- 
2.43.0


From dc014102f59ce0220a821d376774d4829192179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 05/25] fix: do not replace a newer installed snapshot when
 building a snapshot is done

---
 openraft/src/core/raft_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index f75a478..1e4571d 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1467,8 +1467,11 @@ where
                         let last_log_id = meta.last_log_id;
                         self.engine.finish_building_snapshot(meta);
 
+                        // A newer snapshot may have been installed while this one was being built.
                         let st = self.engine.state.io_state_mut();
-                        st.update_snapshot(last_log_id);
+                        if last_log_id.as_ref() > st.snapshot() {
+                            st.update_snapshot(last_log_id);
+                        }
                     }
                     sm::Response::InstallSnapshot((io_id, meta)) => {
                         tracing::info!(
-- 
2.43.0


From 2e5c4d94e78c7f25c216f8b089008d0869a5a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 06/25] fix: policy based purge must not go backward

---
 openraft/src/engine/handler/log_handler/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/log_handler/mod.rs b/openraft/src/engine/handler/log_handler/mod.rs
index 7b36aa2..d151c81 100644
--- a/openraft/src/engine/handler/log_handler/mod.rs
+++ b/openraft/src/engine/handler/log_handler/mod.rs
@@ -55,7 +55,10 @@ where C: RaftTypeConfig
     #[tracing::instrument(level = "debug", skip_all)]
     pub(crate) fn schedule_policy_based_purge(&mut self) {
         if let Some(purge_upto) = self.calc_purge_upto() {
-            self.update_purge_upto(purge_upto);
+            // A greater purge may have already been scheduled, e.g., by the user.
+            if Some(&purge_upto) > self.state.purge_upto() {
+                self.update_purge_upto(purge_upto);
+            }
         }
     }
 
-- 
2.43.0


From 6391365afd1d3edb7f7fe04f95a2a4537d80dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 07/25] fix: a removed leader that has not stepped down may
 append membership

---
 openraft/src/engine/handler/replication_handler/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/replication_handler/mod.rs b/openraft/src/engine/handler/replication_handler/mod.rs
index bb438a7..3a3c7de 100644
--- a/openraft/src/engine/handler/replication_handler/mod.rs
+++ b/openraft/src/engine/handler/replication_handler/mod.rs
@@ -60,8 +60,10 @@ where C: RaftTypeConfig
             self.state.server_state == ServerState::Leader,
             "Only leader is allowed to call update_effective_membership()"
         );
+        // The Leader does not have to be a member: it may have been removed but has not yet stepped down.
         debug_assert!(
-            self.state.is_leader(&self.config.id),
+            self.state.vote_ref().is_committed()
+                && self.state.vote_ref().leader_id().voted_for().as_ref() == Some(&self.config.id),
             "Only leader is allowed to call update_effective_membership()"
         );
 
-- 
2.43.0


From bbd997e850aa5c07968635abe8dbc47ecf50c3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 08/25] fix: give up a leader transfer that does not finish in
 time

---
 openraft/src/core/raft_core.rs                   |  1 +
 .../src/engine/handler/leader_handler/mod.rs     |  5 ++++-
 openraft/src/proposer/leader.rs                  | 16 +++++++++++++++-
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 1e4571d..0a50407 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1364,6 +1364,7 @@ where
 
                         // Install next heartbeat
                         if let Some(l) = self.engine.leader_mut() {
+                            l.expire_transfer(now);
                             l.next_heartbeat = C::now() + Duration::from_millis(self.config.heartbeat_interval);
                         }
                     }
diff --git a/openraft/src/engine/handler/leader_handler/mod.rs b/openraft/src/engine/handler/leader_handler/mod.rs
index 368f09e..c6c6675 100644
--- a/openraft/src/engine/handler/leader_handler/mod.rs
+++ b/openraft/src/engine/handler/leader_handler/mod.rs
@@ -10,6 +10,7 @@ use crate::raft_state::IOId;
 use crate::raft_state::LogStateReader;
 use crate::replication::ReplicationSessionId;
 use crate::type_config::alias::LogIdOf;
+use crate::type_config::TypeConfigExt;
 use crate::RaftLogId;
 use crate::RaftState;
 use crate::RaftTypeConfig;
@@ -117,7 +118,9 @@ where C: RaftTypeConfig
 
     /// Disable proposing new logs for this Leader, and transfer Leader to another node
     pub(crate) fn transfer_leader(&mut self, to: C::NodeId) {
-        self.leader.mark_transfer(to);
+        // It takes at most two leader lease for other nodes to elect another Leader, unless there is a split vote.
+        let expire_at = C::now() + self.config.timer_config.leader_lease * 2;
+        self.leader.mark_transfer(to, expire_at);
         self.state.vote.disable_lease();
 
         self.output.push_command(Command::BroadcastTransferLeader {
diff --git a/openraft/src/proposer/leader.rs b/openraft/src/proposer/leader.rs
index 4a81d05..554d34c 100644
--- a/openraft/src/proposer/leader.rs
+++ b/openraft/src/proposer/leader.rs
@@ -43,6 +43,9 @@ where C: RaftTypeConfig
     /// Leadership transfers disable proposing new logs.
     pub(crate) transfer_to: Option<C::NodeId>,
 
+    /// The time at which this Leader gives up an unfinished transfer and resumes proposing.
+    transfer_expire_at: Option<InstantOf<C>>,
+
     /// The vote this leader works in.
     ///
     /// `self.voting` may be in progress requesting vote for a higher vote.
@@ -120,6 +123,7 @@ where
 
         let leader = Self {
             transfer_to: None,
+            transfer_expire_at: None,
             committed_vote: vote,
             next_heartbeat: C::now(),
             last_log_id,
@@ -149,8 +153,18 @@ where
         &self.committed_vote
     }
 
-    pub(crate) fn mark_transfer(&mut self, to: C::NodeId) {
+    pub(crate) fn mark_transfer(&mut self, to: C::NodeId, expire_at: InstantOf<C>) {
         self.transfer_to = Some(to);
+        self.transfer_expire_at = Some(expire_at);
+    }
+
+    /// Give up the transfer in progress if no other Leader has been established in time, e.g., because the target node
+    /// is unable to become the Leader.
+    pub(crate) fn expire_transfer(&mut self, now: InstantOf<C>) {
+        if self.transfer_expire_at.is_some() && Some(now) > self.transfer_expire_at {
+            self.transfer_to = None;
+            self.transfer_expire_at = None;
+        }
     }
 
     pub(crate) fn get_transfer_to(&self) -> Option<&C::NodeId> {
-- 
2.43.0


From 1573c2e7b366e6745874edccc6b98861cd8af6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 09/25] fix: a replaced heartbeat worker must not send another
 heartbeat

---
 openraft/src/core/heartbeat/worker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index 8ff245f..bbdcb93 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -64,7 +64,9 @@ where
         loop {
             tracing::debug!("{} is waiting for a new heartbeat event.", self);
 
-            futures::select! {
+            // Check the shutdown signal first: a worker that has been replaced must not send the next heartbeat, because
+            // its target may have been removed from the membership.
+            futures::select_biased! {
                 _ = (&mut rx_shutdown).fuse() => {
                     tracing::info!("{} is shutdown.", self);
                     return;
-- 
2.43.0


From 4d26a79650557e62c725ed79df0c3079f1c864bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 10/25] fix: a rejected heartbeat does not acknowledge the
 leader

---
 openraft/src/core/heartbeat/worker.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/openraft/src/core/heartbeat/worker.rs b/openraft/src/core/heartbeat/worker.rs
index bbdcb93..0c65a05 100644
--- a/openraft/src/core/heartbeat/worker.rs
+++ b/openraft/src/core/heartbeat/worker.rs
@@ -12,6 +12,7 @@ use crate::core::notification::Notification;
 use crate::network::v2::RaftNetworkV2;
 use crate::network::RPCOption;
 use crate::raft::AppendEntriesRequest;
+use crate::raft::AppendEntriesResponse;
 use crate::type_config::alias::MpscUnboundedSenderOf;
 use crate::type_config::alias::OneshotReceiverOf;
 use crate::type_config::alias::WatchReceiverOf;
@@ -95,6 +96,19 @@ where
             tracing::debug!("{} sent a heartbeat: {}, result: {:?}", self, heartbeat, res);
 
             match res {
+                Ok(Ok(AppendEntriesResponse::HigherVote(higher))) => {
+                    // The target no longer acknowledges this Leader.
+                    let res = self.tx_notification.send(Notification::HigherVote {
+                        target: self.target,
+                        higher,
+                        sender_vote: *heartbeat.session_id.leader_vote.deref(),
+                    });
+
+                    if res.is_err() {
+                        tracing::error!("{} failed to send a higher vote to RaftCore. quit", self);
+                        return;
+                    }
+                }
                 Ok(Ok(_)) => {
                     let res = self.tx_notification.send(Notification::HeartbeatProgress {
                         session_id: heartbeat.session_id,
-- 
2.43.0


From 50721a8841d5c5bbfed4a62e36940d17f0ae9a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 11/25] fix: keep the progress of nodes ordered so that the
 quorum-granted value is correct

---
 openraft/src/progress/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openraft/src/progress/mod.rs b/openraft/src/progress/mod.rs
index db1e19b..8b22d63 100644
--- a/openraft/src/progress/mod.rs
+++ b/openraft/src/progress/mod.rs
@@ -356,9 +356,14 @@ where
 
         // Sort and find the greatest value granted by a quorum set.
 
-        if prev_le_granted && new_gt_granted {
+        if new_gt_granted {
+            // Values greater than `granted` must be kept in order, even when it does not affect `granted` for now.
             let new_index = self.move_up(index);
 
+            if !prev_le_granted {
+                return Ok(&self.granted);
+            }
+
             // From high to low, find the max value that has constituted a quorum.
             for i in new_index..self.voter_count {
                 let prog = self.vector[i].1.borrow();
-- 
2.43.0


From db51b97a98f0a9e2e3cd433cebe27f7fa5f00fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 12/25] fix: an installed snapshot may be behind submitted or
 flushed logs

---
 openraft/src/core/raft_core.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 0a50407..28c341c 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1399,7 +1399,11 @@ where
             }
 
             Notification::LocalIO { io_id } => {
-                self.engine.state.io_state.io_progress.flush(io_id);
+                // The flushed log may be behind the last installed snapshot.
+                let io_progress = &mut self.engine.state.io_state.io_progress;
+                if Some(&io_id) > io_progress.flushed() {
+                    io_progress.flush(io_id);
+                }
 
                 match io_id {
                     IOId::Log(log_io_id) => {
@@ -1482,7 +1486,11 @@ where
                             func_name!()
                         );
 
-                        self.engine.state.io_state_mut().io_progress.flush(io_id);
+                        // The installed snapshot may be behind the last flushed log.
+                        let io_progress = &mut self.engine.state.io_state_mut().io_progress;
+                        if Some(&io_id) > io_progress.flushed() {
+                            io_progress.flush(io_id);
+                        }
 
                         if let Some(meta) = meta {
                             let st = self.engine.state.io_state_mut();
@@ -1793,7 +1801,11 @@ where
                 let io_id = command.get_submit_io();
 
                 if let Some(io_id) = io_id {
-                    self.engine.state.io_state.io_progress.submit(io_id);
+                    // The snapshot to install may be behind the last submitted log.
+                    let io_progress = &mut self.engine.state.io_state.io_progress;
+                    if Some(&io_id) > io_progress.submitted() {
+                        io_progress.submit(io_id);
+                    }
                 }
 
                 // Just forward a state machine command to the worker.
-- 
2.43.0


From a5ecb8a227775ccef3a5d69109ae185bbdc14abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 13/25] fix: rebuild the snapshot on startup if it does not
 cover purged logs

---
 openraft/src/storage/helper.rs | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/openraft/src/storage/helper.rs b/openraft/src/storage/helper.rs
index d188654..8a7f816 100644
--- a/openraft/src/storage/helper.rs
+++ b/openraft/src/storage/helper.rs
@@ -124,19 +124,14 @@ where
 
         let snapshot = self.state_machine.get_current_snapshot().await?;
 
-        // If there is not a snapshot and there are logs purged, which means the snapshot is not persisted,
+        // If there is not a snapshot covering the purged logs, which means the snapshot is not persisted,
         // we just rebuild it so that replication can use it.
-        let snapshot = match snapshot {
-            None => {
-                if last_purged_log_id.is_some() {
-                    let mut b = self.state_machine.get_snapshot_builder().await;
-                    let s = b.build_snapshot().await?;
-                    Some(s)
-                } else {
-                    None
-                }
-            }
-            s @ Some(_) => s,
+        let snapshot_last_log_id = snapshot.as_ref().and_then(|s| s.meta.last_log_id);
+        let snapshot = if snapshot_last_log_id < last_purged_log_id {
+            let mut b = self.state_machine.get_snapshot_builder().await;
+            Some(b.build_snapshot().await?)
+        } else {
+            snapshot
         };
         let snapshot_meta = snapshot.map(|x| x.meta).unwrap_or_default();
 
-- 
2.43.0


From 0e9421c5d48b9b12c3e0e9d36f59b5811768f8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 14/25] fix: do not truncate committed membership when
 installing a conflicting snapshot

---
 openraft/src/engine/handler/following_handler/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 995f800..93ba991 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -308,7 +308,12 @@ where C: RaftTypeConfig
         if let Some(local) = local {
             if local != snap_last_log_id {
                 // Conflict, delete all non-committed logs.
-                self.truncate_logs(self.state.committed().next_index());
+                //
+                // The last committed membership may be greater than the `committed` this node knows of: there is at
+                // most one non-committed membership config, thus the one preceding the effective one is committed.
+                let committed_next = self.state.committed().next_index();
+                let membership_next = self.state.membership_state.committed().log_id().next_index();
+                self.truncate_logs(std::cmp::max(committed_next, membership_next));
             }
         }
 
-- 
2.43.0


From ba6945ee82888bfd076f1ca62dfa6145df0050a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 15/25] fix: a non-voter must not elect by leader transfer

---
 openraft/src/core/raft_core.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 28c341c..8da6f38 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -749,9 +749,9 @@ where
         tracing::debug!("{}: {}..={}", func_name!(), first, last);
 
         debug_assert!(
-            first.index <= last.index,
+            first <= last.index,
             "first.index {} should <= last.index {}",
-            first.index,
+            first,
             last.index
         );
 
@@ -1253,7 +1253,11 @@ where
 
                     self.engine.state.vote.disable_lease();
                     if self.id == to {
-                        self.engine.elect();
+                        if self.engine.state.membership_state.effective().is_voter(&self.id) {
+                            self.engine.elect();
+                        } else {
+                            tracing::warn!("this node is not a voter, can not become Leader by transfer");
+                        }
                     }
                 }
             }
-- 
2.43.0


From 3f910f11364f3770210d78b5d294ec1e7607c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:04 +0000
Subject: [PATCH 16/25] fix: a restarted leader must read after all logs it has
 proposed

---
 openraft/src/engine/handler/leader_handler/mod.rs | 4 +++-
 openraft/src/proposer/leader.rs                   | 8 ++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/openraft/src/engine/handler/leader_handler/mod.rs b/openraft/src/engine/handler/leader_handler/mod.rs
index c6c6675..bc8011c 100644
--- a/openraft/src/engine/handler/leader_handler/mod.rs
+++ b/openraft/src/engine/handler/leader_handler/mod.rs
@@ -113,7 +113,9 @@ where C: RaftTypeConfig
     pub(crate) fn get_read_log_id(&self) -> Option<LogIdOf<C>> {
         let committed = self.state.committed().copied();
         // noop log id is the first log this leader proposed.
-        std::cmp::max(self.leader.noop_log_id, committed)
+        // If this leader is restarted, it has to include all logs that may have been committed before the restart.
+        let proposed = std::cmp::max(self.leader.noop_log_id, self.leader.restored_log_id);
+        std::cmp::max(proposed, committed)
     }
 
     /// Disable proposing new logs for this Leader, and transfer Leader to another node
diff --git a/openraft/src/proposer/leader.rs b/openraft/src/proposer/leader.rs
index 554d34c..63bddce 100644
--- a/openraft/src/proposer/leader.rs
+++ b/openraft/src/proposer/leader.rs
@@ -62,6 +62,12 @@ where C: RaftTypeConfig
     /// It is set when leader established.
     pub(crate) noop_log_id: Option<LogIdOf<C>>,
 
+    /// The last log id this leader has proposed before it is restarted, if it is restarted without losing leadership.
+    ///
+    /// A restarted leader does not know which of the logs it has proposed have been committed: any of them may already
+    /// be visible to a client.
+    pub(crate) restored_log_id: Option<LogIdOf<C>>,
+
     /// Tracks the replication progress and committed index
     pub(crate) progress: VecProgress<C::NodeId, ProgressEntry<C>, Option<LogIdOf<C>>, QS>,
 
@@ -120,6 +126,7 @@ where
         };
 
         let last_log_id = last_leader_log_id.last().copied();
+        let restored_log_id = last_log_id.filter(|x| *x.committed_leader_id() == vote_leader_id);
 
         let leader = Self {
             transfer_to: None,
@@ -128,6 +135,7 @@ where
             next_heartbeat: C::now(),
             last_log_id,
             noop_log_id,
+            restored_log_id,
             progress: VecProgress::new(quorum_set.clone(), learner_ids.iter().copied(), || {
                 ProgressEntry::empty(last_log_id.next_index())
             }),
-- 
2.43.0


From 755859e4b28a9c74f008505bf8913b5d9498f031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:08 +0000
Subject: [PATCH 17/25] fix: an installed snapshot replaces an effective
 membership in logs that it discards

---
 .../src/engine/handler/following_handler/mod.rs     | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 93ba991..8c0fed2 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -20,6 +20,7 @@ use crate::vote::CommittedVote;
 use crate::EffectiveMembership;
 use crate::LogId;
 use crate::LogIdOptionExt;
+use crate::MembershipState;
 use crate::RaftLogId;
 use crate::RaftState;
 use crate::RaftTypeConfig;
@@ -320,9 +321,15 @@ where C: RaftTypeConfig
         let io_id = IOId::new_log_io(self.leader_vote, Some(snap_last_log_id));
         self.state.accept_io(io_id);
         self.state.committed = Some(snap_last_log_id);
-        self.update_committed_membership(EffectiveMembership::new_from_stored_membership(
-            meta.last_membership.clone(),
-        ));
+
+        let snap_membership = EffectiveMembership::new_from_stored_membership(meta.last_membership.clone());
+        let membership_state = &mut self.state.membership_state;
+        if membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
+            // The snapshot covers the log that contains the effective membership. If the effective membership differs, it
+            // is in a log that is never committed and will be purged, although its index may be greater.
+            *membership_state = MembershipState::new(membership_state.committed().clone(), Arc::new(snap_membership.clone()));
+        }
+        self.update_committed_membership(snap_membership);
 
         self.output.push_command(Command::from(sm::Command::install_full_snapshot(snapshot, io_id)));
 
-- 
2.43.0


From bad5006ba13ddd3111e0212cd0d1c9e0c9740103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:37 +0000
Subject: [PATCH 18/25] fix: do not rebuild replication streams if the leader
 has stepped down

---
 openraft/src/core/raft_core.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 8da6f38..8e2be20 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -1779,14 +1779,23 @@ where
                 self.apply_to_state_machine(already_committed.next_index(), upto).await?;
             }
             Command::Replicate { req, target } => {
-                let node = self.replications.get(&target).expect("replication to target node exists");
-                let _ = node.tx_repl.send(req);
+                if let Some(node) = self.replications.get(&target) {
+                    let _ = node.tx_repl.send(req);
+                } else {
+                    // The streams were not rebuilt because the leader has stepped down.
+                    debug_assert!(self.engine.leader.is_none(), "replication to target node exists");
+                }
             }
             Command::BroadcastTransferLeader { req } => self.broadcast_transfer_leader(req).await,
 
             Command::RebuildReplicationStreams { targets } => {
                 self.remove_all_replication().await;
 
+                // The leader may have stepped down while this command was waiting for others to finish.
+                if self.engine.leader.is_none() {
+                    return Ok(None);
+                }
+
                 for ReplicationProgress(target, matching) in targets.iter() {
                     let handle = self.spawn_replication_stream(*target, *matching).await;
                     self.replications.insert(*target, handle);
-- 
2.43.0


From 9bd60a4cccd5fddb56cc189d895c43bb77743d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:12 +0000
Subject: [PATCH 19/25] fix: an installed snapshot replaces both memberships at
 once

---
 openraft/src/engine/handler/following_handler/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openraft/src/engine/handler/following_handler/mod.rs b/openraft/src/engine/handler/following_handler/mod.rs
index 8c0fed2..106201a 100644
--- a/openraft/src/engine/handler/following_handler/mod.rs
+++ b/openraft/src/engine/handler/following_handler/mod.rs
@@ -323,11 +323,11 @@ where C: RaftTypeConfig
         self.state.committed = Some(snap_last_log_id);
 
         let snap_membership = EffectiveMembership::new_from_stored_membership(meta.last_membership.clone());
-        let membership_state = &mut self.state.membership_state;
-        if membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
+        if self.state.membership_state.effective().log_id().index() <= Some(snap_last_log_id.index) {
             // The snapshot covers the log that contains the effective membership. If the effective membership differs, it
             // is in a log that is never committed and will be purged, although its index may be greater.
-            *membership_state = MembershipState::new(membership_state.committed().clone(), Arc::new(snap_membership.clone()));
+            let m = Arc::new(snap_membership.clone());
+            self.state.membership_state = MembershipState::new(m.clone(), m);
         }
         self.update_committed_membership(snap_membership);
 
-- 
2.43.0


From efb3baa77ef08f10fca040deff33d88b0df6c3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:03 +0000
Subject: [PATCH 20/25] fix: do not finish receiving a snapshot that misses a
 chunk in the middle

When a chunked snapshot stream is restarted, a delayed last chunk of the first attempt finished it: seeking beyond
the end left a hole in the data, and the broken snapshot was installed.
---
 openraft/src/network/snapshot_transport.rs | 38 ++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/openraft/src/network/snapshot_transport.rs b/openraft/src/network/snapshot_transport.rs
index f2b4c3e..275e9bd 100644
--- a/openraft/src/network/snapshot_transport.rs
+++ b/openraft/src/network/snapshot_transport.rs
@@ -201,6 +201,23 @@ mod tokio_rt {
 
             {
                 let s = streaming.as_mut().unwrap();
+
+                // A delayed last chunk may reach a stream that has been restarted.
+                // Do not finish a snapshot that has a hole in it.
+                if done && req.offset > s.received {
+                    let mismatch = InstallSnapshotError::SnapshotMismatch(crate::error::SnapshotMismatch {
+                        expect: crate::SnapshotSegmentId {
+                            id: snapshot_id.clone(),
+                            offset: s.received,
+                        },
+                        got: crate::SnapshotSegmentId {
+                            id: snapshot_id.clone(),
+                            offset: req.offset,
+                        },
+                    });
+                    return Err(RaftError::APIError(mismatch));
+                }
+
                 s.receive(req).await?;
             }
 
@@ -253,12 +270,23 @@ mod tokio_rt {
                     err,
                 ));
             }
+            self.segments.insert(self.offset, self.offset + req.data.len() as u64);
             self.offset += req.data.len() as u64;
+
+            while let Some((start, end)) = self.segments.pop_first() {
+                if start > self.received {
+                    self.segments.insert(start, end);
+                    break;
+                }
+                self.received = std::cmp::max(self.received, end);
+            }
+
             Ok(req.done)
         }
     }
 }
 
+use std::collections::BTreeMap;
 use std::future::Future;
 
 use openraft_macros::add_async_trait;
@@ -348,6 +376,14 @@ where C: RaftTypeConfig
     // This field will only be read when feature tokio-rt is on
     offset: u64,
 
+    /// The number of bytes received from the beginning of the snapshot, without a hole.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    received: u64,
+
+    /// The segments, start to end, that are received beyond `received`.
+    #[cfg_attr(not(feature = "tokio-rt"), allow(dead_code))]
+    segments: BTreeMap<u64, u64>,
+
     /// The ID of the snapshot being written.
     snapshot_id: SnapshotId,
 
@@ -361,6 +397,8 @@ where C: RaftTypeConfig
     pub fn new(snapshot_id: SnapshotId, snapshot_data: Box<C::SnapshotData>) -> Self {
         Self {
             offset: 0,
+            received: 0,
+            segments: BTreeMap::new(),
             snapshot_id,
             snapshot_data,
         }
-- 
2.43.0


From bea5844270b0f1ec4529774db022d878ebc9db3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:04 +0000
Subject: [PATCH 21/25] fix: choose a new random election timeout for every
 election

The election timeout was chosen once, when a node starts.  Without
preemption in a term (feature single-term-leader), two candidates whose
timeouts are the same split the votes in every election, forever.
---
 openraft/src/core/raft_core.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openraft/src/core/raft_core.rs b/openraft/src/core/raft_core.rs
index 8e2be20..378ed0b 100644
--- a/openraft/src/core/raft_core.rs
+++ b/openraft/src/core/raft_core.rs
@@ -85,6 +85,7 @@ use crate::replication::ReplicationSessionId;
 use crate::runtime::RaftRuntime;
 use crate::storage::IOFlushed;
 use crate::storage::RaftLogStorage;
+use crate::type_config::alias::AsyncRuntimeOf;
 use crate::type_config::alias::InstantOf;
 use crate::type_config::alias::MpscUnboundedReceiverOf;
 use crate::type_config::alias::MpscUnboundedSenderOf;
@@ -1563,6 +1564,11 @@ where
         // Every time elect, reset this flag.
         self.engine.reset_greater_log();
 
+        // Choose a new random timeout for the next election: with a timeout that never changes, two candidates with
+        // the same timeout split the votes in every election, if a candidate can not preempt another in the same term.
+        self.engine.config.timer_config.election_timeout =
+            Duration::from_millis(self.config.new_rand_election_timeout::<AsyncRuntimeOf<C>>());
+
         tracing::info!("do trigger election");
         self.engine.elect();
     }
-- 
2.43.0


From 6d194e6c4672497af354606191f173362a8d7938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 22/25] fix: memstore: do not replace a newer snapshot with one
 that was built before

A snapshot can be installed while another is being built. The one that was
built used to take its place, although logs up to the installed one may be
purged already.
---
 stores/memstore/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stores/memstore/src/lib.rs b/stores/memstore/src/lib.rs
index 9de0315..745dfd4 100644
--- a/stores/memstore/src/lib.rs
+++ b/stores/memstore/src/lib.rs
@@ -303,7 +303,12 @@ impl RaftSnapshotBuilder<TypeConfig> for Arc<MemStateMachine> {
 
         {
             let mut current_snapshot = self.current_snapshot.write().await;
-            *current_snapshot = Some(snapshot);
+
+            // A newer snapshot may have been installed while this one was being built. Keep it.
+            let current_last_log_id = current_snapshot.as_ref().and_then(|s| s.meta.last_log_id);
+            if current_last_log_id <= last_applied_log {
+                *current_snapshot = Some(snapshot);
+            }
         }
 
         tracing::info!(snapshot_size, "log compaction complete");
-- 
2.43.0


From 96a3bc3c27619b1c1c95a852fadd44be030627cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 23/25] fix: rocksstore: do not replace a newer snapshot with
 one that was built before

The state machine is restored from the saved snapshot: with an older one in
place of the one installed, what was applied is lost with a restart, and the
logs to apply it again may be purged.
---
 stores/rocksstore/src/lib.rs | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/stores/rocksstore/src/lib.rs b/stores/rocksstore/src/lib.rs
index 4da9392..e7568bb 100644
--- a/stores/rocksstore/src/lib.rs
+++ b/stores/rocksstore/src/lib.rs
@@ -15,6 +15,7 @@ use std::io::Cursor;
 use std::ops::RangeBounds;
 use std::path::Path;
 use std::sync::Arc;
+use std::sync::Mutex;
 
 use byteorder::BigEndian;
 use byteorder::ReadBytesExt;
@@ -107,6 +108,9 @@ pub struct StateMachine {
 pub struct RocksStateMachine {
     db: Arc<DB>,
     sm: StateMachine,
+
+    /// Held while the saved snapshot is replaced, shared with the snapshot builders.
+    snapshot_lock: Arc<Mutex<()>>,
 }
 
 impl RocksStateMachine {
@@ -114,6 +118,7 @@ impl RocksStateMachine {
         let mut state_machine = Self {
             db,
             sm: Default::default(),
+            snapshot_lock: Default::default(),
         };
         let snapshot = state_machine.get_current_snapshot().await.unwrap();
 
@@ -125,6 +130,24 @@ impl RocksStateMachine {
 
         state_machine
     }
+
+    /// Read the saved snapshot.
+    fn read_snapshot(&self) -> Result<Option<RocksSnapshot>, StorageError<TypeConfig>> {
+        let x = self
+            .db
+            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
+            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        let bytes = match x {
+            Some(x) => x,
+            None => return Ok(None),
+        };
+
+        let snapshot: RocksSnapshot =
+            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
+
+        Ok(Some(snapshot))
+    }
 }
 
 #[derive(Debug, Clone)]
@@ -299,9 +322,17 @@ impl RaftSnapshotBuilder<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
-        self.db
-            .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
-            .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+        {
+            let _guard = self.snapshot_lock.lock().unwrap();
+
+            // A newer snapshot may have been installed since this builder was created. Keep it.
+            let current_last_log_id = self.read_snapshot()?.and_then(|s| s.meta.last_log_id);
+            if current_last_log_id <= last_applied_log {
+                self.db
+                    .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
+                    .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
+            }
+        }
 
         Ok(Snapshot {
             meta,
@@ -471,6 +502,8 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
         let serialized_snapshot = serde_json::to_vec(&new_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
 
+        let _guard = self.snapshot_lock.lock().unwrap();
+
         self.db
             .put_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot", serialized_snapshot)
             .map_err(|e| StorageError::write_snapshot(Some(meta.signature()), AnyError::new(&e)))?;
@@ -480,19 +513,11 @@ impl RaftStateMachine<TypeConfig> for RocksStateMachine {
     }
 
     async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<TypeConfig>>, StorageError<TypeConfig>> {
-        let x = self
-            .db
-            .get_cf(self.db.cf_handle("sm_meta").unwrap(), "snapshot")
-            .map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
-        let bytes = match x {
+        let snapshot = match self.read_snapshot()? {
             Some(x) => x,
             None => return Ok(None),
         };
 
-        let snapshot: RocksSnapshot =
-            serde_json::from_slice(&bytes).map_err(|e| StorageError::write_snapshot(None, AnyError::new(&e)))?;
-
         let data = snapshot.data.clone();
 
         Ok(Some(Snapshot {
-- 
2.43.0


From 23f5eee0bfb9fdb6a59c86e08b82e9d4d48c4f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 24/25] fix: sledstore: do not replace a newer snapshot with
 one that was built before

---
 stores/sledstore/src/lib.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57eded1..57fa198 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -366,12 +366,21 @@ impl SledStore {
         }
     }
 
+    /// Save a snapshot, unless there already is a newer one.
+    ///
+    /// A newer snapshot may be installed while a snapshot is being built.
     async fn set_current_snapshot_(&self, snap: ExampleSnapshot) -> StorageResult<()> {
         let store_tree = store(&self.db);
         let val = serde_json::to_vec(&snap).unwrap();
         let meta = snap.meta.clone();
         store_tree
-            .insert(b"snapshot", val.as_slice())
+            .fetch_and_update(b"snapshot", |current| {
+                let current = current.map(|x| (x, serde_json::from_slice::<ExampleSnapshot>(x).unwrap()));
+                match current {
+                    Some((ivec, current)) if current.meta.last_log_id > snap.meta.last_log_id => Some(ivec.to_vec()),
+                    _ => Some(val.clone()),
+                }
+            })
             .map_err(|e| StorageError::write_snapshot(Some(snap.meta.signature()), &e))?;
 
         store_tree
-- 
2.43.0


From 66db350bfa5ce1797d6ca06b2a3dc2448497ab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 25/25] fix: sledstore: install a snapshot in one transaction

A crash in between left data without its last applied log id, or a last
applied log id without its membership.
---
 stores/sledstore/src/lib.rs | 47 +++++++++++++++----------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/stores/sledstore/src/lib.rs b/stores/sledstore/src/lib.rs
index 57fa198..0fb9690 100644
--- a/stores/sledstore/src/lib.rs
+++ b/stores/sledstore/src/lib.rs
@@ -166,14 +166,6 @@ impl ExampleStateMachine {
 
         Ok(m)
     }
-    async fn set_last_membership(&self, membership: StoredMembership<TypeConfig>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&membership).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_membership", value).map_err(write_err)?;
-
-        state_machine.flush_async().await.map_err(write_err)?;
-        Ok(())
-    }
     fn set_last_membership_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -193,14 +185,6 @@ impl ExampleStateMachine {
         };
         Ok(last_applied)
     }
-    async fn set_last_applied_log(&self, log_id: LogId<ExampleNodeId>) -> StorageResult<()> {
-        let value = serde_json::to_vec(&log_id).map_err(write_sm_err)?;
-        let state_machine = state_machine(&self.db);
-        state_machine.insert(b"last_applied_log", value).map_err(read_logs_err)?;
-
-        state_machine.flush_async().await.map_err(read_logs_err)?;
-        Ok(())
-    }
     fn set_last_applied_log_tx(
         &self,
         tx_state_machine: &sled::transaction::TransactionalTree,
@@ -210,20 +194,27 @@ impl ExampleStateMachine {
         tx_state_machine.insert(b"last_applied_log", value).map_err(conflictable_txn_err)?;
         Ok(())
     }
+    /// Replace the state machine in one transaction, so that after a crash there is either the old one or the new one,
+    /// and never a `last_applied_log` that does not match the data or the membership.
     async fn from_serializable(sm: SerializableExampleStateMachine, db: Arc<sled::Db>) -> StorageResult<Self> {
-        let data_tree = data(&db);
-        let mut batch = sled::Batch::default();
-        for (key, value) in sm.data {
-            batch.insert(key.as_bytes(), value.as_bytes())
-        }
-        data_tree.apply_batch(batch).map_err(write_sm_err)?;
-        data_tree.flush_async().await.map_err(write_snap_err)?;
-
         let r = Self { db };
-        if let Some(log_id) = sm.last_applied_log {
-            r.set_last_applied_log(log_id).await?;
-        }
-        r.set_last_membership(sm.last_membership).await?;
+
+        let state_machine = state_machine(&r.db);
+        let data_tree = data(&r.db);
+        (&state_machine, &data_tree)
+            .transaction(|(tx_state_machine, tx_data_tree)| {
+                for (key, value) in &sm.data {
+                    r.insert_tx(tx_data_tree, key.clone(), value.clone())?;
+                }
+                if let Some(log_id) = sm.last_applied_log {
+                    r.set_last_applied_log_tx(tx_state_machine, log_id)?;
+                }
+                r.set_last_membership_tx(tx_state_machine, sm.last_membership.clone())?;
+                Ok(())
+            })
+            .map_err(write_err)?;
+
+        r.db.flush_async().await.map_err(write_sm_err)?;
 
         Ok(r)
     }
-- 
2.43.0

