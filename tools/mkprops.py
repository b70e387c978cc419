#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the list is kept here because JSON lines are hard to read)."""
import json, os
S = "openraft/src/"
def P(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=[S + f if not f.startswith("stores/") else f for f in files],
                             mechanism=[dict(name=n, where=S + w if not w.startswith("stores/") else w) for n, w in mech],
                             observe_at=observe, state=state or [], hook_needed=hook))
SCH, CR, IN, HI, CF, FS = "schedules", "crash_points", "inputs", "histories", "configurations", "fault_sequences"
L = []
L.append(P("P01", "Election safety: at most one leader per vote, elected by a quorum",
 "For every vote (term and node; the term alone with the feature single-term-leader) there is at most one leader, and a node acts as leader only after a quorum of every voter config in its membership (its own durable vote included) granted its own, current vote. Only voters stand for election, always in a new term, and only the leader of a vote sends log entries, snapshots or transfer requests under it.",
 [SCH, CR, FS, CF], "every interleaving of elections, message loss, duplication and delay, crashes and restarts, membership changes and leader transfers",
 "The tests run a few scripted elections with an in-memory router; they do not reorder, duplicate or delay vote messages across restarts and membership changes.",
 ["engine/engine_impl.rs", "engine/handler/vote_handler/mod.rs", "proposer/candidate.rs", "core/raft_core.rs", "vote/vote.rs", "quorum/joint_impl.rs"],
 [("elect / handle_vote_resp", "engine/engine_impl.rs"), ("grants counted per candidate", "proposer/candidate.rs"), ("vote ordering", "vote/vote.rs")],
 ["vote requests and replies on the network", "vote written to the log storage", "AppendEntries and snapshots sent", "metrics: leader, term"]))
L.append(P("P02", "Votes never go back, are durable before use, and need an up-to-date log",
 "The vote of a node only grows, over restarts too, and is durable before it shows in any message or reply. A node grants a vote only if no higher one was adopted and the candidate's last log id is not behind its own, and once it has adopted a higher vote it accepts no entries or snapshots under a lower one. A rejection always shows the higher vote that causes it.",
 [SCH, CR, FS], "every order of requests from competing leaders and candidates, flush delays of the log storage, and crash between write and flush",
 "Tests flush at once and crash rarely; the order of a vote write, its flush, and the reply cannot be observed by them.",
 ["engine/handler/vote_handler/mod.rs", "engine/engine_impl.rs", "core/raft_core.rs", "raft_state/io_state.rs", "engine/command.rs"],
 [("update_vote / reject lower vote", "engine/handler/vote_handler/mod.rs"), ("replies wait for IO flushed", "engine/command.rs"), ("IO progress: accepted, submitted, flushed", "raft_state/io_state.rs")],
 ["save_vote calls and their completion", "replies to vote, append and snapshot requests"]))
L.append(P("P03", "Log matching: logs are copies of the leaders' append-only logs",
 "Every log is contiguous with growing log ids; two nodes that have an entry with the same log id have the same entry and the same entries before it. A leader only appends to its log, never removes from or overwrites it, and a follower appends only what the leader it follows has sent. What a leader sends is always a piece of its own log.",
 [SCH, CR, FS], "every schedule of appends, conflicts, truncation, retries with partial success or too large payload, leader change and restart",
 "A conflict that needs truncation arises only from certain leader changes; tests script a handful and use small payloads and a network without partial success.",
 ["engine/handler/following_handler/mod.rs", "engine/handler/leader_handler/mod.rs", "engine/handler/log_handler/mod.rs", "replication/mod.rs", "engine/log_id_list.rs", "core/raft_core.rs"],
 [("append_entries / truncate_logs", "engine/handler/following_handler/mod.rs"), ("leader_append_entries", "engine/handler/leader_handler/mod.rs"), ("send_log_entries", "replication/mod.rs")],
 ["append, truncate calls on the log storage", "AppendEntries requests and replies"]))
L.append(P("P04", "Leader completeness: a leader has every entry committed before",
 "When a node becomes leader, its log (or the snapshot that stands for a purged part of it) has every entry that leaders before it have committed.",
 [SCH, CR, FS, CF], "every history of elections, commits, crashes and membership changes",
 "It depends on the interplay of vote comparison, commit rule, membership change and durability over whole histories.",
 ["engine/engine_impl.rs", "engine/handler/vote_handler/mod.rs", "engine/handler/replication_handler/mod.rs"],
 [("handle_vote_req compares last log ids", "engine/engine_impl.rs"), ("commit only entries of own term", "proposer/leader.rs")],
 ["log of a node as it becomes leader", "committed log over all nodes"]))
L.append(P("P05", "State machine safety: all nodes apply the same committed log in order",
 "Every node applies committed entries only, each exactly once per life of its state machine, in the order of the log and without gaps, and all nodes apply the same entries at the same index. What a node has applied is never truncated, and the committed position it reports or saves never goes back.",
 [SCH, CR, FS], "every schedule of commits, applies, leader changes, snapshot installs, crashes and restarts, with state machines that persist or not",
 "Divergence needs a truncated-after-commit or replay-after-restart history that fixed scenarios do not reach.",
 ["core/raft_core.rs", "core/sm/worker.rs", "engine/handler/following_handler/mod.rs", "engine/handler/replication_handler/mod.rs", "storage/helper.rs"],
 [("apply in log order", "core/sm/worker.rs"), ("follower commit", "engine/handler/following_handler/mod.rs"), ("re-apply at startup", "storage/helper.rs")],
 ["apply calls on the state machine", "save_committed calls"]))
L.append(P("P06", "Acknowledged means durable",
 "A node acknowledges log entries, a snapshot or a vote to another node only when it would still have them after a crash at that moment: in the flushed part of its log, or covered by its persisted state.",
 [CR, SCH, FS], "every moment of a crash, every delay between a write and its completion, storages that save meta data at once or with the log",
 "The test storages complete each write at once, so an early acknowledgement cannot be seen.",
 ["core/raft_core.rs", "engine/command.rs", "engine/engine_impl.rs", "raft_state/io_state.rs", "storage/callback.rs", "core/sm/worker.rs"],
 [("Respond waits for a flushed IO", "engine/command.rs"), ("IOFlushed callback", "storage/callback.rs"), ("flushed progress", "raft_state/io_state/io_progress.rs")],
 ["replies to append, vote and snapshot requests", "completion of writes"]))
L.append(P("P07", "Only what a quorum has acknowledged in the leader's own term is committed",
 "A leader commits an entry only when a quorum of every voter config in its membership has acknowledged it or a later entry of the leader's own log, the entry that is acknowledged being of its own term; learners and non-members do not count. Nodes that are not leader only take over commits.",
 [SCH, HI, CF], "every order of acknowledgements, of replication progress and of membership changes, for any uniform or joint config",
 "Quorums over joint configs with interleaved acks are sampled at a few points; a commit that lacks a quorum shows only if the others then crash.",
 ["progress/mod.rs", "engine/handler/replication_handler/mod.rs", "quorum/joint_impl.rs", "quorum/quorum_set_impl.rs", "proposer/leader.rs", "membership/effective_membership.rs"],
 [("VecProgress::update: quorum-granted value", "progress/mod.rs"), ("try_commit_quorum_accepted", "engine/handler/replication_handler/mod.rs")],
 ["commit index in AppendEntries, apply, save_committed", "acknowledgements at the leader"]))
L.append(P("P08", "Membership changes keep quorums overlapping, one at a time",
 "Every membership put into the log is valid (non-empty voters, all of them nodes) and any of its quorums meets any quorum of the membership before it. A leader proposes a new membership only when the one before it is committed. A membership takes effect as soon as it is in the log and is withdrawn if truncated.",
 [SCH, HI, CF, CR], "every sequence of change requests, config, leader change and crash in between the two steps of a joint change",
 "The tests drive a few changes to completion; the danger is in changes that are interrupted, truncated or overtaken.",
 ["membership/membership.rs", "raft_state/membership_state/mod.rs", "raft_state/membership_state/change_handler.rs", "membership/effective_membership.rs", "engine/handler/leader_handler/mod.rs", "core/raft_core.rs"],
 [("ChangeHandler::apply", "raft_state/membership_state/change_handler.rs"), ("next_coherent", "membership/membership.rs"), ("truncate membership", "raft_state/membership_state/mod.rs")],
 ["membership entries appended", "metrics: membership"]))
L.append(P("P09", "A membership change does what was asked",
 "A change request either appends exactly the membership that it asks for, step by step through a joint config where needed, or is refused for a reason that is true (empty, unknown learner, another change in progress, not leader). A change that is acknowledged is committed, and the reply shows the membership in the log.",
 [IN, HI, SCH], "every kind of change request on every membership: add, remove, replace voters or nodes, with retained or dropped nodes, concurrent and interrupted",
 "The product of membership, request kind and retain flag is large, and what is refused or retained is checked at few points.",
 ["membership/membership.rs", "change_members.rs", "raft_state/membership_state/change_handler.rs", "raft/impl_raft_blocking_write.rs", "core/raft_core.rs"],
 [("Membership::change", "membership/membership.rs"), ("two-step change_membership", "raft/impl_raft_blocking_write.rs")],
 ["replies to change_membership and add_learner", "membership entries appended"]))
L.append(P("P10", "A snapshot stands for exactly the committed log it replaces",
 "A snapshot that a node builds, sends or installs holds the state of exactly the committed log up to its last log id, and the membership in effect there. Installing never moves a state machine back, comes only from a leader, and a node goes on from it as if it had applied the log.",
 [SCH, CR, FS], "every interleaving of building, sending, installing, applying, purging, truncating and crashing",
 "Overlaps of building with applying or installing are timing dependent and scripted nowhere.",
 ["core/sm/worker.rs", "engine/handler/snapshot_handler/mod.rs", "engine/handler/following_handler/mod.rs", "core/raft_core.rs", "replication/mod.rs"],
 [("install_full_snapshot", "engine/handler/following_handler/mod.rs"), ("build / install in the state machine worker", "core/sm/worker.rs"), ("update_snapshot", "engine/handler/snapshot_handler/mod.rs")],
 ["snapshots built, sent, received and installed, with their data"]))
L.append(P("P11", "Purging keeps what is needed",
 "A node purges only committed log entries that its own snapshot covers; the purge position never goes back and, unless the user asks for more or a snapshot is installed, the configured number of entries behind the snapshot is kept.",
 [SCH, CF, CR], "every schedule of snapshots, purges, replication and restarts, for every keep and batch setting",
 "An early purge does harm only when a restart or a slow follower needs the entries later.",
 ["engine/handler/log_handler/mod.rs", "engine/handler/snapshot_handler/mod.rs", "engine/handler/replication_handler/mod.rs", "core/raft_core.rs", "engine/engine_impl.rs"],
 [("calc_purge_upto / schedule_policy_based_purge", "engine/handler/log_handler/mod.rs"), ("trigger_purge_log", "engine/engine_impl.rs"), ("try_purge_log", "engine/handler/replication_handler/mod.rs")],
 ["purge calls on the log storage", "metrics: purged, snapshot"]))
L.append(P("P12", "Linearizable reads never miss an acknowledged write",
 "When a linearizable read is confirmed on a node, its state machine has everything that was acknowledged to any client (write, read or change) before the read began, the read log id covers it, and a quorum has answered a message which that leader sent after the read began.",
 [SCH, FS, HI], "every schedule in which leaders are deposed, isolated, paused or restarted around a read",
 "A stale read needs a deposed leader that does not know it yet; the tests produce that in one scenario.",
 ["core/raft_core.rs", "raft/mod.rs", "proposer/leader.rs", "engine/handler/leader_handler/mod.rs"],
 [("handle_check_is_leader_request", "core/raft_core.rs"), ("get_read_log_id", "engine/handler/leader_handler/mod.rs"), ("ensure_linearizable waits for apply", "raft/mod.rs")],
 ["replies to ensure_linearizable and get_read_log_id", "state machine at that time"]))
L.append(P("P13", "Client writes: acknowledged once committed and applied, with their own result",
 "A write is proposed at most once, and only if a client asked for it. It is acknowledged only when it is committed and applied on that node, with the result and log id of that very request, behind everything acknowledged before it began; a write refused because the node is not the leader never takes effect.",
 [SCH, HI, FS], "every interleaving of concurrent writes, leader change, truncation, crashes and slow applies",
 "Mixing up or dropping replies takes leader changes with writes in flight.",
 ["core/raft_core.rs", "core/sm/worker.rs", "engine/handler/leader_handler/mod.rs", "raft/impl_raft_blocking_write.rs", "engine/handler/vote_handler/mod.rs"],
 [("client_resp_channels", "core/raft_core.rs"), ("responses of applied entries", "core/sm/worker.rs")],
 ["replies to client_write", "committed log", "apply calls"]))
L.append(P("P14", "The leader lease is honoured",
 "While a node follows a live leader (it accepted a message of it less than the lease time ago), it neither grants a vote to another candidate nor starts an election, unless told to by the user or by a leader transfer. The time up to which a leader says a quorum has acknowledged it is backed by replies of a quorum to messages sent at or after that time.",
 [SCH, FS, CF], "every timing of heartbeats, appends, vote requests, elections and restarts",
 "It is about time and order: the tests use short sleeps and cannot tell a lease that is a little too short.",
 ["engine/engine_impl.rs", "utime.rs", "engine/handler/vote_handler/mod.rs", "core/raft_core.rs", "proposer/leader.rs", "core/heartbeat/worker.rs"],
 [("lease check in handle_vote_req", "engine/engine_impl.rs"), ("Leased: touch, expiry", "utime.rs"), ("last_quorum_acked_time", "proposer/leader.rs")],
 ["votes granted and elections begun, with their time", "metrics: last_quorum_acked"]))
L.append(P("P15", "Leader transfer hands over safely and does not block for good",
 "Only a leader that was asked to transfers its leadership, naming its own vote and last log id. From then on it proposes no client write until it gives up, which it does if the transfer does not come about; the target stands for election on this account only when it has the leader's log or has waited for it in vain, and only if it is a voter.",
 [SCH, FS], "every schedule of transfer requests, replication, loss, duplicate messages and concurrent writes",
 "The tests transfer on an idle, healthy cluster.",
 ["raft/trigger.rs", "engine/engine_impl.rs", "proposer/leader.rs", "raft/mod.rs", "core/raft_core.rs"],
 [("trigger_transfer_leader", "engine/engine_impl.rs"), ("transfer_to", "proposer/leader.rs"), ("handle_transfer_leader", "raft/mod.rs")],
 ["transfer requests on the network", "entries proposed", "elections begun"]))
L.append(P("P16", "A cluster is initialized at most once per node, with the config asked for",
 "Initializing succeeds only on a pristine node (no log, no vote) that is a member of the given config, and writes exactly that config as the first entry; a pristine node that is a member is never refused, any other node is refused and left unchanged.",
 [SCH, CR, HI], "every order of initialize calls on all nodes, concurrent with votes, replication, crashes and restarts",
 "Concurrent and repeated initialization over crashes is not exercised.",
 ["engine/engine_impl.rs", "engine/handler/following_handler/mod.rs", "raft/mod.rs"],
 [("initialize / check_initialize", "engine/engine_impl.rs")],
 ["replies to initialize", "first entry appended"]))
L.append(P("P17", "A node comes back from its storage as it was",
 "A node that boots from any storage that a crash left behind starts without error, with the vote, membership, committed position, snapshot and role that its storage implies, and brings its state machine up to what is known to be committed before it serves. It holds a snapshot for everything that was purged.",
 [CR, HI, CF], "every crash point in every history, state machines that persist or not, storages that save the committed position or not",
 "The tests restart a few nodes at quiet moments; half-finished purges, truncates, snapshot installs do not occur.",
 ["storage/helper.rs", "core/raft_core.rs", "engine/engine_impl.rs", "engine/log_id_list.rs", "raft/mod.rs"],
 [("StorageHelper::get_initial_state", "storage/helper.rs"), ("Engine::startup", "engine/engine_impl.rs"), ("load log ids", "engine/log_id_list.rs")],
 ["state of a node after Raft::new", "storage calls during startup"]))
L.append(P("P18", "The cluster recovers when the faults end",
 "Once faults end, all nodes are up and the network delivers, the cluster elects one leader, commits new writes, and all members catch up with the leader's log, apply it and agree about who leads, within a bounded time; this holds whatever happened before.",
 [HI, FS, CR, SCH], "every history of faults, membership changes, snapshots, transfers and crashes before",
 "A cluster that is stuck is a property of the history; the tests recover from a few chosen ones.",
 ["core/raft_core.rs", "replication/mod.rs", "core/tick.rs", "core/heartbeat/worker.rs", "engine/handler/replication_handler/mod.rs", "progress/entry/mod.rs", "engine/engine_impl.rs"],
 [("election and heartbeat ticks", "core/tick.rs"), ("replication retry and progress", "replication/mod.rs")],
 ["metrics of all nodes", "client write at the end of a run"]))
L.append(P("P19", "Metrics tell the truth and never go back",
 "Whatever metrics show is, or was a moment ago, true of the node: its durable vote and term, a leader that really leads that term, applied, snapshot and purged positions that the storage has reached, and a membership that is in the log. Vote, applied, snapshot and purged positions never go back while the node runs, and waiting for a condition ends when it holds.",
 [SCH, HI], "every order of updates, for all metric fields, on leaders, followers and learners",
 "The tests use metrics to wait for an outcome and do not look at intermediate values.",
 ["core/raft_core.rs", "metrics/raft_metrics.rs", "metrics/wait.rs", "metrics/metric.rs"],
 [("report_metrics / flush_metrics", "core/raft_core.rs"), ("Wait", "metrics/wait.rs")],
 ["all values of the metrics channel"]))
L.append(P("P20", "A snapshot sent in chunks arrives whole or not at all",
 "A snapshot that is sent chunk by chunk and installed is byte for byte the one that the sender read, with its meta data, whatever chunks are lost, repeated, late or mixed with those of another snapshot; a chunk that does not continue what was received is refused, and the sender then starts anew. Chunks under a lower vote are refused.",
 [SCH, FS, IN], "every sequence of chunks of several snapshots and senders, lost, repeated and reordered",
 "The tests send the chunks of one snapshot in order.",
 ["network/snapshot_transport.rs", "raft/mod.rs", "network/v2/adapt_v1.rs", "replication/mod.rs"],
 [("Chunked::send_snapshot / receive_snapshot", "network/snapshot_transport.rs"), ("Raft::install_snapshot", "raft/mod.rs")],
 ["chunks sent, their replies, the snapshot installed"]))
L.append(P("P21", "In a healthy cluster, what is asked for happens",
 "When all nodes are up and the network is prompt: a snapshot that is triggered covers all that was applied; a purge up to a log that a snapshot covers takes place; a leader transfer to a voter makes it the leader; a learner that is added catches up; a change of voters that are caught up completes with the voters asked for; a write at the leader is applied and one elsewhere is refused with the leader's id and address; Raft::wait returns when the condition holds and fails in time when it does not; with nothing to do the leader and its vote stay the same; with elections switched off a node never campaigns, and it rejoins when they are switched on.",
 [HI, SCH, CF], "every history that leads to a healthy cluster: any mix of earlier faults, crashes, membership changes, snapshots",
 "The tests ask for these in fresh clusters with no history of faults.",
 ["raft/mod.rs", "raft/trigger.rs", "raft/runtime_config_handle.rs", "metrics/wait.rs", "core/raft_core.rs", "core/tick.rs", "core/heartbeat/worker.rs"],
 [("external commands", "core/raft_core.rs"), ("Trigger", "raft/trigger.rs"), ("RuntimeConfigHandle", "raft/runtime_config_handle.rs"), ("Wait", "metrics/wait.rs"), ("forward_to_leader", "engine/handler/leader_handler/mod.rs")],
 ["return values of the API", "metrics", "votes and entries on storage"]))
L.append(P("P22", "Shutdown is final",
 "Raft::shutdown returns, whatever the node was doing. After that the node adopts no vote, accepts or deletes no entry and starts no election (its state machine may finish what was committed before); every API call answers that it has stopped, and so do the metrics. The other nodes go on if they have a quorum, and the node comes back from its storage.",
 [HI, SCH, CF], "every history, role and load of the node at the time of the shutdown",
 "The tests shut idle nodes down at the end of a test.",
 ["raft/mod.rs", "raft/raft_inner.rs", "core/raft_core.rs", "core/sm/worker.rs", "core/tick.rs", "replication/mod.rs"],
 [("shutdown signal", "core/raft_core.rs"), ("join_core_task", "raft/raft_inner.rs"), ("state machine worker", "core/sm/worker.rs")],
 ["return values of the API", "storage writes", "metrics: running_state"]))
L.append(P("P23", "Replication progress never claims more than was acknowledged",
 "The position that a leader has recorded (and shows) as matched for a node is one that this node acknowledged to that leader, in the leader's own log; an error, timeout, conflict or late reply of an earlier session never moves it forward.",
 [SCH, FS, HI], "every order of replies, errors, retries, stream restarts, snapshots and membership changes",
 "Late replies of a former replication session are not produced by the tests.",
 ["progress/entry/mod.rs", "progress/inflight/mod.rs", "engine/handler/replication_handler/mod.rs", "replication/mod.rs", "replication/response.rs", "core/raft_core.rs"],
 [("update_matching / update_conflicting", "progress/entry/mod.rs"), ("session id check", "core/raft_core.rs")],
 ["metrics: replication", "commit index"]))
L.append(P("P25", "Storage errors stop a node, nothing else does",
 "A node that sees an error of its log storage or state machine stops: it no longer takes part in elections or replication and does not acknowledge what failed. Without such an error or a shutdown, a node neither panics nor stops, in any history.",
 [FS, HI, SCH], "an error at any storage call in any state; any history without errors",
 "The tests inject a few errors; internal assertions that a rare history violates are not reached.",
 ["core/raft_core.rs", "core/sm/worker.rs", "replication/mod.rs", "storage/helper.rs", "raft/raft_inner.rs", "storage_error.rs"],
 [("Fatal error handling", "core/raft_core.rs"), ("state machine worker reports errors", "core/sm/worker.rs"), ("replication reports storage errors", "replication/mod.rs")],
 ["running state in metrics", "panics", "messages after a fault"]))
L.append(P("P26", "The bundled stores keep what they are given",
 "Each of the stores in stores/ (memstore, rocksstore, sledstore), driven through the storage traits as openraft drives it: reads of the log give exactly the entries that were appended and not truncated or purged since, for every range, and the log state, vote and committed position that were set; applying entries gives the result of each, in order; a snapshot has the state machine's data and membership at its last log id, also when it is built while other things go on, and never takes the place of a newer one; installing a snapshot gives exactly its state. A store on disk that is opened again after a crash at any moment has the vote, entries and truncations that were reported done; what was in progress is there or not (of an append, any first part); its state machine is one that it was, data, membership and last applied log id together, no older than the last snapshot installed (sledstore: than the last apply); and all that was purged is in its state machine or snapshot.",
 [CR, HI, IN], "every sequence of storage operations, all ranges, every crash point (each write to a file or sync of it), loss of what was not synced (write-ahead log of rocksstore)",
 "The test suite of the storage traits calls each operation a few times in a fresh store; it never ends a process in the middle of an operation and opens the store again.",
 ["stores/memstore/src/lib.rs", "stores/rocksstore/src/lib.rs", "stores/sledstore/src/lib.rs", "storage/v2/raft_log_storage.rs", "storage/v2/raft_state_machine.rs"],
 [("append / truncate / purge / save_vote", "stores/rocksstore/src/lib.rs"), ("apply and install_snapshot", "stores/sledstore/src/lib.rs"), ("build_snapshot and get_current_snapshot", "stores/memstore/src/lib.rs")],
 ["return values of the storage traits", "the same after the store is opened again"]))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in L:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
