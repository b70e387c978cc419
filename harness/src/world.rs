//! The simulated cluster: nodes running the real `Raft`, a faulty network, clients, crashes and restarts.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::future::Future;
use std::io::Cursor;
use std::sync::Arc;
use std::time::Duration;

use openraft::async_runtime::watch::WatchReceiver;
use openraft::error::ChangeMembershipError;
use openraft::error::CheckIsLeaderError;
use openraft::error::ClientWriteError;
use openraft::error::Fatal;
use openraft::error::InitializeError;
use openraft::error::NetworkError;
use openraft::error::PayloadTooLarge;
use openraft::error::RPCError;
use openraft::error::RaftError;
use openraft::error::RemoteError;
use openraft::error::ReplicationClosed;
use openraft::error::StreamingError;
use openraft::error::Unreachable;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::Backoff;
use openraft::network::RPCOption;
use openraft::raft::AppendEntriesRequest;
use openraft::raft::AppendEntriesResponse;
use openraft::raft::InstallSnapshotRequest;
use openraft::raft::InstallSnapshotResponse;
use openraft::raft::SnapshotResponse;
use openraft::raft::TransferLeaderRequest;
use openraft::raft::VoteRequest;
use openraft::raft::VoteResponse;
use openraft::metrics::RaftDataMetrics;
use openraft::metrics::RaftServerMetrics;
use openraft::BasicNode;
use openraft::ChangeMembers;
use openraft::Config;
use openraft::OptionalSend;
use openraft::RaftNetwork;
use openraft::RaftNetworkFactory;
use openraft::ServerState;
use openraft::Snapshot;
use serde_json::json;
use serde_json::Value;

use crate::rt;
use crate::store::*;
use crate::types::*;

#[derive(Clone, Debug)]
pub struct NetCfg {
    /// One-way delay, microseconds.
    pub delay_us: (u64, u64),
    pub drop: f64,
    pub dup: f64,
    /// Chunks of snapshots that come very late.
    pub late: f64,
    /// Probability that a message takes `slow_ms` instead.
    pub slow: f64,
    pub slow_ms: u64,
    /// Snapshots go chunk by chunk through the v1 API.
    pub chunked: bool,
    /// Probability that a client gets PayloadTooLarge for more than one entry.
    pub too_large: f64,
    /// Probability that AppendEntries is answered with a PartialSuccess of the first entries only.
    pub partial: f64,
}

pub struct NodeSt {
    pub id: u64,
    pub inc: u64,
    pub up: bool,
    pub raft: Option<Raft>,
    pub disk: SharedDisk,
    pub log: Option<LogStore>,
}

pub struct World {
    pub nodes: BTreeMap<u64, NodeSt>,
    pub net: NetCfg,
    pub store: StoreCfg,
    pub config: Arc<Config>,
    /// Directed links that are cut.
    pub cut: BTreeSet<(u64, u64)>,
    pub next_rid: u64,
    pub next_op: u64,
    pub next_req: u64,
    pub outstanding: u64,
    pub fault_free: bool,
    pub lossy_leader: bool,
    /// Nodes that are being shut down, or were.
    pub shutting: BTreeSet<u64>,
    /// A node to which the last chunk of a snapshot is on a long way.
    pub late_to: Option<u64>,
    /// Messages are held for explicit delivery (lockstep mode).
    pub held: Option<Vec<Held>>,
}

/// A message held by the network in lockstep mode.
pub struct Held {
    pub rid: u64,
    pub from: u64,
    pub to: u64,
    pub kind: &'static str,
    pub is_reply: bool,
    pub desc: Value,
    pub go: Option<tokio::sync::oneshot::Sender<bool>>,
}

thread_local! {
    pub static WORLD: RefCell<Option<World>> = const { RefCell::new(None) };
}
pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    WORLD.with(|x| f(x.borrow_mut().as_mut().expect("no world")))
}

pub fn raft_of(n: u64) -> Option<Raft> {
    w(|x| x.nodes.get(&n).and_then(|s| if s.up { s.raft.clone() } else { None }))
}
pub fn label_of(n: u64) -> (u64, u64) {
    w(|x| (n, x.nodes[&n].inc))
}
pub fn is_up(n: u64) -> bool {
    w(|x| x.nodes.get(&n).map(|s| s.up).unwrap_or(false))
}
pub fn ups() -> Vec<u64> {
    w(|x| x.nodes.values().filter(|s| s.up).map(|s| s.id).collect())
}
fn rid() -> u64 {
    w(|x| {
        x.next_rid += 1;
        x.next_rid
    })
}
pub fn op_id() -> u64 {
    w(|x| {
        x.next_op += 1;
        x.next_op
    })
}

/// Whether a message sent now from a to b gets through, and after how long (us).
fn route(a: u64, b: u64) -> Option<u64> {
    let (cut, net) = w(|x| (x.cut.contains(&(a, b)), x.net.clone()));
    if cut || rt::chance(net.drop) {
        return None;
    }
    let mut d = rt::rnd(net.delay_us.0, net.delay_us.1);
    if rt::chance(net.slow) {
        d = rt::rnd(0, net.slow_ms * 1000);
    }
    Some(d)
}

fn neterr(s: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, s.to_string())
}

/// Lockstep mode: hold a message until told to deliver (true) or drop (false) it. Random mode: delay or drop it.
async fn travel(rid: u64, from: u64, to: u64, kind: &'static str, is_reply: bool, desc: Value) -> bool {
    let done = desc["done"] == 1;
    let rx = w(|x| match &mut x.held {
        Some(h) => {
            let (tx, rx) = tokio::sync::oneshot::channel();
            h.push(Held {
                rid,
                from,
                to,
                kind,
                is_reply,
                desc,
                go: Some(tx),
            });
            Some(rx)
        }
        None => None,
    });
    match rx {
        Some(rx) => rx.await.unwrap_or(false),
        None => match route(from, to) {
            Some(d) => {
                rt::sleep_ns(d * 1000).await;
                if kind == "ck" && !is_reply && rt::chance(w(|x| x.net.late)) {
                    if done {
                        w(|x| x.late_to = Some(to));
                    }
                    rt::sleep_ms(rt::rnd(0, 3000)).await;
                }
                // A partition that came up meanwhile also cuts what is in flight.
                w(|x| !x.cut.contains(&(from, to)))
            }
            None => false,
        },
    }
}

/// Send one request and wait for the reply. `None`: lost, one way or the other.
/// `serve` runs at the target, as a task of the target.
async fn rpc<R, Fut>(
    from: u64,
    to: u64,
    rid: u64,
    kind: &'static str,
    desc: Value,
    serve: impl Fn(Raft, u64) -> Fut + Clone + Send + 'static,
    rdesc: impl Fn(&R) -> Value + Send + 'static,
) -> Option<R>
where
    R: Send + 'static,
    Fut: Future<Output = R> + Send + 'static,
{
    let (tx, rx) = tokio::sync::oneshot::channel::<R>();
    let dup = w(|x| x.net.dup);
    if w(|x| x.held.is_none()) && rt::chance(dup) {
        let serve = serve.clone();
        let desc = desc.clone();
        rt::spawn_as((0, 0), async move {
            if travel(rid, from, to, kind, false, desc).await {
                if let Some(raft) = raft_of(to) {
                    let at = rt::now_us();
                    rt::spawn_as(label_of(to), serve(raft, at));
                }
            }
        });
    }
    rt::spawn_as((0, 0), async move {
        if !travel(rid, from, to, kind, false, desc).await {
            // Keep `tx` so that the client hangs until its own timeout, or fail fast.
            fail_later(tx).await;
            return;
        }
        let Some(raft) = raft_of(to) else {
            fail_later(tx).await;
            return;
        };
        let at = rt::now_us();
        let (tx2, rx2) = tokio::sync::oneshot::channel::<R>();
        rt::spawn_as(label_of(to), async move {
            let r = serve(raft, at).await;
            let _ = tx2.send(r);
        });
        let Ok(r) = rx2.await else {
            fail_later(tx).await;
            return;
        };
        let d = rdesc(&r);
        if travel(rid, to, from, kind, true, d).await {
            let _ = tx.send(r);
        } else {
            fail_later(tx).await;
        }
    });
    rx.await.ok()
}

async fn fail_later<R>(tx: tokio::sync::oneshot::Sender<R>) {
    let d = if w(|x| x.held.is_some()) { 0 } else { rt::rnd(0, 30) };
    if d > 25 {
        // Black hole: answers only after all the timeouts of the callers; the transport gives up at last.
        rt::sleep_ms(600).await;
    }
    rt::sleep_ms(d).await;
    drop(tx);
}

pub struct Net {
    pub from: u64,
    pub to: u64,
}

fn lost<E: std::error::Error>() -> RPCError<C, E> {
    if rt::chance(0.3) {
        RPCError::Unreachable(Unreachable::new(&neterr("unreachable")))
    } else {
        RPCError::Network(NetworkError::new(&neterr("lost")))
    }
}

fn ae_resp_json(r: &AppendEntriesResponse<C>) -> (&'static str, Value, Value) {
    match r {
        AppendEntriesResponse::Success => ("ok", json!([]), json!([0, 0, 0])),
        AppendEntriesResponse::PartialSuccess(m) => ("part", jolid(m), json!([0, 0, 0])),
        AppendEntriesResponse::Conflict => ("conf", json!([]), json!([0, 0, 0])),
        AppendEntriesResponse::HigherVote(v) => ("hv", json!([]), jvote(v)),
    }
}

impl Net {
    async fn do_append(&mut self, req: AppendEntriesRequest<C>) -> Result<AppendEntriesResponse<C>, RPCError<C, RaftError<C>>> {
        let (from, to) = (self.from, self.to);
        let rid = rid();
        let last = req.entries.last().map(|e| e.log_id).or(req.prev_log_id);
        let mut req = req;
        let xt = rt::now_us();
        emit(
            "ax",
            json!({"n": from, "to": to, "r": rid, "v": jvote(&req.vote), "p": jolid(&req.prev_log_id),
                   "es": jents(&req.entries), "lc": jolid(&req.leader_commit)}),
        );
        if req.entries.len() > 1 && rt::chance(w(|x| x.net.too_large)) {
            let hint = rt::rnd(1, req.entries.len() as u64 - 1);
            emit("ay", json!({"n": from, "fr": to, "r": rid, "k": "big", "m": [], "h": [0,0,0], "hb": 0}));
            return Err(RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(hint)));
        }
        // The network may deliver only a prefix of the entries and say so.
        let mut cut = None;
        if req.entries.len() > 1 && rt::chance(w(|x| x.net.partial)) {
            let k = rt::rnd(1, req.entries.len() as u64 - 1) as usize;
            req.entries.truncate(k);
            cut = Some(req.entries.last().map(|e| e.log_id));
        }
        let sent_last = req.entries.last().map(|e| e.log_id).or(req.prev_log_id);
        let hb = req.entries.is_empty() && req.prev_log_id.is_none();
        let _ = last;
        let (vote, prev, lc) = (req.vote, req.prev_log_id, req.leader_commit);
        let req = Arc::new(req);
        let desc = json!({"v": jvote(&vote), "p": jolid(&prev), "es": jents(&req.entries), "lc": jolid(&lc)});
        let first = req.entries.first().map(|e| e.log_id);
        let res = rpc(
            from,
            to,
            rid,
            "ae",
            desc,
            move |raft: Raft, at: u64| {
                let rq = AppendEntriesRequest {
                    vote: req.vote,
                    prev_log_id: req.prev_log_id,
                    entries: req.entries.clone(),
                    leader_commit: req.leader_commit,
                };
                async move {
                    let r = raft.append_entries(rq).await;
                    let (k, m, h) = match &r {
                        Ok(r) => ae_resp_json(r),
                        Err(_) => ("err", json!([]), json!([0, 0, 0])),
                    };
                    emit(
                        "ay",
                        json!({"n": to, "fr": from, "r": rid, "v": jvote(&vote), "p": jolid(&prev), "l": jolid(&sent_last),
                               "f": jolid(&first), "lc": jolid(&lc), "k": k, "m": m, "h": h, "at": at, "hb": hb as u64}),
                    );
                    r
                }
            },
            |r| match r {
                Ok(r) => {
                    let (k, m, h) = ae_resp_json(r);
                    json!({"k": k, "m": m, "h": h})
                }
                Err(_) => json!({"k": "err"}),
            },
        )
        .await;
        let r = match res {
            None => return Err(lost()),
            Some(Err(e)) => return Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Some(Ok(r)) => r,
        };
        let (k, m, h) = ae_resp_json(&r);
        emit("az", json!({"n": from, "fr": to, "r": rid, "v": jvote(&vote), "k": k, "m": m, "h": h, "hb": hb as u64,
                         "l": jolid(&sent_last), "xt": xt}));
        match (r, cut) {
            (AppendEntriesResponse::Success, Some(m)) => Ok(AppendEntriesResponse::PartialSuccess(m)),
            (r, _) => Ok(r),
        }
    }

    async fn do_vote(&mut self, req: VoteRequest<C>) -> Result<VoteResponse<C>, RPCError<C, RaftError<C>>> {
        let (from, to) = (self.from, self.to);
        let rid = rid();
        emit("vx", json!({"n": from, "to": to, "r": rid, "v": jvote(&req.vote), "l": jolid(&req.last_log_id)}));
        let (vote, last) = (req.vote, req.last_log_id);
        let desc = json!({"v": jvote(&vote), "l": jolid(&last)});
        let res = rpc(
            from,
            to,
            rid,
            "vr",
            desc,
            move |raft: Raft, at: u64| {
                let rq = req.clone();
                async move {
                    let r = raft.vote(rq).await;
                    let (k, h, l) = match &r {
                        Ok(r) => (r.vote_granted as u64, jvote(&r.vote), jolid(&r.last_log_id)),
                        Err(_) => (9, json!([0, 0, 0]), json!([])),
                    };
                    emit(
                        "vy",
                        json!({"n": to, "fr": from, "r": rid, "v": jvote(&vote), "l": jolid(&last), "g": k, "h": h, "rl": l, "at": at}),
                    );
                    r
                }
            },
            |r| match r {
                Ok(r) => json!({"g": r.vote_granted, "h": jvote(&r.vote), "l": jolid(&r.last_log_id)}),
                Err(_) => json!({"k": "err"}),
            },
        )
        .await;
        let r = match res {
            None => return Err(lost()),
            Some(Err(e)) => return Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Some(Ok(r)) => r,
        };
        emit(
            "vz",
            json!({"n": from, "fr": to, "r": rid, "v": jvote(&vote), "g": r.vote_granted as u64, "h": jvote(&r.vote)}),
        );
        Ok(r)
    }
}

impl RaftNetworkV2<C> for Net {
    async fn append_entries(
        &mut self,
        rpc: AppendEntriesRequest<C>,
        _option: RPCOption,
    ) -> Result<AppendEntriesResponse<C>, RPCError<C>> {
        use openraft::error::decompose::DecomposeResult;
        self.do_append(rpc).await.decompose_infallible()
    }

    async fn vote(&mut self, rpc: VoteRequest<C>, _option: RPCOption) -> Result<VoteResponse<C>, RPCError<C>> {
        use openraft::error::decompose::DecomposeResult;
        self.do_vote(rpc).await.decompose_infallible()
    }

    async fn full_snapshot(
        &mut self,
        vote: V,
        snapshot: Snapshot<C>,
        _cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        _option: RPCOption,
    ) -> Result<SnapshotResponse<C>, StreamingError<C>> {
        let (from, to) = (self.from, self.to);
        let rid = rid();
        let meta = snapshot.meta.clone();
        let data = Arc::new(snapshot.snapshot.into_inner());
        let last = meta.last_log_id;
        emit("sx", json!({"n": from, "to": to, "r": rid, "v": jvote(&vote), "l": jolid(&last)}));
        let desc = json!({"v": jvote(&vote), "l": jolid(&last)});
        let res = rpc(
            from,
            to,
            rid,
            "sn",
            desc,
            move |raft: Raft, at: u64| {
                let s = Snapshot {
                    meta: meta.clone(),
                    snapshot: Box::new(Cursor::new(data.as_ref().clone())),
                };
                async move {
                    let r = raft.install_full_snapshot(vote, s).await;
                    let (k, h) = match &r {
                        Ok(r) => ("ok", jvote(&r.vote)),
                        Err(_) => ("err", json!([0, 0, 0])),
                    };
                    emit(
                        "sy",
                        json!({"n": to, "fr": from, "r": rid, "v": jvote(&vote), "l": jolid(&last), "k": k, "h": h, "at": at}),
                    );
                    r
                }
            },
            |r| match r {
                Ok(r) => json!({"k": "ok", "h": jvote(&r.vote)}),
                Err(_) => json!({"k": "err"}),
            },
        )
        .await;
        match res {
            None => {
                if rt::chance(0.3) {
                    Err(StreamingError::Unreachable(Unreachable::new(&neterr("unreachable"))))
                } else {
                    Err(StreamingError::Network(NetworkError::new(&neterr("lost"))))
                }
            }
            Some(Err(e)) => Err(StreamingError::Network(NetworkError::new(&neterr(&e.to_string())))),
            Some(Ok(r)) => {
                emit("sz", json!({"n": from, "fr": to, "r": rid, "v": jvote(&vote), "l": jolid(&last), "h": jvote(&r.vote)}));
                Ok(r)
            }
        }
    }

    async fn transfer_leader(&mut self, req: TransferLeaderRequest<C>, _option: RPCOption) -> Result<(), RPCError<C>> {
        let (from, to) = (self.from, self.to);
        let rid = rid();
        let (v, target, last) = (*req.from_leader(), *req.to_node_id(), req.last_log_id().copied());
        emit("tx", json!({"n": from, "to": to, "r": rid, "v": jvote(&v), "tgt": target, "l": jolid(&last)}));
        let desc = json!({"v": jvote(&v), "tgt": target, "l": jolid(&last)});
        let res = rpc(
            from,
            to,
            rid,
            "tl",
            desc,
            move |raft: Raft, _at: u64| {
                let rq = req.clone();
                async move {
                    emit("tr_rx", json!({"n": to, "fr": from, "r": rid, "v": jvote(&v), "tgt": target, "l": jolid(&last)}));
                    let r = raft.handle_transfer_leader(rq).await;
                    emit("ty", json!({"n": to, "fr": from, "r": rid, "v": jvote(&v), "tgt": target, "ok": r.is_ok() as u64}));
                    r.is_ok()
                }
            },
            |r| json!({"ok": r}),
        )
        .await;
        match res {
            None => Err(lost()),
            Some(_) => Ok(()),
        }
    }

    fn backoff(&self) -> Backoff {
        Backoff::new(std::iter::repeat(Duration::from_millis(60)))
    }
}

/// The same links through the v1 network API: snapshots are sent in chunks.
pub struct NetV1 {
    pub inner: Net,
}

impl RaftNetwork<C> for NetV1 {
    async fn append_entries(
        &mut self,
        rpc: AppendEntriesRequest<C>,
        _option: RPCOption,
    ) -> Result<AppendEntriesResponse<C>, RPCError<C, RaftError<C>>> {
        self.inner.do_append(rpc).await
    }

    async fn install_snapshot(
        &mut self,
        req: InstallSnapshotRequest<C>,
        _option: RPCOption,
    ) -> Result<InstallSnapshotResponse<C>, RPCError<C, RaftError<C, openraft::error::InstallSnapshotError>>> {
        let (from, to) = (self.inner.from, self.inner.to);
        let rid = rid();
        let sid = req.meta.snapshot_id.clone();
        let (vote, last, off, len, done) =
            (req.vote, req.meta.last_log_id, req.offset, req.data.len() as u64, req.done as u64);
        emit(
            "cx",
            json!({"n": from, "to": to, "r": rid, "v": jvote(&vote), "l": jolid(&last), "off": off, "len": len, "done": done, "sid": sid}),
        );
        let desc = json!({"v": jvote(&vote), "l": jolid(&last), "off": off, "len": len, "done": done});
        let res = rpc(
            from,
            to,
            rid,
            "ck",
            desc,
            move |raft: Raft, at: u64| {
                let rq = req.clone();
                let sid = sid.clone();
                async move {
                    emit("ca", json!({"n": to, "sid": sid, "off": off, "end": off + len}));
                    let r = raft.install_snapshot(rq).await;
                    let (k, h) = match &r {
                        Ok(r) => ("ok", jvote(&r.vote)),
                        Err(RaftError::APIError(_)) => ("mis", json!([0, 0, 0])),
                        Err(_) => ("err", json!([0, 0, 0])),
                    };
                    emit(
                        "cy",
                        json!({"n": to, "fr": from, "r": rid, "v": jvote(&vote), "l": jolid(&last), "off": off, "len": len,
                               "done": done, "k": k, "h": h, "at": at, "sid": sid}),
                    );
                    r
                }
            },
            |r| match r {
                Ok(r) => json!({"k": "ok", "h": jvote(&r.vote)}),
                Err(_) => json!({"k": "err"}),
            },
        )
        .await;
        match res {
            None => Err(lost()),
            Some(Err(e)) => Err(RPCError::RemoteError(RemoteError::new(to, e))),
            Some(Ok(r)) => {
                if done == 1 {
                    emit("sz", json!({"n": from, "fr": to, "r": rid, "v": jvote(&vote), "l": jolid(&last), "h": jvote(&r.vote)}));
                }
                Ok(r)
            }
        }
    }

    async fn vote(&mut self, rpc: VoteRequest<C>, _option: RPCOption) -> Result<VoteResponse<C>, RPCError<C, RaftError<C>>> {
        self.inner.do_vote(rpc).await
    }

    fn backoff(&self) -> Backoff {
        Backoff::new(std::iter::repeat(Duration::from_millis(60)))
    }
}

pub struct Fac {
    pub from: u64,
}
impl RaftNetworkFactory<C> for Fac {
    type Network = Net;
    async fn new_client(&mut self, target: u64, _node: &BasicNode) -> Net {
        Net {
            from: self.from,
            to: target,
        }
    }
}
pub struct FacV1 {
    pub from: u64,
}
impl RaftNetworkFactory<C> for FacV1 {
    type Network = NetV1;
    async fn new_client(&mut self, target: u64, _node: &BasicNode) -> NetV1 {
        NetV1 {
            inner: Net {
                from: self.from,
                to: target,
            },
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Nodes

pub fn add_node(id: u64) {
    w(|x| {
        x.nodes.insert(id, NodeSt {
            id,
            inc: 0,
            up: false,
            raft: None,
            disk: new_disk(id),
            log: None,
        });
    })
}

fn sstate(s: ServerState) -> &'static str {
    match s {
        ServerState::Learner => "L",
        ServerState::Follower => "F",
        ServerState::Candidate => "C",
        ServerState::Leader => "D",
        ServerState::Shutdown => "S",
    }
}

/// All ways to look at the metrics show the same.
#[allow(deprecated)]
fn agree(m: &openraft::RaftMetrics<C>, d: &RaftDataMetrics<C>, s: &RaftServerMetrics<C>) -> bool {
    // Nothing was reported yet.
    if *d == Default::default() && *s == Default::default() && m.state == ServerState::Follower && m.current_term == 0 && m.last_log_index.is_none() {
        return true;
    }
    (m.last_log_index, m.last_applied, m.snapshot, m.purged) == (d.last_log.map(|x| x.index), d.last_applied, d.snapshot, d.purged)
        && (&m.replication, &m.heartbeat, m.last_quorum_acked, m.millis_since_quorum_ack)
            == (&d.replication, &d.heartbeat, d.last_quorum_acked, d.millis_since_quorum_ack)
        && (m.id, m.vote, m.state, m.current_leader, &m.membership_config)
            == (s.id, s.vote, s.state, s.current_leader, &s.membership_config)
}

pub fn metrics_json(n: u64, m: &openraft::RaftMetrics<C>) -> Value {
    let repl: Vec<Value> = match &m.replication {
        Some(r) => r.iter().map(|(k, v)| json!([k, jolid(v)])).collect(),
        None => vec![],
    };
    json!({
        "n": n, "st": sstate(m.state), "term": m.current_term, "v": jvote(&m.vote),
        "last": m.last_log_index.map(|x| x as i64).unwrap_or(-1),
        "ap": jolid(&m.last_applied), "sn": jolid(&m.snapshot), "pu": jolid(&m.purged),
        "ld": m.current_leader.unwrap_or(0),
        "ml": jolid(m.membership_config.log_id()), "m": jmem(m.membership_config.membership()),
        "isl": m.replication.is_some() as u64, "rp": repl,
        "run": match &m.running_state { Ok(_) => "ok", Err(Fatal::Stopped) => "stopped", Err(Fatal::Panicked) => "panicked", Err(_) => "storage" },
        "hb": match &m.heartbeat {
            Some(h) => h.iter().map(|(k, t)| json!([k, t.map(|x| ((*x).0.saturating_sub(1_000_000_000_000)) / 1000).unwrap_or(0)])).collect(),
            None => Vec::<Value>::new(),
        },
        "qa": m.last_quorum_acked.map(|x| ((*x).0.saturating_sub(1_000_000_000_000)) / 1000).unwrap_or(0),
    })
}

/// Boot node `n` from its disk.
pub async fn start(n: u64) {
    let (inc, disk, scfg, cfg, chunked) = w(|x| {
        let s = x.nodes.get_mut(&n).unwrap();
        s.inc += 1;
        (s.inc, s.disk.clone(), x.store.clone(), x.config.clone(), x.net.chunked)
    });
    let log = LogStore {
        disk: disk.clone(),
        cfg: scfg.clone(),
    };
    {
        let d = disk.lock().unwrap();
        emit(
            "st",
            json!({"n": n, "v": jovote(&d.cur.vote), "last": jolid(&d.cur.last()), "pu": jolid(&d.cur.purged),
                   "ap": jolid(&d.sm.last_applied), "sc": jolid(&d.cur.committed),
                   "sn": jolid(&d.snap.as_ref().and_then(|s| s.meta.last_log_id))}),
        );
    }
    let sm = Sm {
        disk: disk.clone(),
        cfg: scfg,
    };
    let label = (n, inc);
    rt::spawn_as(label, log.clone().flusher());
    w(|x| x.nodes.get_mut(&n).unwrap().log = Some(log.clone()));
    let (tx, rx) = tokio::sync::oneshot::channel();
    rt::spawn_as(label, async move {
        let r = if chunked {
            Raft::new(n, cfg, FacV1 { from: n }, log, sm).await
        } else {
            Raft::new(n, cfg, Fac { from: n }, log, sm).await
        };
        let _ = tx.send(r);
    });
    let r = rx.await;
    let raft = match r {
        Ok(Ok(r)) => r,
        Ok(Err(e)) => {
            emit("upfail", json!({"n": n, "why": e.to_string(), "fault": disk.lock().unwrap().failed as u64}));
            return;
        }
        Err(_) => {
            emit("upfail", json!({"n": n, "why": "gone", "fault": disk.lock().unwrap().failed as u64}));
            return;
        }
    };
    w(|x| {
        let s = x.nodes.get_mut(&n).unwrap();
        s.raft = Some(raft.clone());
        s.up = true;
    });
    // What the node believes after loading its storage.
    let r2 = raft.clone();
    rt::spawn_as(label, async move {
        let _ = r2
            .with_raft_state(move |st| {
                let mut v = probe_json(st);
                v["n"] = json!(n);
                emit("up", v);
            })
            .await;
    });
    // Watch the metrics.
    rt::spawn_as(label, async move {
        let mut rx = raft.metrics();
        let (rd, rs) = (raft.data_metrics(), raft.server_metrics());
        let mut prev = Value::Null;
        loop {
            let v = {
                let m = rx.borrow_watched();
                let mut v = metrics_json(n, &m);
                v["ag"] = json!(agree(&m, &rd.borrow_watched(), &rs.borrow_watched()) as u64);
                v
            };
            let mut key = v.clone();
            key["qa"] = json!(0);
            key["hb"] = json!(0);
            if key != prev {
                emit("mt", v);
                prev = key;
            }
            if rx.changed().await.is_err() {
                break;
            }
        }
    });
}

pub fn probe_json(s: &openraft::RaftState<C>) -> Value {
    let ms = &s.membership_state;
    json!({
        "v": jvote(s.vote_ref()),
        "c": jolid(&s.committed),
        "sn": jolid(&s.snapshot_meta.last_log_id),
        "ss": sstate(s.server_state),
        "el": jolid(ms.effective().log_id()),
        "em": jmem(ms.effective().membership()),
        "cl": jolid(ms.committed().log_id()),
        "cm": jmem(ms.committed().membership()),
    })
}

pub fn crash(n: u64) {
    crash_keep(n, None)
}
pub fn crash_keep(n: u64, keep: Option<u64>) {
    let (label, disk, scfg) = w(|x| {
        x.shutting.remove(&n);
        let s = x.nodes.get_mut(&n).unwrap();
        s.up = false;
        ((n, s.inc), s.disk.clone(), x.store.clone())
    });
    let raft = w(|x| {
        let s = x.nodes.get_mut(&n).unwrap();
        s.log = None;
        s.raft.take()
    });
    rt::kill(label);
    drop(raft);
    // A leader that restarts resumes leading in the same term (known finding KF-1): unless that is what is looked at, its
    // submitted writes survive the crash.
    let lossy = w(|x| x.lossy_leader);
    let keep = crash_disk(&disk, &scfg, keep, if lossy { None } else { Some(n) });
    emit("cr", json!({"n": n, "k": keep}));
}

/// Report panics and nodes that stopped by themselves.
pub fn check_health() {
    for (l, msg) in rt::take_panics() {
        emit("panic", json!({"n": l.0, "msg": msg}));
    }
}

// ---------------------------------------------------------------------------------------------------------------
// Client operations. Each runs as a task of the node it talks to, and dies with it.

fn run_at<F>(n: u64, f: impl FnOnce(Raft) -> F + 'static)
where F: Future<Output = ()> + 'static {
    if let Some(raft) = raft_of(n) {
        rt::spawn_as(label_of(n), f(raft));
    }
}

pub fn werr(e: &RaftError<C, ClientWriteError<C>>) -> (&'static str, u64) {
    match e {
        RaftError::Fatal(_) => ("fatal", 0),
        RaftError::APIError(ClientWriteError::ForwardToLeader(f)) => ("fwd", f.leader_id.unwrap_or(0)),
        RaftError::APIError(ClientWriteError::ChangeMembershipError(c)) => match c {
            ChangeMembershipError::InProgress(_) => ("inprog", 0),
            ChangeMembershipError::EmptyMembership(_) => ("empty", 0),
            ChangeMembershipError::LearnerNotFound(_) => ("nolearner", 0),
        },
    }
}

pub fn write(n: u64) -> u64 {
    let op = op_id();
    let id = w(|x| {
        x.next_req += 1;
        x.next_req
    });
    if !is_up(n) {
        return id;
    }
    emit("wi", json!({"n": n, "o": op, "d": id}));
    let ff = rt::chance(0.2);
    run_at(n, move |raft| async move {
        let r = if ff {
            match raft.client_write_ff(Req { id }).await {
                Ok(rx) => match rx.await {
                    Ok(r) => r.map_err(RaftError::APIError),
                    Err(_) => Err(RaftError::Fatal(Fatal::Stopped)),
                },
                Err(e) => Err(RaftError::Fatal(e)),
            }
        } else {
            raft.client_write(Req { id }).await
        };
        match r {
            Ok(x) => emit(
                "wr",
                json!({"n": n, "o": op, "d": id, "k": "ok", "l": jlid(&x.log_id), "rid": x.data.id, "pos": x.data.pos,
                       "ri": x.data.index, "mem": x.membership.is_some() as u64, "ld": 0}),
            ),
            Err(e) => {
                let (k, ld) = werr(&e);
                emit("wr", json!({"n": n, "o": op, "d": id, "k": k, "l": [], "rid": 0, "pos": 0, "ri": 0, "mem": 0, "ld": ld}))
            }
        }
    });
    id
}

pub fn read(n: u64) {
    if !is_up(n) {
        return;
    }
    let op = op_id();
    let disk = w(|x| x.nodes[&n].disk.clone());
    let two_step = rt::chance(0.3);
    emit("ri", json!({"n": n, "o": op}));
    run_at(n, move |raft| async move {
        let r = if two_step {
            match raft.get_read_log_id().await {
                Ok((rl, _applied)) => {
                    let idx = rl.map(|x| x.index);
                    match raft.wait(Some(Duration::from_secs(60))).applied_index_at_least(idx, "read").await {
                        Ok(_) => Ok(rl),
                        Err(_) => {
                            emit("rr", json!({"n": n, "o": op, "k": "wait", "l": [], "ap": [], "len": 0, "ld": 0}));
                            return;
                        }
                    }
                }
                Err(e) => Err(e),
            }
        } else {
            raft.ensure_linearizable().await
        };
        match r {
            Ok(rl) => {
                let (ap, len) = {
                    let d = disk.lock().unwrap();
                    (d.sm.last_applied, d.sm.ids.len())
                };
                emit("rr", json!({"n": n, "o": op, "k": "ok", "l": jolid(&rl), "ap": jolid(&ap), "len": len, "ld": 0}));
            }
            Err(e) => {
                let (k, ld) = match &e {
                    RaftError::Fatal(_) => ("fatal", 0),
                    RaftError::APIError(CheckIsLeaderError::ForwardToLeader(f)) => ("fwd", f.leader_id.unwrap_or(0)),
                    RaftError::APIError(CheckIsLeaderError::QuorumNotEnough(_)) => ("noquorum", 0),
                };
                emit("rr", json!({"n": n, "o": op, "k": k, "l": [], "ap": [], "len": 0, "ld": ld}))
            }
        }
    });
}

/// A membership change request, with its JSON description.
pub fn change_json(c: &ChangeMembers<C>, retain: bool) -> Value {
    let ids = |s: &BTreeSet<u64>| s.iter().copied().collect::<Vec<u64>>();
    let nds = |s: &BTreeMap<u64, BasicNode>| -> Vec<(u64, u64)> {
        s.iter().map(|(k, v)| (*k, v.addr.parse::<u64>().unwrap_or(0))).collect()
    };
    let (k, i, nd) = match c {
        ChangeMembers::AddVoterIds(s) => ("addvi", ids(s), vec![]),
        ChangeMembers::AddVoters(s) => ("addv", vec![], nds(s)),
        ChangeMembers::RemoveVoters(s) => ("rmv", ids(s), vec![]),
        ChangeMembers::ReplaceAllVoters(s) => ("rplv", ids(s), vec![]),
        ChangeMembers::AddNodes(s) => ("addn", vec![], nds(s)),
        ChangeMembers::SetNodes(s) => ("setn", vec![], nds(s)),
        ChangeMembers::RemoveNodes(s) => ("rmn", ids(s), vec![]),
        ChangeMembers::ReplaceAllNodes(s) => ("rpln", vec![], nds(s)),
    };
    json!({"k": k, "i": i, "nd": nd, "r": retain as u64})
}

pub fn change(n: u64, c: ChangeMembers<C>, retain: bool) {
    if !is_up(n) {
        return;
    }
    let op = op_id();
    emit("ci", json!({"n": n, "o": op, "c": change_json(&c, retain)}));
    run_at(n, move |raft| async move {
        let r = raft.change_membership(c, retain).await;
        match r {
            Ok(x) => {
                let m = x.membership.as_ref().map(jmem).unwrap_or(json!([]));
                emit("cm", json!({"n": n, "o": op, "k": "ok", "l": jlid(&x.log_id), "m": m, "ld": 0}))
            }
            Err(e) => {
                let (k, ld) = werr(&e);
                emit("cm", json!({"n": n, "o": op, "k": k, "l": [], "m": [], "ld": ld}))
            }
        }
    });
}

pub fn add_learner(n: u64, id: u64, addr: u64, blocking: bool) {
    if !is_up(n) {
        return;
    }
    let op = op_id();
    let nd = BasicNode { addr: addr.to_string() };
    let c = ChangeMembers::AddNodes(BTreeMap::from([(id, nd.clone())]));
    emit("ci", json!({"n": n, "o": op, "c": change_json(&c, true)}));
    run_at(n, move |raft| async move {
        let r = raft.add_learner(id, nd, blocking).await;
        match r {
            Ok(x) => {
                let m = x.membership.as_ref().map(jmem).unwrap_or(json!([]));
                emit("cm", json!({"n": n, "o": op, "k": "ok", "l": jlid(&x.log_id), "m": m, "ld": 0}))
            }
            Err(e) => {
                let (k, ld) = werr(&e);
                emit("cm", json!({"n": n, "o": op, "k": k, "l": [], "m": [], "ld": ld}))
            }
        }
    });
}

pub fn initialize(n: u64, members: BTreeMap<u64, BasicNode>) {
    if !is_up(n) {
        return;
    }
    let op = op_id();
    let m: Vec<(u64, u64)> = members.iter().map(|(k, v)| (*k, v.addr.parse::<u64>().unwrap_or(0))).collect();
    emit("ii", json!({"n": n, "o": op, "m": m}));
    run_at(n, move |raft| async move {
        let r = raft.initialize(members).await;
        let k = match &r {
            Ok(_) => "ok",
            Err(RaftError::Fatal(_)) => "fatal",
            Err(RaftError::APIError(InitializeError::NotAllowed(_))) => "notallowed",
            Err(RaftError::APIError(InitializeError::NotInMembers(_))) => "notin",
        };
        emit("ir", json!({"n": n, "o": op, "k": k}));
    });
}

/// Look at a node through one of the ways there are.
pub fn ask(n: u64) {
    if !is_up(n) {
        return;
    }
    let op = op_id();
    let disk = w(|x| x.nodes[&n].disk.clone());
    let k = ["iz", "gs", "ps", "px", "sm", "sx"][rt::rnd(0, 5) as usize];
    emit("ki", json!({"n": n, "o": op, "k": k}));
    let look = move |st: &openraft::RaftState<C>| {
        let mut v = probe_json(st);
        v["n"] = json!(n);
        v["o"] = json!(op);
        emit("kp", v);
    };
    run_at(n, move |raft| async move {
        match k {
            "iz" => {
                if let Ok(i) = raft.is_initialized().await {
                    emit("kz", json!({"n": n, "o": op, "i": i as u64}));
                }
            }
            "gs" => {
                if let Ok(s) = raft.get_snapshot().await {
                    let s = s.map(|s| crate::store::snap_json(&s.meta, s.snapshot.get_ref())).unwrap_or(json!([]));
                    emit("kg", json!({"n": n, "o": op, "s": s}));
                }
            }
            "ps" => {
                let _ = raft.with_raft_state(look).await;
            }
            "px" => raft.external_request(look),
            "sm" => {
                let r = raft
                    .with_state_machine(move |sm: &mut crate::store::Sm| {
                        Box::pin(async move {
                            let d = sm.disk.lock().unwrap();
                            (d.sm.last_applied, d.sm.ids.len())
                        })
                    })
                    .await;
                if let Ok(r) = r {
                    let (k, (ap, len)) = match r {
                        Ok(x) => (1, x),
                        Err(_) => (0, (None, 0)),
                    };
                    emit("km", json!({"n": n, "o": op, "k": k, "ap": jolid(&ap), "len": len}));
                }
            }
            _ => {
                raft.external_state_machine_request(move |_: &mut crate::store::Sm| {
                    Box::pin(async move {
                        let (ap, len) = {
                            let d = disk.lock().unwrap();
                            (d.sm.last_applied, d.sm.ids.len())
                        };
                        emit("km", json!({"n": n, "o": op, "k": 1, "ap": jolid(&ap), "len": len}));
                    })
                });
            }
        }
    });
}

pub fn trigger(n: u64, what: &'static str, arg: u64) {
    if !is_up(n) {
        return;
    }
    emit("tg", json!({"n": n, "k": what, "a": arg}));
    run_at(n, move |raft| async move {
        let _ = match what {
            "elect" => raft.trigger().elect().await,
            "hb" => raft.trigger().heartbeat().await,
            "snap" => raft.trigger().snapshot().await,
            "purge" => raft.trigger().purge_log(arg).await,
            "transfer" => raft.trigger().transfer_leader(arg).await,
            _ => Ok(()),
        };
    });
}

pub fn runtime(n: u64, what: &'static str, on: bool) {
    let Some(raft) = raft_of(n) else { return };
    emit("rc", json!({"n": n, "k": what, "on": on as u64}));
    match what {
        "elect" => raft.runtime_config().elect(on),
        "hb" => raft.runtime_config().heartbeat(on),
        "tick" => raft.runtime_config().tick(on),
        _ => {}
    }
}

/// The leader that a write on `n` is forwarded to. 0: it was accepted.
pub async fn forward_hint(n: u64) -> Option<u64> {
    let raft = raft_of(n)?;
    let (op, id) = w(|x| {
        x.next_op += 1;
        x.next_req += 1;
        (x.next_op, x.next_req)
    });
    emit("wi", json!({"n": n, "o": op, "d": id}));
    let (tx, rx) = tokio::sync::oneshot::channel();
    rt::spawn_as(label_of(n), async move {
        let r = raft.client_write(Req { id }).await;
        let _ = tx.send(match r {
            Ok(_) => Some(0),
            Err(RaftError::APIError(ClientWriteError::ForwardToLeader(f))) => {
                // The address goes with the node.
                if f.leader_id.is_some() == f.leader_node.is_some() {
                    f.leader_id
                } else {
                    None
                }
            }
            Err(_) => None,
        });
    });
    rx.await.ok().flatten()
}

/// Conditions that hold, and one that does not. What went wrong, if anything.
pub async fn wait_api(n: u64) -> Option<&'static str> {
    let raft = raft_of(n)?;
    let (tx, rx) = tokio::sync::oneshot::channel();
    rt::spawn_as(label_of(n), async move {
        let m = raft.metrics().borrow_watched().clone();
        let t = Some(Duration::from_millis(500));
        let ap = m.last_applied.map(|x| x.index);
        let r = async {
            if raft.wait(t).applied_index_at_least(ap, "").await.is_err() {
                return Some("applied");
            }
            if raft.wait(t).vote(m.vote, "").await.is_err() {
                return Some("vote");
            }
            if let Some(l) = m.current_leader {
                if raft.wait(t).current_leader(l, "").await.is_err() {
                    return Some("leader");
                }
            }
            if raft.wait(t).voter_ids(m.membership_config.membership().voter_ids(), "").await.is_err() {
                return Some("voters");
            }
            if raft.wait(t).log_index_at_least(m.last_log_index, "").await.is_err() {
                return Some("log");
            }
            let t0 = rt::now_us();
            match raft.wait(t).applied_index_at_least(Some(ap.unwrap_or(0) + 1000), "").await {
                Ok(_) => return Some("applied too early"),
                Err(_) => {
                    let dt = rt::now_us() - t0;
                    if !(490_000..2_000_000).contains(&dt) {
                        return Some("timeout");
                    }
                }
            }
            None
        }
        .await;
        let _ = tx.send(r);
    });
    match rx.await {
        Ok(x) => x,
        Err(_) => Some("gone"),
    }
}

pub async fn change_and_wait(n: u64, c: ChangeMembers<C>) -> bool {
    let Some(raft) = raft_of(n) else { return false };
    let op = op_id();
    emit("ci", json!({"n": n, "o": op, "c": change_json(&c, true)}));
    let (tx, rx) = tokio::sync::oneshot::channel();
    rt::spawn_as(label_of(n), async move {
        let r = tokio::select! {
            r = raft.change_membership(c, true) => r.is_ok(),
            _ = rt::sleep_ms(4000) => false,
        };
        let _ = tx.send(r);
    });
    rx.await.unwrap_or(false)
}

/// Shut node `n` down in order. What went wrong, if anything.
pub async fn shutdown_node(n: u64) -> Option<&'static str> {
    let raft = raft_of(n)?;
    let (tx, rx) = tokio::sync::oneshot::channel();
    emit("sd", json!({"n": n}));
    rt::spawn_as(label_of(n), async move {
        let r = async {
            tokio::select! {
                r = raft.shutdown() => if r.is_err() { return Some("shutdown failed") },
                _ = rt::sleep_ms(5000) => return Some("shutdown does not return"),
            }
            emit("down", json!({"n": n}));
            match &raft.metrics().borrow_watched().running_state {
                Err(Fatal::Stopped) => {}
                _ => return Some("metrics do not show it"),
            }
            let x = async {
                if !matches!(raft.client_write(Req { id: 0 }).await, Err(RaftError::Fatal(Fatal::Stopped))) {
                    return Some("write");
                }
                if !matches!(raft.ensure_linearizable().await, Err(RaftError::Fatal(Fatal::Stopped))) {
                    return Some("read");
                }
                if !matches!(raft.with_raft_state(|_| ()).await, Err(Fatal::Stopped)) {
                    return Some("state");
                }
                if raft.shutdown().await.is_err() {
                    return Some("second shutdown");
                }
                None
            };
            tokio::select! {
                r = x => r,
                _ = rt::sleep_ms(3000) => Some("call does not return"),
            }
        }
        .await;
        let _ = tx.send(r);
    });
    match rx.await {
        Ok(x) => x,
        Err(_) => Some("gone"),
    }
}

pub async fn probe(n: u64) -> Option<Value> {
    let raft = raft_of(n)?;
    let (tx, rx) = tokio::sync::oneshot::channel();
    rt::spawn_as(label_of(n), async move {
        let r = raft.with_raft_state(probe_json).await;
        let _ = tx.send(r.ok());
    });
    rx.await.ok().flatten()
}

pub fn metrics_of(n: u64) -> Option<openraft::RaftMetrics<C>> {
    let raft = raft_of(n)?;
    let rx = raft.metrics();
    let m = rx.borrow_watched().clone();
    Some(m)
}

/// The nodes that believe they lead, by their metrics.
pub fn leaders() -> Vec<u64> {
    ups().into_iter()
        .filter(|n| metrics_of(*n).map(|m| m.state == ServerState::Leader).unwrap_or(false))
        .collect()
}
/// The believed leader with the greatest vote.
pub fn top_leader() -> Option<u64> {
    let mut best: Option<(V, u64)> = None;
    for n in leaders() {
        let v = metrics_of(n).unwrap().vote;
        if best.map(|(b, _)| v > b).unwrap_or(true) {
            best = Some((v, n));
        }
    }
    best.map(|x| x.1)
}

pub fn cut_link(a: u64, b: u64, both: bool) {
    w(|x| {
        x.cut.insert((a, b));
        if both {
            x.cut.insert((b, a));
        }
    })
}
pub fn heal() {
    w(|x| x.cut.clear())
}
