//! The type config the simulated cluster runs with, and the JSON encoding of what is observed.

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::Cursor;

use openraft::impls::OneshotResponder;
use openraft::BasicNode;
use openraft::Entry;
use openraft::EntryPayload;
use openraft::LogId;
use openraft::Membership;
use openraft::Vote;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;
use serde_json::Value;

use crate::rt;
use crate::rt::SimRt;

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Req {
    pub id: u64,
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Resp {
    /// The request this is the result of; 0 for a blank or membership entry.
    pub id: u64,
    /// Number of requests applied so far, this one included.
    pub pos: u64,
    /// Index of the entry as seen by the state machine.
    pub index: u64,
}

#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct C;

impl openraft::RaftTypeConfig for C {
    type D = Req;
    type R = Resp;
    type NodeId = u64;
    type Node = BasicNode;
    type Entry = Entry<C>;
    type SnapshotData = Cursor<Vec<u8>>;
    type AsyncRuntime = SimRt;
    type Responder = OneshotResponder<C>;
}

pub type LId = LogId<u64>;
pub type V = Vote<u64>;
pub type Ent = Entry<C>;
pub type Raft = openraft::Raft<C>;
pub type SErr = openraft::StorageError<C>;

pub fn jvote(v: &V) -> Value {
    #[cfg(not(feature = "single-term-leader"))]
    let n = v.leader_id().node_id;
    #[cfg(feature = "single-term-leader")]
    let n = v.leader_id().voted_for().unwrap_or(0);
    json!([v.leader_id().term, n, v.is_committed() as u64])
}
pub fn jovote(v: &Option<V>) -> Value {
    match v {
        Some(v) => jvote(v),
        None => json!([0, 0, 0]),
    }
}
pub fn jlid(l: &LId) -> Value {
    #[cfg(not(feature = "single-term-leader"))]
    let n = l.leader_id.node_id;
    #[cfg(feature = "single-term-leader")]
    let n = 0;
    json!([l.leader_id.term, n, l.index])
}
pub fn jolid(l: &Option<LId>) -> Value {
    match l {
        Some(l) => jlid(l),
        None => json!([]),
    }
}
pub fn jmem(m: &Membership<C>) -> Value {
    let v: Vec<Vec<u64>> = m.get_joint_config().iter().map(|c| c.iter().copied().collect()).collect();
    let n: Vec<(u64, u64)> = m.nodes().map(|(i, n)| (*i, n.addr.parse::<u64>().unwrap_or(0))).collect();
    json!([v, n])
}
pub fn jent(e: &Ent) -> Value {
    match &e.payload {
        EntryPayload::Blank => json!({"i": jlid(&e.log_id), "k": "b", "d": 0, "m": []}),
        EntryPayload::Normal(r) => json!({"i": jlid(&e.log_id), "k": "n", "d": r.id, "m": []}),
        EntryPayload::Membership(m) => json!({"i": jlid(&e.log_id), "k": "m", "d": 0, "m": jmem(m)}),
    }
}
pub fn jents<'a>(es: impl IntoIterator<Item = &'a Ent>) -> Value {
    Value::Array(es.into_iter().map(jent).collect())
}
pub fn node(id: u64) -> BasicNode {
    BasicNode {
        addr: (id * 100).to_string(),
    }
}
pub fn nodes(ids: &[u64]) -> BTreeMap<u64, BasicNode> {
    ids.iter().map(|i| (*i, node(*i))).collect()
}

thread_local! {
    static TRACE: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static TRACE_ON: RefCell<bool> = const { RefCell::new(true) };
}

/// Append one event to the trace. `v` is a JSON object; its kind is `e`, time (us) is added as `t`.
pub fn emit(kind: &str, mut v: Value) {
    if !TRACE_ON.with(|t| *t.borrow()) {
        return;
    }
    let o = v.as_object_mut().unwrap();
    o.insert("e".into(), json!(kind));
    o.insert("t".into(), json!(rt::now_us()));
    let line = serde_json::to_string(&v).unwrap();
    TRACE.with(|t| t.borrow_mut().push(line));
}
pub fn trace_on(on: bool) {
    TRACE_ON.with(|t| *t.borrow_mut() = on);
}
pub fn take_trace() -> Vec<String> {
    TRACE.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
pub fn trace_len() -> usize {
    TRACE.with(|t| t.borrow().len())
}
