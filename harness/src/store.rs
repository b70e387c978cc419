//! In-memory log store and state machine with an explicit durability model.
//!
//! `cur` is what a reader sees at once; `dur` is what survives a crash. Writes go through one FIFO (the WAL), as the
//! `RaftLogStorage` contract demands: a later write never becomes durable before an earlier one. A crash keeps some
//! prefix of the writes still in the FIFO. `save_vote` returns only once it is durable; `append` calls its callback
//! once durable. The state machine is either persistent (durable at the end of every `apply`) or volatile (rebuilt
//! from the last snapshot).

use std::collections::BTreeMap;
use std::collections::VecDeque;
use std::fmt::Debug;
use std::io::Cursor;
use std::ops::RangeBounds;
use std::sync::Arc;
use std::sync::Mutex;

use openraft::storage::IOFlushed;
use openraft::storage::LogState;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftStateMachine;
use openraft::EntryPayload;
use openraft::OptionalSend;
use openraft::RaftLogReader;
use openraft::RaftSnapshotBuilder;
use openraft::Snapshot;
use openraft::SnapshotMeta;
use openraft::StorageError;
use openraft::StoredMembership;
use serde::Deserialize;
use serde::Serialize;
use serde_json::json;

use crate::rt;
use crate::types::*;

#[derive(Clone, Debug)]
pub struct StoreCfg {
    /// Delay of one flush, microseconds.
    pub flush_us: (u64, u64),
    pub apply_us: (u64, u64),
    pub read_us: (u64, u64),
    pub snap_us: (u64, u64),
    /// truncate/purge/save_committed return only once durable.
    pub sync_meta: bool,
    /// The state machine persists on every apply.
    pub sm_persistent: bool,
    /// save_committed/read_committed are implemented.
    pub save_committed: bool,
    /// limited_get_log_entries returns at most this many entries (0: no limit).
    pub read_limit: u64,
}

#[derive(Clone, Debug, Default)]
pub struct LogData {
    pub vote: Option<V>,
    pub committed: Option<LId>,
    pub purged: Option<LId>,
    pub entries: BTreeMap<u64, Ent>,
}

impl LogData {
    pub fn last(&self) -> Option<LId> {
        self.entries.iter().next_back().map(|(_, e)| e.log_id).or(self.purged)
    }
    fn exec(&mut self, op: &Op) {
        match op {
            Op::Append(es) => {
                for e in es {
                    self.entries.insert(e.log_id.index, e.clone());
                }
            }
            Op::Truncate(at) => {
                self.entries.split_off(at);
            }
            Op::Purge(l) => {
                self.entries = self.entries.split_off(&(l.index + 1));
                self.purged = Some(*l);
            }
            Op::Vote(v) => self.vote = Some(*v),
            Op::Committed(c) => self.committed = *c,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Append(Vec<Ent>),
    Truncate(u64),
    Purge(LId),
    Vote(V),
    Committed(Option<LId>),
}

struct WalOp {
    op: Op,
    cb: Option<IOFlushed<C>>,
    done: Option<tokio::sync::oneshot::Sender<bool>>,
}

#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct SmState {
    pub last_applied: Option<LId>,
    pub membership: StoredMembership<C>,
    /// Ids of the requests applied, in order.
    pub ids: Vec<u64>,
}

#[derive(Clone)]
pub struct SnapFile {
    pub meta: SnapshotMeta<C>,
    pub data: Vec<u8>,
}

#[derive(Default)]
pub struct Disk {
    pub id: u64,
    pub cur: LogData,
    pub dur: LogData,
    wal: VecDeque<WalOp>,
    /// The state machine in memory.
    pub sm: SmState,
    /// What a restart finds of the state machine (persistent variant).
    pub dsm: SmState,
    pub snap: Option<SnapFile>,
    pub snap_seq: u64,
    /// Fault plan: kind -> number of calls until the one that fails.
    pub fail: BTreeMap<&'static str, u64>,
    pub failed: bool,
    /// A flush failed: nothing becomes durable any more until the restart.
    pub dead: bool,
    /// Flushing is held back (lockstep mode).
    pub hold_flush: bool,
    pub notify: Arc<tokio::sync::Notify>,
}

pub type SharedDisk = Arc<Mutex<Disk>>;

pub fn new_disk(id: u64) -> SharedDisk {
    Arc::new(Mutex::new(Disk {
        id,
        ..Default::default()
    }))
}

/// The process died: keep a random prefix of the unflushed writes, forget everything volatile.
/// Returns the number of unflushed writes that survived.
/// Lose the writes that are not durable, but for some of the first. With `own`, what a leader has submitted survives if the
/// node would restart as that leader.
pub fn crash_disk(disk: &SharedDisk, cfg: &StoreCfg, keep_max: Option<u64>, own: Option<u64>) -> u64 {
    let mut g = disk.lock().unwrap();
    let d = &mut *g;
    let n = d.wal.len() as u64;
    let keep = match keep_max {
        Some(k) => k.min(n),
        None => {
            if n == 0 {
                0
            } else {
                rt::rnd(0, n)
            }
        }
    };
    let keep = match own {
        Some(id) => {
            let mut probe = d.dur.clone();
            let mut k = 0;
            for w in d.wal.iter() {
                if k >= keep && !probe.vote.map(|v| v.committed && v.leader_id().voted_for() == Some(id)).unwrap_or(false) {
                    break;
                }
                probe.exec(&w.op);
                k += 1;
            }
            k
        }
        None => keep,
    };
    for _ in 0..keep {
        let w = d.wal.pop_front().unwrap();
        d.dur.exec(&w.op);
    }
    d.wal.clear();
    d.cur = d.dur.clone();
    d.sm = if cfg.sm_persistent {
        d.dsm.clone()
    } else {
        match &d.snap {
            Some(s) => serde_json::from_slice(&s.data).unwrap(),
            None => SmState::default(),
        }
    };
    d.fail.clear();
    d.failed = false;
    d.dead = false;
    keep
}

fn io_err(what: &str) -> std::io::Error {
    std::io::Error::new(std::io::ErrorKind::Other, format!("injected {}", what))
}

/// Whether the fault plan makes this call fail.
fn hit(disk: &SharedDisk, kind: &'static str) -> bool {
    let mut d = disk.lock().unwrap();
    let id = d.id;
    let Some(n) = d.fail.get_mut(kind) else {
        return false;
    };
    if *n > 0 {
        *n -= 1;
        return false;
    }
    d.fail.remove(kind);
    d.failed = true;
    drop(d);
    emit("fault", json!({"n": id, "k": kind}));
    true
}

#[derive(Clone)]
pub struct LogStore {
    pub disk: SharedDisk,
    pub cfg: StoreCfg,
}

impl LogStore {
    fn id(&self) -> u64 {
        self.disk.lock().unwrap().id
    }
    fn push(&self, op: Op, cb: Option<IOFlushed<C>>) -> tokio::sync::oneshot::Receiver<bool> {
        let (tx, rx) = tokio::sync::oneshot::channel();
        let mut d = self.disk.lock().unwrap();
        d.cur.exec(&op);
        d.wal.push_back(WalOp {
            op,
            cb,
            done: Some(tx),
        });
        d.notify.notify_one();
        rx
    }

    /// The disk: makes the oldest writes durable, in order, after a delay.
    pub async fn flusher(self) {
        let notify = self.disk.lock().unwrap().notify.clone();
        loop {
            let (empty, hold) = {
                let d = self.disk.lock().unwrap();
                (d.wal.is_empty() || d.dead, d.hold_flush)
            };
            if empty || hold {
                notify.notified().await;
                continue;
            }
            rt::sleep_rnd_us(self.cfg.flush_us.0, self.cfg.flush_us.1).await;
            let n = {
                let d = self.disk.lock().unwrap();
                let n = d.wal.len() as u64;
                if n == 0 || d.hold_flush {
                    continue;
                }
                n
            };
            let k = rt::rnd(1, n);
            self.flush(k);
        }
    }

    /// Make the oldest `k` writes durable now.
    pub fn flush(&self, k: u64) {
        let (id, done, fails) = {
            let mut d = self.disk.lock().unwrap();
            let mut done = vec![];
            if d.dead {
                return;
            }
            for _ in 0..k {
                let Some(w) = d.wal.pop_front() else { break };
                done.push(w);
            }
            (d.id, done, d.fail.contains_key("flush"))
        };
        let mut done = VecDeque::from(done);
        while let Some(mut w) = done.pop_front() {
            if fails && w.cb.is_some() && hit(&self.disk, "flush") {
                // The disk is broken: this write and all behind it never complete.
                let cb = w.cb.take();
                {
                    let mut d = self.disk.lock().unwrap();
                    d.dead = true;
                    while let Some(x) = done.pop_back() {
                        d.wal.push_front(x);
                    }
                    d.wal.push_front(w);
                }
                if let Some(cb) = cb {
                    cb.io_completed(Err(io_err("flush")));
                }
                return;
            }
            self.disk.lock().unwrap().dur.exec(&w.op);
            emit("fl", json!({"n": id}));
            if let Some(cb) = w.cb {
                cb.io_completed(Ok(()));
            }
            if let Some(tx) = w.done {
                let _ = tx.send(true);
            }
        }
    }

    pub fn flush_all(&self) {
        self.flush(u64::MAX);
    }
}

impl RaftLogReader<C> for LogStore {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Ent>, StorageError<C>> {
        rt::sleep_rnd_us(self.cfg.read_us.0, self.cfg.read_us.1).await;
        if hit(&self.disk, "read") {
            return Err(StorageError::read_logs(&io_err("read")));
        }
        let d = self.disk.lock().unwrap();
        Ok(d.cur.entries.range(range).map(|(_, e)| e.clone()).collect())
    }

    async fn read_vote(&mut self) -> Result<Option<V>, StorageError<C>> {
        Ok(self.disk.lock().unwrap().cur.vote)
    }

    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Ent>, StorageError<C>> {
        let end = if self.cfg.read_limit > 0 {
            end.min(start + self.cfg.read_limit)
        } else {
            end
        };
        self.try_get_log_entries(start..end).await
    }
}

impl RaftLogStorage<C> for LogStore {
    type LogReader = LogStore;

    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError<C>> {
        let d = self.disk.lock().unwrap();
        Ok(LogState {
            last_purged_log_id: d.cur.purged,
            last_log_id: d.cur.last(),
        })
    }

    async fn get_log_reader(&mut self) -> LogStore {
        self.clone()
    }

    async fn save_vote(&mut self, vote: &V) -> Result<(), StorageError<C>> {
        if hit(&self.disk, "vote") {
            return Err(StorageError::write_vote(&io_err("vote")));
        }
        emit("vt", json!({"n": self.id(), "v": jvote(vote)}));
        let rx = self.push(Op::Vote(*vote), None);
        match rx.await {
            Ok(_) => Ok(()),
            Err(_) => Err(StorageError::write_vote(&io_err("vote"))),
        }
    }

    async fn save_committed(&mut self, committed: Option<LId>) -> Result<(), StorageError<C>> {
        if hit(&self.disk, "savec") {
            return Err(StorageError::write(&io_err("savec")));
        }
        if !self.cfg.save_committed {
            return Ok(());
        }
        emit("sc", json!({"n": self.id(), "c": jolid(&committed)}));
        let rx = self.push(Op::Committed(committed), None);
        if self.cfg.sync_meta {
            let _ = rx.await;
        }
        Ok(())
    }

    async fn read_committed(&mut self) -> Result<Option<LId>, StorageError<C>> {
        Ok(self.disk.lock().unwrap().cur.committed)
    }

    async fn append<I>(&mut self, entries: I, callback: IOFlushed<C>) -> Result<(), StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let es: Vec<Ent> = entries.into_iter().collect();
        if hit(&self.disk, "append") {
            return Err(StorageError::write_logs(&io_err("append")));
        }
        emit("app", json!({"n": self.id(), "es": jents(&es)}));
        let _ = self.push(Op::Append(es), Some(callback));
        Ok(())
    }

    async fn truncate(&mut self, log_id: LId) -> Result<(), StorageError<C>> {
        if hit(&self.disk, "truncate") {
            return Err(StorageError::write_logs(&io_err("truncate")));
        }
        emit("tr", json!({"n": self.id(), "at": jlid(&log_id)}));
        let rx = self.push(Op::Truncate(log_id.index), None);
        if self.cfg.sync_meta {
            let _ = rx.await;
        }
        Ok(())
    }

    async fn purge(&mut self, log_id: LId) -> Result<(), StorageError<C>> {
        if hit(&self.disk, "purge") {
            return Err(StorageError::write_logs(&io_err("purge")));
        }
        emit("pg", json!({"n": self.id(), "at": jlid(&log_id)}));
        let rx = self.push(Op::Purge(log_id), None);
        if self.cfg.sync_meta {
            let _ = rx.await;
        }
        Ok(())
    }
}

#[derive(Clone)]
pub struct Sm {
    pub disk: SharedDisk,
    pub cfg: StoreCfg,
}

pub struct SnapBuilder {
    disk: SharedDisk,
    cfg: StoreCfg,
    state: SmState,
}

pub fn snap_json(m: &SnapshotMeta<C>, data: &[u8]) -> serde_json::Value {
    match serde_json::from_slice::<SmState>(data) {
        Ok(s) => json!({
            "last": jolid(&m.last_log_id),
            "ml": jolid(m.last_membership.log_id()),
            "m": jmem(m.last_membership.membership()),
            "ok": 1,
            "clast": jolid(&s.last_applied),
            "ids": s.ids,
        }),
        Err(_) => json!({
            "last": jolid(&m.last_log_id),
            "ml": jolid(m.last_membership.log_id()),
            "m": jmem(m.last_membership.membership()),
            "ok": 0,
            "clast": [],
            "ids": [],
        }),
    }
}

impl RaftSnapshotBuilder<C> for SnapBuilder {
    async fn build_snapshot(&mut self) -> Result<Snapshot<C>, StorageError<C>> {
        rt::sleep_rnd_us(self.cfg.snap_us.0, self.cfg.snap_us.1).await;
        if hit(&self.disk, "snapbuild") {
            return Err(StorageError::write_snapshot(None, &io_err("snapbuild")));
        }
        let data = serde_json::to_vec(&self.state).unwrap();
        let mut d = self.disk.lock().unwrap();
        d.snap_seq += 1;
        let meta = SnapshotMeta {
            last_log_id: self.state.last_applied,
            last_membership: self.state.membership.clone(),
            snapshot_id: format!(
                "s{}-{}-{}",
                d.id,
                self.state.last_applied.map(|x| x.index).unwrap_or(0),
                d.snap_seq
            ),
        };
        let newer = match &d.snap {
            Some(s) => meta.last_log_id >= s.meta.last_log_id,
            None => true,
        };
        let file = SnapFile {
            meta: meta.clone(),
            data: data.clone(),
        };
        if newer {
            d.snap = Some(file);
            emit("sb", json!({"n": d.id, "s": snap_json(&meta, &data)}));
        }
        Ok(Snapshot {
            meta,
            snapshot: Box::new(Cursor::new(data)),
        })
    }
}

impl RaftStateMachine<C> for Sm {
    type SnapshotBuilder = SnapBuilder;

    async fn applied_state(&mut self) -> Result<(Option<LId>, StoredMembership<C>), StorageError<C>> {
        let d = self.disk.lock().unwrap();
        Ok((d.sm.last_applied, d.sm.membership.clone()))
    }

    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let es: Vec<Ent> = entries.into_iter().collect();
        rt::sleep_rnd_us(self.cfg.apply_us.0, self.cfg.apply_us.1).await;
        if hit(&self.disk, "apply") {
            return Err(StorageError::write_state_machine(&io_err("apply")));
        }
        let mut d = self.disk.lock().unwrap();
        emit("ap", json!({"n": d.id, "es": jents(&es)}));
        let mut res = vec![];
        for e in es {
            d.sm.last_applied = Some(e.log_id);
            let mut r = Resp {
                id: 0,
                pos: 0,
                index: e.log_id.index,
            };
            match &e.payload {
                EntryPayload::Blank => {}
                EntryPayload::Normal(q) => {
                    d.sm.ids.push(q.id);
                    r.id = q.id;
                    r.pos = d.sm.ids.len() as u64;
                }
                EntryPayload::Membership(m) => {
                    d.sm.membership = StoredMembership::new(Some(e.log_id), m.clone());
                }
            }
            res.push(r);
        }
        if self.cfg.sm_persistent {
            d.dsm = d.sm.clone();
        }
        Ok(res)
    }

    async fn get_snapshot_builder(&mut self) -> SnapBuilder {
        let d = self.disk.lock().unwrap();
        emit("sg", json!({"n": d.id, "at": jolid(&d.sm.last_applied)}));
        SnapBuilder {
            disk: self.disk.clone(),
            cfg: self.cfg.clone(),
            state: d.sm.clone(),
        }
    }

    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError<C>> {
        if hit(&self.disk, "snapbegin") {
            return Err(StorageError::write_snapshot(None, &io_err("snapbegin")));
        }
        Ok(Box::new(Cursor::new(vec![])))
    }

    async fn install_snapshot(
        &mut self,
        meta: &SnapshotMeta<C>,
        snapshot: Box<Cursor<Vec<u8>>>,
    ) -> Result<(), StorageError<C>> {
        rt::sleep_rnd_us(self.cfg.snap_us.0, self.cfg.snap_us.1).await;
        if hit(&self.disk, "snapinstall") {
            return Err(StorageError::write_snapshot(None, &io_err("snapinstall")));
        }
        let data = snapshot.into_inner();
        let mut d = self.disk.lock().unwrap();
        emit("si", json!({"n": d.id, "s": snap_json(meta, &data)}));
        if let Ok(mut s) = serde_json::from_slice::<SmState>(&data) {
            // The state machine is what the snapshot says, under the metadata it came with.
            s.last_applied = meta.last_log_id;
            s.membership = meta.last_membership.clone();
            d.sm = s;
        }
        d.dsm = d.sm.clone();
        let data = serde_json::to_vec(&d.sm).unwrap();
        d.snap = Some(SnapFile {
            meta: meta.clone(),
            data,
        });
        Ok(())
    }

    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<C>>, StorageError<C>> {
        if hit(&self.disk, "snapread") {
            return Err(StorageError::read_snapshot(None, &io_err("snapread")));
        }
        let d = self.disk.lock().unwrap();
        Ok(d.snap.as_ref().map(|s| Snapshot {
            meta: s.meta.clone(),
            snapshot: Box::new(Cursor::new(s.data.clone())),
        }))
    }
}
