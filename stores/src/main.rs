//! orstore sim KIND FIRST COUNT OUT     runs with the seeds FIRST.. on a store, recorded to OUT.0.ndjson
//! orstore life KIND SEED N DIR         (for the above) the N-th life of a process that uses the store in DIR
mod kind;
mod sys;

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::fs::File;
use std::future::Future;
use std::io::Cursor;
use std::io::Write;
use std::os::fd::AsRawFd;
use std::path::Path;
use std::pin::Pin;
use std::sync::atomic::AtomicU64;
use std::sync::atomic::Ordering::SeqCst;
use std::task::Poll;

use kind::*;
use openraft::storage::RaftLogStorage;
use openraft::storage::RaftLogStorageExt;
use openraft::storage::RaftStateMachine;
use openraft::storage::Snapshot;
use openraft::storage::SnapshotMeta;
use openraft::CommittedLeaderId;
use openraft::Entry;
use openraft::EntryPayload;
use openraft::LogId;
use openraft::Membership;
use openraft::RaftLogReader;
use openraft::RaftSnapshotBuilder;
use openraft::StoredMembership;
use openraft::Vote;
use rand::rngs::SmallRng;
use rand::Rng;
use rand::SeedableRng;
use serde_json::json;
use serde_json::Value;

/// Where the log starts: indexes are told from there.
static OFF: AtomicU64 = AtomicU64::new(0);
fn off() -> u64 {
    OFF.load(SeqCst)
}
/// How much sled collects before it writes: the less, the more can come to an end in between.
fn segment() -> usize {
    SEGMENT.load(SeqCst) as usize
}
static SEGMENT: AtomicU64 = AtomicU64::new(0);
fn ix(x: &LogId<u64>) -> u64 {
    x.index - off()
}
fn num(s: &str) -> i64 {
    s[1..].parse().unwrap_or(-2)
}
fn lid(x: &LogId<u64>) -> Value {
    json!([x.leader_id.term, x.leader_id.node_id, ix(x)])
}
fn olid(x: &Option<LogId<u64>>) -> Value {
    x.as_ref().map(lid).unwrap_or(json!([]))
}
fn mem<K: Kind>(m: &Membership<K::C>) -> Value {
    json!([m.get_joint_config().iter().map(|c| c.iter().collect::<Vec<_>>()).collect::<Vec<_>>(), m.nodes().map(|x| x.0).collect::<Vec<_>>()])
}
fn smem<K: Kind>(m: &StoredMembership<K::C>) -> Value {
    json!([olid(m.log_id()), mem::<K>(m.membership())])
}
fn entry<K: Kind>(e: &Entry<K::C>) -> Value {
    let none = json!([[], []]);
    match &e.payload {
        EntryPayload::Blank => json!({"id": lid(&e.log_id), "k": "b", "x": 0, "y": 0, "m": none}),
        EntryPayload::Normal(d) => {
            let (k, v) = K::undata(d);
            json!({"id": lid(&e.log_id), "k": "n", "x": num(&k), "y": num(&v), "m": none})
        }
        EntryPayload::Membership(m) => json!({"id": lid(&e.log_id), "k": "m", "x": 0, "y": 0, "m": mem::<K>(m)}),
    }
}
fn kv(m: &BTreeMap<String, String>) -> Value {
    json!(m.iter().map(|(k, v)| json!([num(k), num(v)])).collect::<Vec<_>>())
}
fn snap<K: Kind>(meta: &SnapshotMeta<K::C>, data: &[u8]) -> Value {
    let s = K::snap(data);
    json!({"last": olid(&meta.last_log_id), "mem": smem::<K>(&meta.last_membership), "ap": olid(&s.ap), "dmem": smem::<K>(&s.mem), "kv": kv(&s.kv)})
}

struct Life<K: Kind> {
    out: i64,
    hist: std::path::PathBuf,
    dir: std::path::PathBuf,
    rng: SmallRng,
    l: K::L,
    m: K::M,
    reader: <K::L as RaftLogStorage<K::C>>::LogReader,
    builder: Option<<K::M as RaftStateMachine<K::C>>::SnapshotBuilder>,
    /// A snapshot that is being built while other things go on.
    building: Option<Pin<Box<dyn Future<Output = Snapshot<K::C>>>>>,
    term: u64,
}

impl<K: Kind> Life<K> {
    fn emit(&self, e: &str, mut v: Value) {
        v["e"] = json!(e);
        sys::put(self.out, &format!("{}\n", v));
    }
    /// A change begins. It is recorded before the store is called.
    fn begin(&self, o: &str, mut v: Value) {
        v["o"] = json!(o);
        self.emit("b", v);
    }
    fn done(&self, v: Value) {
        self.emit("d", v);
    }
    async fn dump(&mut self, e: &str) {
        let st = self.l.get_log_state().await.unwrap();
        let mut r = self.l.get_log_reader().await;
        let log = r.try_get_log_entries(..).await.unwrap();
        let v = r.read_vote().await.unwrap();
        let (ap, am) = self.m.applied_state().await.unwrap();
        let sn = self.m.get_current_snapshot().await.unwrap();
        let sn = sn.map(|s| json!([snap::<K>(&s.meta, s.snapshot.get_ref())])).unwrap_or(json!([]));
        let d = K::kv(&self.m).await;
        let cm = self.l.read_committed().await.unwrap();
        self.emit(
            e,
            json!({
                "v": v.map(|v| json!([v.leader_id.term, v.leader_id.node_id, v.committed as u64])).unwrap_or(json!([])),
                "last": olid(&st.last_log_id), "pu": olid(&st.last_purged_log_id), "cm": olid(&cm),
                "log": log.iter().map(entry::<K>).collect::<Vec<_>>(), "ap": olid(&ap), "mem": smem::<K>(&am), "sn": sn,
                "kv": d.as_ref().map(|d| json!([kv(d)])).unwrap_or(json!([])),
            }),
        );
    }
    fn entry_at(&mut self, i: u64, term: u64) -> Entry<K::C> {
        let log_id = LogId::new(CommittedLeaderId::new(term, term % 3 + 1), i + off());
        let payload = match self.rng.gen_range(0..10) {
            0 => EntryPayload::Blank,
            1 | 2 => {
                let c = |r: &mut SmallRng| (1..=4u64).filter(|_| r.gen_bool(0.6)).chain([5]).collect::<BTreeSet<u64>>();
                let mut cs = vec![c(&mut self.rng)];
                if self.rng.gen_bool(0.4) {
                    cs.push(c(&mut self.rng));
                }
                let nodes = (1..=6u64).map(|i| (i, K::N::default())).collect::<BTreeMap<_, _>>();
                EntryPayload::Membership(Membership::new(cs, nodes))
            }
            _ => EntryPayload::Normal(K::data(&format!("k{}", self.rng.gen_range(1..=5)), &format!("v{}", self.rng.gen_range(0..1000)))),
        };
        Entry { log_id, payload }
    }
    /// What was applied or installed so far, to make snapshots of: kept aside, over all lives.
    fn history(&self) -> Vec<Entry<K::C>> {
        let mut res: Vec<Entry<K::C>> = vec![];
        for l in std::fs::read_to_string(&self.hist).unwrap_or_default().lines() {
            let e: Entry<K::C> = from_line::<K>(l);
            if ix(&e.log_id) as usize == res.len() {
                res.push(e);
            }
        }
        res
    }
    fn add_history(&self, es: &[Entry<K::C>]) {
        let mut f = File::options().create(true).append(true).open(&self.hist).unwrap();
        let s = es.iter().map(|e| format!("{}\n", entry::<K>(e))).collect::<String>();
        sys::put(f.as_raw_fd() as i64, &s);
        let _ = f.flush();
    }
    async fn applied(&mut self) -> Option<LogId<u64>> {
        self.m.applied_state().await.unwrap().0
    }

    async fn op(&mut self) {
        let st = self.l.get_log_state().await.unwrap();
        let ap = self.applied().await;
        let last = st.last_log_id.map(|x| ix(&x) + 1).unwrap_or(0);
        let apn = ap.map(|x| ix(&x) + 1).unwrap_or(0);
        if self.building.is_some() && self.rng.gen_bool(0.3) {
            let polls = if self.rng.gen_bool(0.5) { 1 } else { u32::MAX };
            self.built(polls).await;
        }
        match self.rng.gen_range(0..100) {
            0..=9 => {
                let v = self.l.get_log_reader().await.read_vote().await.unwrap();
                let t = v.map(|v| v.leader_id.term).unwrap_or(0).max(self.term);
                let t = t + self.rng.gen_range(0..3);
                let mut w = Vote::new(t, self.rng.gen_range(1..4));
                w.committed = self.rng.gen_bool(0.5);
                if v.map(|v| v.partial_cmp(&w) == Some(std::cmp::Ordering::Greater)).unwrap_or(false) {
                    return;
                }
                self.term = t;
                self.begin("vote", json!({"v": [t, w.leader_id.node_id, w.committed as u64]}));
                self.l.save_vote(&w).await.unwrap();
                self.done(json!({}));
            }
            10..=34 => {
                // The log continues the last log or what was applied, whichever is more.
                let from = last;
                if last < apn {
                    return;
                }
                let lt = st.last_log_id.map(|x| x.leader_id.term).unwrap_or(1).max(self.term);
                let n = self.rng.gen_range(1..6u64);
                let mut es = vec![];
                let mut t = lt;
                for i in 0..n {
                    if self.rng.gen_bool(0.15) {
                        t += 1;
                    }
                    es.push(self.entry_at(from + i, t));
                }
                self.term = t;
                self.begin("append", json!({"es": es.iter().map(entry::<K>).collect::<Vec<_>>()}));
                self.l.blocking_append(es).await.unwrap();
                self.done(json!({}));
            }
            35..=44 => {
                let lo = apn.max(st.last_purged_log_id.map(|x| ix(&x) + 1).unwrap_or(0));
                if last <= lo {
                    return;
                }
                let at = self.rng.gen_range(lo..last);
                let es = self.l.get_log_reader().await.try_get_log_entries(at + off()..at + 1 + off()).await.unwrap();
                let Some(e) = es.first() else { return self.emit("odd", json!({"why": "an entry of the log can not be read", "at": at})) };
                let id = e.log_id;
                self.term += 1;
                self.begin("trunc", json!({"at": lid(&id)}));
                self.l.truncate(id).await.unwrap();
                self.done(json!({}));
            }
            45..=62 => {
                if last <= apn {
                    return;
                }
                let to = self.rng.gen_range(apn + 1..=last);
                let es = self.l.get_log_reader().await.try_get_log_entries(apn + off()..to + off()).await.unwrap();
                if self.rng.gen_bool(0.4) {
                    let c = es.last().map(|e| e.log_id);
                    self.begin("commit", json!({"cm": olid(&c)}));
                    self.l.save_committed(c).await.unwrap();
                    self.done(json!({}));
                }
                self.add_history(&es);
                self.begin("apply", json!({"es": es.iter().map(entry::<K>).collect::<Vec<_>>()}));
                let r = self.m.apply(es).await.unwrap();
                self.done(json!({"res": r.iter().map(|r| K::res(r).map(|x| num(&x)).unwrap_or(-1)).collect::<Vec<_>>()}));
            }
            63..=67 => {
                self.builder = Some(self.m.get_snapshot_builder().await);
                self.emit("gb", json!({}));
            }
            68..=73 => {
                if self.building.is_some() {
                    return self.built(u32::MAX).await;
                }
                let mut b = match self.builder.take() {
                    Some(b) => b,
                    None => {
                        let b = self.m.get_snapshot_builder().await;
                        self.emit("gb", json!({}));
                        b
                    }
                };
                self.emit("bb", json!({}));
                self.building = Some(Box::pin(async move { b.build_snapshot().await.unwrap() }));
                let polls = if self.rng.gen_bool(0.6) { self.rng.gen_range(0..3) } else { u32::MAX };
                self.built(polls).await;
            }
            74..=78 => {
                // A snapshot of a leader that is ahead.
                let mut hist = self.history();
                if hist.len() as u64 != apn {
                    return self.emit("odd", json!({"why": "what was applied is not what is applied", "hist": hist.len(), "ap": apn}));
                }
                let x = apn + self.rng.gen_range(1..6u64);
                if last > apn && self.rng.gen_bool(0.3) {
                    // It goes on as the log does.
                    let es = self.l.get_log_reader().await.try_get_log_entries(apn + off()..x.min(last) + off()).await.unwrap();
                    hist.extend(es);
                } else if last > apn {
                    // It does not: the log is discarded.
                    let es = self.l.get_log_reader().await.try_get_log_entries(apn + off()..apn + 1 + off()).await.unwrap();
                    if let Some(e) = es.first() {
                        let id = e.log_id;
                        self.begin("trunc", json!({"at": lid(&id)}));
                        self.l.truncate(id).await.unwrap();
                        self.done(json!({}));
                    }
                    self.term += 1;
                }
                let mut t = hist.last().map(|e| e.log_id.leader_id.term).unwrap_or(1).max(self.term);
                while (hist.len() as u64) < x {
                    if self.rng.gen_bool(0.2) {
                        t += 1;
                    }
                    let e = self.entry_at(hist.len() as u64, t);
                    hist.push(e);
                }
                self.term = t;
                self.add_history(&hist[apn as usize..]);
                // Made by a store of the same kind elsewhere.
                sys::ARMED.store(false, SeqCst);
                let d = self.dir.with_extension("donor");
                let _ = std::fs::remove_dir_all(&d);
                std::fs::create_dir_all(&d).unwrap();
                let (meta, data) = {
                    let (_l, mut m) = K::open(&d).await;
                    m.apply(hist.clone()).await.unwrap();
                    let s = m.get_snapshot_builder().await.build_snapshot().await.unwrap();
                    (s.meta, s.snapshot.into_inner())
                };
                let _ = std::fs::remove_dir_all(&d);
                sys::ARMED.store(true, SeqCst);
                let id = hist.last().unwrap().log_id;
                self.begin("install", json!({"es": hist[apn as usize..].iter().map(entry::<K>).collect::<Vec<_>>(), "sn": snap::<K>(&meta, &data)}));
                let mut w = self.m.begin_receiving_snapshot().await.unwrap();
                *w = Cursor::new(data);
                self.m.install_snapshot(&meta, w).await.unwrap();
                self.done(json!({}));
                if ix(&id) + 1 >= last || self.rng.gen_bool(0.5) {
                    self.purge(id).await;
                }
            }
            79..=86 => {
                let Some(Snapshot { meta, .. }) = self.m.get_current_snapshot().await.unwrap() else { return };
                let Some(to) = meta.last_log_id else { return };
                let lo = st.last_purged_log_id.map(|x| ix(&x) + 1).unwrap_or(0);
                if ix(&to) < lo {
                    return;
                }
                let at = self.rng.gen_range(lo..=ix(&to));
                let es = self.l.get_log_reader().await.try_get_log_entries(at + off()..=at + off()).await.unwrap();
                let id = es.first().map(|e| e.log_id).unwrap_or(to);
                self.purge(id).await;
            }
            87..=95 => {
                let lo = self.rng.gen_range(0..last + 3);
                let hi = self.rng.gen_range(lo..last + 4);
                // With a new reader or with one that was made long ago.
                let mut r = self.l.get_log_reader().await;
                if self.rng.gen_bool(0.5) {
                    std::mem::swap(&mut r, &mut self.reader);
                }
                let o = off();
                let (a, b, es) = match self.rng.gen_range(0..7) {
                    0 => (lo, 1 << 30, r.try_get_log_entries(lo + o..).await),
                    1 => (0, hi, r.try_get_log_entries(..hi + o).await),
                    2 => (0, hi + 1, r.try_get_log_entries(..=hi + o).await),
                    3 => (lo, hi + 1, r.try_get_log_entries(lo + o..=hi + o).await),
                    4 => {
                        use std::ops::Bound::*;
                        (lo + 1, hi + 2, r.try_get_log_entries((Excluded(lo + o), Included(hi + 1 + o))).await)
                    }
                    _ => (lo, hi, r.try_get_log_entries(lo + o..hi + o).await),
                };
                self.emit("rl", json!({"a": a, "b": b, "es": es.unwrap().iter().map(entry::<K>).collect::<Vec<_>>()}));
            }
            _ => self.dump("rs").await,
        }
    }
    /// Go on with the snapshot that is being built, a few steps or to its end.
    async fn built(&mut self, polls: u32) {
        let Some(mut f) = self.building.take() else { return };
        if polls == u32::MAX {
            return self.has(f.await);
        }
        for _ in 0..polls {
            // Some of the budget of the task is used up, so that it has to wait at some lock.
            let burn = self.rng.gen_range(125..128);
            tokio::task::yield_now().await;
            let mut burnt = 0;
            let r = std::future::poll_fn(|cx| {
                while burnt < burn {
                    let c = tokio::task::consume_budget();
                    if std::pin::pin!(c).poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    burnt += 1;
                }
                Poll::Ready(f.as_mut().poll(cx))
            })
            .await;
            if let Poll::Ready(s) = r {
                return self.has(s);
            }
        }
        self.building = Some(f);
    }
    fn has(&self, s: Snapshot<K::C>) {
        self.emit("bd", json!({"sn": snap::<K>(&s.meta, s.snapshot.get_ref())}));
    }
    async fn purge(&mut self, id: LogId<u64>) {
        self.begin("purge", json!({"at": lid(&id)}));
        self.l.purge(id).await.unwrap();
        self.done(json!({}));
    }
}

fn from_line<K: Kind>(l: &str) -> Entry<K::C> {
    let v: Value = serde_json::from_str(l).unwrap();
    let n = |x: &Value| x.as_u64().unwrap();
    let log_id = LogId::new(CommittedLeaderId::new(n(&v["id"][0]), n(&v["id"][1])), n(&v["id"][2]) + off());
    let payload = match v["k"].as_str().unwrap() {
        "b" => EntryPayload::Blank,
        "n" => EntryPayload::Normal(K::data(&format!("k{}", v["x"]), &format!("v{}", v["y"]))),
        _ => {
            let set = |x: &Value| x.as_array().unwrap().iter().map(n).collect::<BTreeSet<_>>();
            let cs = v["m"][0].as_array().unwrap().iter().map(set).collect::<Vec<_>>();
            let nodes = v["m"][1].as_array().unwrap().iter().map(|i| (n(i), K::N::default())).collect::<BTreeMap<_, _>>();
            EntryPayload::Membership(Membership::new(cs, nodes))
        }
    };
    Entry { log_id, payload }
}

fn life<K: Kind>(seed: u64, n: u64, dir: &Path) {
    let file = |x: &str| File::options().create(true).append(true).open(dir.with_extension(x)).unwrap();
    let (out, syncs) = (file("trace"), file("syncs"));
    sys::SYNCS.store(syncs.as_raw_fd() as i64, SeqCst);
    let mut rng = SmallRng::seed_from_u64(seed.wrapping_mul(1000) + n);
    const OFFS: [u64; 7] = [0, 0, 250, 255, 65530, (1 << 32) - 4, (1 << 56) - 5];
    OFF.store(OFFS[seed as usize % OFFS.len()], SeqCst);
    SEGMENT.store([512 << 10, 1024, 1024, 2048][(seed / 7) as usize % 4], SeqCst);
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    // Where this life ends: at a write, or after some operations.
    let crash = K::RES != "prev" && rng.gen_bool(0.85);
    let at = if rng.gen_bool(0.08) { rng.gen_range(1..40) } else { rng.gen_range(1..90) };
    let early = rng.gen_bool(0.06);
    if crash {
        sys::LEFT.store(at, SeqCst);
        sys::ARMED.store(early, SeqCst);
    }
    let ops = rng.gen_range(8..30);
    rt.block_on(async {
        let (mut l, m) = K::open(dir).await;
        let reader = l.get_log_reader().await;
        let mut x: Life<K> = Life { out: out.as_raw_fd() as i64, hist: dir.with_extension("hist"), dir: dir.to_path_buf(), rng, l, m, reader, builder: None, building: None, term: n + 1 };
        x.dump("st").await;
        sys::ARMED.store(false, SeqCst);
        // The history ends where the state machine is now.
        let ap = x.applied().await.map(|a| ix(&a) + 1).unwrap_or(0);
        let h = x.history();
        let keep = h.into_iter().take(ap as usize).map(|e| format!("{}\n", entry::<K>(&e))).collect::<String>();
        let _ = std::fs::write(&x.hist, keep);
        let st = x.l.get_log_state().await.unwrap();
        x.term = x.term.max(st.last_log_id.map(|l| l.leader_id.term).unwrap_or(1));
        // As openraft does when it starts.
        if st.last_log_id < x.applied().await {
            let a = x.applied().await.unwrap();
            sys::ARMED.store(crash, SeqCst);
            x.purge(a).await;
        }
        sys::ARMED.store(crash, SeqCst);
        for _ in 0..ops {
            x.op().await;
        }
        x.built(u32::MAX).await;
        sys::ARMED.store(false, SeqCst);
        x.dump("rs").await;
        x.emit("close", json!({}));
    });
}

fn sim(kind: &str, first: u64, count: u64, out: &str) {
    let me = std::env::current_exe().unwrap();
    let mut f = File::create(format!("{}.0.ndjson", out)).unwrap();
    for seed in first..first + count {
        let dir = std::path::PathBuf::from(format!("{}.{}.d", out, seed));
        let clean = || {
            let _ = std::fs::remove_dir_all(&dir);
            for x in ["trace", "syncs", "hist", "donor", "err"] {
                let _ = std::fs::remove_file(dir.with_extension(x));
                let _ = std::fs::remove_dir_all(dir.with_extension(x));
            }
        };
        clean();
        std::fs::create_dir_all(&dir).unwrap();
        let mut rng = SmallRng::seed_from_u64(seed);
        let (res, disk) = match kind {
            "mem" => (Mem::RES, Mem::DISK),
            "rocks" => (Rocks::RES, Rocks::DISK),
            _ => (Sled::RES, Sled::DISK),
        };
        writeln!(f, "{}", json!({"e": "begin", "prof": kind, "seed": seed, "res": res, "disk": disk as u64})).unwrap();
        let lives = if kind == "mem" { 1 } else { rng.gen_range(1..5) };
        for n in 0..lives {
            let _ = std::fs::remove_file(dir.with_extension("trace"));
            let mut child = std::process::Command::new(&me)
                .args(["life", kind, &seed.to_string(), &n.to_string(), dir.to_str().unwrap()])
                .stderr(File::create(dir.with_extension("err")).unwrap())
                .spawn()
                .unwrap();
            let from = std::time::Instant::now();
            let status = loop {
                if let Some(s) = child.try_wait().unwrap() {
                    break Some(s);
                }
                if from.elapsed().as_secs() > 60 {
                    child.kill().unwrap();
                    child.wait().unwrap();
                    break None;
                }
                std::thread::sleep(std::time::Duration::from_millis(if from.elapsed().as_millis() < 200 { 1 } else { 10 }));
            };
            let t = std::fs::read(dir.with_extension("trace")).unwrap_or_default();
            let whole = t.iter().rposition(|c| *c == b'\n').map(|i| i + 1).unwrap_or(0);
            f.write_all(&t[..whole]).unwrap();
            let Some(status) = status else {
                // sled's own threads can all come to wait for each other: not the matter of the store.
                writeln!(f, "{}", json!({"e": if kind == "sled" { "lost" } else { "hung" }})).unwrap();
                break;
            };
            match status.code() {
                Some(0) => {}
                // The database can not open its own files any more: not the matter of the store.
                Some(78) => {
                    writeln!(f, "{}", json!({"e": "lost"})).unwrap();
                    break;
                }
                Some(77) => {
                    let lost = if kind == "rocks" { lose(&dir, &mut rng) } else { 0 };
                    writeln!(f, "{}", json!({"e": "crash", "lost": lost})).unwrap();
                }
                c => {
                    let err = std::fs::read_to_string(dir.with_extension("err")).unwrap_or_default();
                    let at = err.lines().filter(|l| l.contains("panicked")).next().unwrap_or("").to_string();
                    let why = err.lines().skip_while(|l| !l.contains("panicked")).nth(1).unwrap_or("").to_string();
                    writeln!(f, "{}", json!({"e": "panic", "code": c, "at": at.chars().take(150).collect::<String>(), "why": why.chars().take(200).collect::<String>()})).unwrap();
                    break;
                }
            }
        }
        clean();
    }
}

/// Takes away some of what was written to the newest write-ahead log of rocksdb and not synced.
fn lose(dir: &Path, rng: &mut SmallRng) -> u64 {
    let mut logs: Vec<_> = std::fs::read_dir(dir).unwrap().filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|x| x == "log").unwrap_or(false)).collect();
    logs.sort();
    let Some(p) = logs.pop() else { return 0 };
    let name = p.file_name().unwrap().to_str().unwrap().to_string();
    let synced = std::fs::read_to_string(dir.with_extension("syncs"))
        .unwrap_or_default()
        .lines()
        .filter(|l| l.ends_with(&name))
        .filter_map(|l| l.split(' ').next().unwrap().parse::<u64>().ok())
        .max()
        .unwrap_or(0);
    let size = std::fs::metadata(&p).unwrap().len();
    if size <= synced {
        return 0;
    }
    let to = if rng.gen_bool(0.5) { synced } else { rng.gen_range(synced..=size) };
    File::options().write(true).open(&p).unwrap().set_len(to).unwrap();
    size - to
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    match a[1].as_str() {
        "sim" => sim(&a[2], n(3), n(4), &a[5]),
        "life" => match a[2].as_str() {
            "mem" => life::<Mem>(n(3), n(4), Path::new(&a[5])),
            "rocks" => life::<Rocks>(n(3), n(4), Path::new(&a[5])),
            _ => life::<Sled>(n(3), n(4), Path::new(&a[5])),
        },
        x => panic!("unknown command {}", x),
    }
}
