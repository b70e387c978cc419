//! Random scenarios: a cluster under client load, faults, crashes and reconfiguration, followed by a quiet phase in
//! which it must recover.

use std::collections::BTreeMap;
use std::collections::BTreeSet;
use std::sync::Arc;

use openraft::BasicNode;
use openraft::ChangeMembers;
use openraft::Config;
use openraft::ServerState;
use openraft::SnapshotPolicy;
use serde_json::json;

use crate::rt;
use crate::rt::chance;
use crate::rt::rnd;
use crate::store::StoreCfg;
use crate::types::*;
use crate::world::*;

#[derive(Clone, Debug, Default)]
pub struct Prof {
    pub voters: (u64, u64),
    pub extra: (u64, u64),
    pub dur_ms: u64,
    /// Weight of each operation.
    pub w: BTreeMap<&'static str, u64>,
    pub step_ms: (u64, u64),
    pub snap_since: Vec<u64>,
    pub keep: Vec<u64>,
    pub batch: Vec<u64>,
    pub payload: Vec<u64>,
    pub lag: Vec<u64>,
    pub drop: Vec<u64>,
    pub p_elect_off: u64,
    pub p_hb_off: u64,
    pub chunked: u64,
    pub park: u64,
    pub slow_flush: u64,
    pub store_variants: bool,
    pub delayed_init: bool,
    /// Percentage of runs that end with things asked for in a healthy cluster.
    pub probes: u64,
}

fn base() -> Prof {
    Prof {
        voters: (3, 3),
        extra: (0, 1),
        dur_ms: 5000,
        w: BTreeMap::from([
            ("write", 40),
            ("burst", 6),
            ("read", 6),
            ("part", 6),
            ("heal", 6),
            ("crash", 3),
            ("restart", 6),
            ("pause", 2),
            ("holdflush", 2),
            ("ask", 4),
        ]),
        step_ms: (1, 60),
        snap_since: vec![0],
        keep: vec![0, 3, 1000],
        batch: vec![1, 4],
        payload: vec![1, 2, 5, 300],
        lag: vec![20, 1000],
        drop: vec![0, 0, 3, 10],
        p_elect_off: 0,
        p_hb_off: 0,
        chunked: 0,
        park: 40,
        slow_flush: 30,
        store_variants: true,
        delayed_init: false,
        probes: 15,
    }
}

pub fn profile(name: &str) -> Prof {
    let mut p = base();
    let set = |p: &mut Prof, l: &[(&'static str, u64)]| {
        for (k, v) in l {
            p.w.insert(k, *v);
        }
    };
    match name {
        "election" => {
            p.voters = (1, 5);
            set(&mut p, &[("write", 15), ("part", 12), ("heal", 10), ("crash", 10), ("restart", 14), ("elect", 8), ("isolate", 8), ("pause", 6)]);
        }
        "log" => {
            p.voters = (3, 5);
            set(&mut p, &[("write", 50), ("burst", 12), ("isolate", 10), ("part", 8), ("heal", 8), ("crash", 6), ("restart", 10), ("elect", 3), ("swap", 8)]);
        }
        "member" => {
            p.voters = (1, 4);
            p.extra = (1, 3);
            set(&mut p, &[("write", 20), ("change", 14), ("learner", 4), ("part", 6), ("heal", 8), ("crash", 4), ("restart", 10), ("isolate", 5), ("elect", 2), ("swap", 3)]);
            p.snap_since = vec![0, 0, 8];
        }
        "snapshot" => {
            p.extra = (0, 2);
            p.snap_since = vec![2, 4, 8];
            p.keep = vec![0, 1, 4];
            p.batch = vec![1, 3];
            p.lag = vec![1, 3, 20];
            set(&mut p, &[("write", 60), ("burst", 14), ("change", 3), ("snap", 5), ("purge", 5), ("isolate", 12), ("heal", 12), ("crash", 6), ("restart", 10), ("elect", 2)]);
        }
        "chunk" => {
            p = profile("snapshot");
            p.chunked = 100;
            p.drop = vec![0, 5, 15];
            set(&mut p, &[("crash", 12), ("restart", 30)]);
        }
        "read" => {
            p.voters = (3, 5);
            set(&mut p, &[("write", 40), ("read", 40), ("isolate", 10), ("part", 6), ("heal", 8), ("pause", 8), ("elect", 3), ("swap", 6), ("crash", 3), ("restart", 6)]);
        }
        "lease" => {
            p.voters = (3, 5);
            p.drop = vec![0, 0, 5];
            set(&mut p, &[("write", 12), ("isolate", 14), ("heal", 14), ("part", 6), ("crash", 4), ("restart", 8), ("elect", 3), ("hb", 3), ("pause", 6)]);
        }
        "transfer" => {
            p.voters = (1, 5);
            p.extra = (0, 2);
            set(&mut p, &[("write", 30), ("transfer", 14), ("isolate", 5), ("heal", 10), ("crash", 3), ("restart", 8), ("change", 2), ("learner", 3)]);
        }
        "init" => {
            p.voters = (1, 5);
            p.extra = (0, 2);
            p.delayed_init = true;
            p.dur_ms = 3000;
            set(&mut p, &[("write", 15), ("init", 14), ("crash", 8), ("restart", 12), ("part", 6), ("heal", 8), ("change", 3)]);
        }
        "restart" => {
            p.voters = (1, 3);
            p.snap_since = vec![0, 3, 6];
            p.keep = vec![0, 2, 1000];
            set(&mut p, &[("write", 40), ("crash", 20), ("restart", 25), ("bounce", 12), ("holdflush", 8), ("change", 3), ("snap", 3), ("isolate", 4), ("heal", 8)]);
            p.slow_flush = 60;
        }
        "fault" => {
            p.snap_since = vec![3, 8, 0];
            p.keep = vec![0, 3];
            set(&mut p, &[("fault", 10), ("restart", 14), ("snap", 2), ("crash", 3), ("isolate", 4), ("heal", 8), ("swap", 3)]);
        }
        "long" => {
            // Logs that are longer than any batch the code works in.
            p.voters = (1, 3);
            p.extra = (0, 1);
            p.dur_ms = 1500;
            p.snap_since = vec![0, 0, 100];
            p.payload = vec![7, 300];
            p.step_ms = (1, 40);
            set(&mut p, &[("write", 5), ("flood", 3), ("bounce", 5), ("crash", 4), ("restart", 8), ("change", 2), ("snap", 1), ("purge", 1), ("isolate", 2), ("heal", 5)]);
        }
        "probe" => {
            p.voters = (1, 5);
            p.extra = (0, 2);
            p.dur_ms = 800;
            p.probes = 100;
            p.chunked = 20;
            p.snap_since = vec![0, 0, 3];
            p.keep = vec![0, 2, 1000];
            set(&mut p, &[("crash", 2), ("restart", 8), ("change", 3), ("learner", 2), ("elect", 1), ("isolate", 2), ("heal", 8)]);
        }
        "shut" => {
            p.voters = (1, 4);
            p.extra = (0, 1);
            p.dur_ms = 2500;
            p.snap_since = vec![0, 4];
            p.chunked = 30;
            set(&mut p, &[("shutdown", 16), ("restart", 14), ("burst", 12), ("crash", 1), ("snap", 4), ("change", 3), ("read", 10), ("isolate", 4), ("heal", 8), ("elect", 3)]);
        }
        "lossy" => p = profile("restart"),
        "live" => {
            p.voters = (1, 5);
            p.extra = (0, 2);
            p.snap_since = vec![0, 4];
            p.keep = vec![0, 3, 1000];
            set(&mut p, &[("isolate", 8), ("crash", 8), ("restart", 8), ("change", 4), ("snap", 2), ("transfer", 2), ("elect", 2), ("fault", 2)]);
        }
        "mixed" => {
            p.voters = (1, 5);
            p.extra = (0, 3);
            p.snap_since = vec![0, 4, 8];
            p.keep = vec![0, 2, 1000];
            p.chunked = 30;
            set(&mut p, &[
                ("write", 50), ("burst", 8), ("read", 10), ("part", 5), ("isolate", 5), ("heal", 9), ("crash", 5), ("restart", 9),
                ("change", 5), ("learner", 2), ("elect", 2), ("transfer", 2), ("snap", 2), ("purge", 2), ("pause", 3), ("swap", 3), ("hb", 1),
                ("bounce", 2), ("init", 1),
            ]);
        }
        other => panic!("unknown profile {}", other),
    }
    p
}

fn pick<T: Clone>(v: &[T]) -> T {
    v[rnd(0, v.len() as u64 - 1) as usize].clone()
}
fn pct(p: u64) -> bool {
    p > 0 && rnd(1, 100) <= p
}
fn subset(ids: &[u64], min: usize) -> BTreeSet<u64> {
    loop {
        let s: BTreeSet<u64> = ids.iter().copied().filter(|_| chance(0.5)).collect();
        if s.len() >= min {
            return s;
        }
    }
}

pub fn quiet_net(net: &mut NetCfg) {
    net.drop = 0.0;
    net.dup = 0.0;
    net.late = 0.0;
    net.slow = 0.0;
    net.too_large = 0.0;
    net.partial = 0.0;
    net.delay_us = (200, 3000);
}

pub async fn scenario(name: &'static str, seed: u64) {
    let p = profile(name);
    let nv = rnd(p.voters.0, p.voters.1);
    let nx = rnd(p.extra.0, p.extra.1);
    let all: Vec<u64> = (1..=nv + nx).collect();
    let voters: Vec<u64> = (1..=nv).collect();

    let snap_since = pick(&p.snap_since);
    let keep = pick(&p.keep);
    let batch = pick(&p.batch);
    let chunk_size = if name == "chunk" && pct(40) { 20 } else if pct(50) { 40 } else { 160 };
    let cfg = Config {
        cluster_name: "sim".into(),
        heartbeat_interval: 60,
        election_timeout_min: 200,
        election_timeout_max: 320,
        install_snapshot_timeout: 400,
        max_payload_entries: pick(&p.payload),
        replication_lag_threshold: pick(&p.lag),
        snapshot_policy: if snap_since == 0 { SnapshotPolicy::Never } else { SnapshotPolicy::LogsSinceLast(snap_since) },
        snapshot_max_chunk_size: chunk_size,
        max_in_snapshot_log_to_keep: keep,
        purge_batch_size: batch,
        ..Default::default()
    };
    let slow = pct(p.slow_flush);
    let store = StoreCfg {
        flush_us: if slow { (0, 30_000) } else if pct(50) { (0, 2_000) } else { (0, 100) },
        apply_us: if pct(30) { (0, 20_000) } else { (0, 300) },
        read_us: if pct(30) { (0, 5_000) } else { (0, 0) },
        snap_us: if pct(50) { (0, 60_000) } else { (0, 2_000) },
        sync_meta: if p.store_variants { pct(60) } else { true },
        sm_persistent: if p.store_variants { pct(50) } else { true },
        save_committed: if p.store_variants { pct(70) } else { true },
        read_limit: if p.store_variants && pct(30) { rnd(1, 3) } else { 0 },
    };
    let drop = pick(&p.drop) as f64 / 100.0;
    let net = NetCfg {
        delay_us: pick(&[(200, 2_000), (200, 10_000), (1_000, 30_000)]),
        drop,
        dup: if pct(40) { if name == "chunk" { 0.2 } else { 0.05 } } else { 0.0 },
        late: if name == "chunk" && pct(60) { 0.3 } else { 0.0 },
        slow: if pct(40) { 0.03 } else { 0.0 },
        slow_ms: 400,
        chunked: pct(p.chunked),
        too_large: if pct(15) { 0.2 } else { 0.0 },
        partial: if pct(15) { 0.2 } else { 0.0 },
    };
    let park = pct(p.park);
    rt::set_sched(rt::SchedCfg {
        p_random: pick(&[0.0, 0.1, 0.5]),
        p_park: if park { pick(&[0.002, 0.02]) } else { 0.0 },
        park_max_ms: pick(&[5, 20, 80]),
    });

    emit(
        "begin",
        json!({"seed": seed, "prof": name, "nodes": all, "voters": voters, "keep": keep, "since": snap_since, "batch": batch,
               "lease": cfg.election_timeout_max * 1000, "emin": cfg.election_timeout_min * 1000, "smper": store.sm_persistent as u64,
               "savec": store.save_committed as u64, "chunk": net.chunked as u64, "payload": cfg.max_payload_entries,
               "stl": cfg!(feature = "single-term-leader") as u64}),
    );
    let dur = p.dur_ms * 1000;
    WORLD.with(|x| {
        *x.borrow_mut() = Some(World {
            nodes: BTreeMap::new(),
            net,
            store,
            config: Arc::new(cfg.validate().unwrap()),
            cut: BTreeSet::new(),
            next_rid: 0,
            next_op: 0,
            next_req: 0,
            outstanding: 0,
            fault_free: false,
            lossy_leader: name == "lossy",
            shutting: BTreeSet::new(),
            late_to: None,
            held: None,
        })
    });
    for n in &all {
        add_node(*n);
    }
    for n in &all {
        if !p.delayed_init || chance(0.7) {
            start(*n).await;
        }
    }
    let init_members = nodes(&voters);
    if !p.delayed_init {
        initialize(1, init_members.clone());
    }

    let wsum: u64 = p.w.values().sum();
    while rt::now_us() < dur {
        rt::sleep_rnd_us(p.step_ms.0 * 1000, p.step_ms.1 * 1000).await;
        check_health();
        let mut x = rnd(1, wsum);
        let mut op = "write";
        for (k, v) in &p.w {
            if x <= *v {
                op = k;
                break;
            }
            x -= v;
        }
        // The stream of a snapshot starts again while its last chunk is still on the way.
        if let Some(n) = w(|x| x.late_to.take()) {
            if is_up(n) && chance(0.5) {
                crash(n);
                start(n).await;
            }
        }
        do_op(op, &all, &init_members, &p).await;
    }

    // Quiet phase: no more faults, everything is up, the network is prompt.
    for n in &all {
        let (stopped, disk) = w(|x| (!x.nodes[n].up, x.nodes[n].disk.clone()));
        let (faulty, pending) = {
            let d = disk.lock().unwrap();
            (d.failed, !d.fail.is_empty())
        };
        disk.lock().unwrap().fail.clear();
        if faulty || pending || (!stopped && dead(*n)) {
            if !stopped {
                crash(*n);
            }
        }
        disk.lock().unwrap().failed = false;
        disk.lock().unwrap().hold_flush = false;
        disk.lock().unwrap().notify.notify_one();
    }
    w(|x| quiet_net(&mut x.net));
    heal();
    rt::unpause_all();
    rt::set_sched(rt::SchedCfg {
        p_random: 0.0,
        p_park: 0.0,
        park_max_ms: 0,
    });
    for n in &all {
        if !is_up(*n) {
            start(*n).await;
        }
    }
    emit("quiet", json!({}));
    // Make sure that there is a cluster at all.
    if p.delayed_init || all.iter().all(|n| metrics_of(*n).map(|m| m.last_log_index.is_none()).unwrap_or(true)) {
        initialize(1, init_members.clone());
    }
    settle(&all, p.probes).await;
}

fn dead(n: u64) -> bool {
    if w(|x| x.shutting.contains(&n)) {
        return true;
    }
    metrics_of(n).map(|m| m.running_state.is_err()).unwrap_or(true)
}

/// Wait for the cluster to recover, and report where it ended up.
pub async fn settle(all: &[u64], probe: u64) {
    let bound = rt::now_us() + 12_000_000;
    let mut ok = 0u64;
    let mut wid = 0;
    let mut round = 0;
    while rt::now_us() < bound {
        rt::sleep_ms(200).await;
        check_health();
        if wid == 0 {
            round += 1;
            let Some(l) = top_leader() else { continue };
            if round >= 3 {
                wid = write(l);
            }
            continue;
        }
        // All members of the leader's config caught up with it, and agree about who leads.
        let Some(l) = top_leader() else { wid = 0; continue };
        let lm = metrics_of(l).unwrap();
        let members: Vec<u64> = lm.membership_config.nodes().map(|(i, _)| *i).collect();
        let ll = lm.last_log_index;
        // A leader that is not a voter keeps working as the leader, but is not reported as such.
        let voter = lm.membership_config.membership().voter_ids().any(|x| x == l);
        let good = members.iter().all(|n| {
            if !all.contains(n) {
                return true;
            }
            match metrics_of(*n) {
                Some(m) => m.last_log_index == ll && m.last_applied.map(|x| x.index) == ll && (m.current_leader == Some(l) || !voter) && m.vote == lm.vote,
                None => false,
            }
        }) && leaders().into_iter().filter(|x| members.contains(x)).count() == 1;
        let done = w(|x| x.nodes[&l].disk.lock().unwrap().sm.ids.contains(&wid));
        if !done && rt::now_us() % 2_000_000 < 250_000 {
            wid = write(l);
        }
        if good && done {
            ok = 1;
            break;
        }
    }
    check_health();
    read_end(all);
    rt::sleep_ms(400).await;
    check_health();
    report("end", ok, all);
    if ok == 1 && pct(probe) {
        probes(all).await;
        check_health();
    }
}

/// Where every node is.
fn report(kind: &'static str, ok: u64, all: &[u64]) {
    let mut rep = vec![];
    for n in all {
        let Some(m) = metrics_of(*n) else {
            rep.push(json!({"n": n, "up": 0}));
            continue;
        };
        let mut v = metrics_json(*n, &m);
        v["up"] = json!(1);
        v["len"] = json!(w(|x| x.nodes[n].disk.lock().unwrap().sm.ids.len()));
        rep.push(v);
    }
    emit(kind, json!({"ok": ok, "rep": rep}));
}

fn read_end(_all: &[u64]) {
    if let Some(l) = top_leader() {
        read(l);
    }
}

/// Wait until `f` holds, for at most `ms`.
async fn until(ms: u64, f: impl Fn() -> bool) -> bool {
    let t = rt::now_us() + ms * 1000;
    loop {
        if f() {
            return true;
        }
        if rt::now_us() >= t {
            return false;
        }
        rt::sleep_ms(20).await;
    }
}
fn pb(n: u64, k: &'static str, ok: bool, info: serde_json::Value) {
    emit("pb", json!({"n": n, "k": k, "ok": ok as u64, "info": info.to_string()}));
}

/// What a user may expect of a healthy cluster: something is asked for, and it must come about.
async fn probes(all: &[u64]) {
    let Some(l) = top_leader() else { return };
    let lm = metrics_of(l).unwrap();
    let members: Vec<u64> = lm.membership_config.nodes().map(|(i, _)| *i).filter(|i| all.contains(i)).collect();
    let voters: Vec<u64> = lm.membership_config.membership().voter_ids().filter(|i| all.contains(i)).collect();
    if !voters.contains(&l) || voters.len() != lm.membership_config.membership().voter_ids().count() {
        return;
    }
    let n = pick(&members);
    for _ in 0..3 {
        match rnd(0, 9) {
            0 => {
                // A snapshot of all that is applied.
                let (want, had) = metrics_of(n).map(|m| (m.last_applied, m.snapshot)).unwrap();
                trigger(n, "snap", 0);
                let mut ok = until(3000, || metrics_of(n).map(|m| m.snapshot >= want).unwrap_or(false)).await;
                if !ok && metrics_of(n).map(|m| m.snapshot > had).unwrap_or(false) {
                    // Another one was being built when it was asked for: once more, then.
                    trigger(n, "snap", 0);
                    ok = until(3000, || metrics_of(n).map(|m| m.snapshot >= want).unwrap_or(false)).await;
                }
                pb(n, "snap", ok, json!(jolid(&want)));
                if ok {
                    // Purge what the snapshot covers.
                    let upto = want.unwrap().index - rnd(0, std::cmp::min(2, want.unwrap().index));
                    trigger(n, "purge", upto);
                    let ok = until(3000, || metrics_of(n).map(|m| m.purged.map(|x| x.index) >= Some(upto)).unwrap_or(false)).await;
                    pb(n, "purge", ok, json!(upto));
                }
            }
            1 => {
                if w(|x| x.net.chunked) {
                    // That network has no such message.
                    continue;
                }
                let to = pick(&voters);
                // A request of the target may overtake the end of the lease at the others: once more, then.
                let mut ok = false;
                for _ in 0..8 {
                    let Some(at) = top_leader() else { break };
                    trigger(at, "transfer", to);
                    ok = until(3000, || metrics_of(to).map(|m| m.current_leader == Some(to)).unwrap_or(false)).await;
                    if ok {
                        break;
                    }
                }
                pb(l, "transfer", ok, json!(to));
                return;
            }
            2 => {
                // Nothing happens: nothing changes.
                let was = metrics_of(l).unwrap();
                rt::sleep_ms(1500).await;
                let m = metrics_of(l).unwrap();
                pb(l, "stable", m.vote == was.vote && m.state == was.state, json!([jvote(&m.vote), jvote(&was.vote)]));
            }
            3 => {
                let id = write(n);
                let leads = n == l;
                let done = until(2000, || w(|x| x.nodes[&n].disk.lock().unwrap().sm.ids.contains(&id))).await;
                pb(n, "write", done == leads, json!(id));
            }
            4 => {
                let r = forward_hint(n).await;
                pb(n, "hint", r == Some(if n == l { 0 } else { l }), json!(r));
            }
            5 => {
                let r = wait_api(n).await;
                pb(n, "wait", r.is_none(), json!(r));
            }
            6 => {
                let x = pick(all);
                if !members.contains(&x) {
                    let r = change_and_wait(l, ChangeMembers::AddNodes(BTreeMap::from([(x, BasicNode { addr: (x * 100).to_string() })]))).await;
                    pb(l, "learner", r, json!(x));
                    if r {
                        let ok = until(3000, || metrics_of(x).map(|m| m.last_applied >= lm.last_applied).unwrap_or(false)).await;
                        pb(x, "catchup", ok, json!(0));
                    }
                }
            }
            7 => {
                let goal: BTreeSet<u64> = members.iter().copied().filter(|x| *x == l || chance(0.7)).collect();
                let r = change_and_wait(l, ChangeMembers::ReplaceAllVoters(goal.clone())).await;
                let now: BTreeSet<u64> = metrics_of(l).unwrap().membership_config.membership().voter_ids().collect();
                pb(l, "change", r && now == goal, json!(goal));
                return;
            }
            8 => {
                let r = shutdown_node(n).await;
                pb(n, "shutdown", r.is_none(), json!(r));
                // A quorum without it goes on.
                rt::sleep_ms(1200).await;
                check_health();
                let enough = lm.membership_config.membership().get_joint_config().iter().all(|c| {
                    c.iter().filter(|x| **x != n).count() * 2 > c.len()
                });
                if enough {
                    let ok = until(4000, || top_leader().is_some()).await;
                    let mut done = false;
                    if ok {
                        let l2 = top_leader().unwrap();
                        let id = write(l2);
                        done = until(3000, || w(|x| x.nodes[&l2].disk.lock().unwrap().sm.ids.contains(&id))).await;
                    }
                    pb(n, "without", done, json!(0));
                }
                return;
            }
            _ => {
                // Elections off: a follower that hears nothing stays a follower. On again: the cluster goes on.
                let f: Vec<u64> = voters.iter().copied().filter(|x| *x != l).collect();
                if f.is_empty() {
                    continue;
                }
                let x = pick(&f);
                runtime(x, "elect", false);
                for b in all {
                    if *b != x {
                        cut_link(x, *b, true);
                    }
                }
                rt::sleep_ms(1200).await;
                let v = metrics_of(x).unwrap().vote;
                pb(x, "noelect", v.leader_id().voted_for() != Some(x), json!(jvote(&v)));
                heal();
                rt::sleep_ms(400).await;
                runtime(x, "elect", true);
                let ok = until(3000, || metrics_of(x).map(|m| m.current_leader.is_some() && m.current_leader == top_leader()).unwrap_or(false)).await;
                pb(x, "rejoin", ok, json!(0));
            }
        }
        if top_leader() != Some(l) {
            return;
        }
    }
}

fn any_up() -> Option<u64> {
    let u = ups();
    if u.is_empty() {
        None
    } else {
        Some(pick(&u))
    }
}

fn target_node() -> Option<u64> {
    let ls = leaders();
    if !ls.is_empty() && chance(0.85) {
        Some(pick(&ls))
    } else {
        any_up()
    }
}

async fn do_op(op: &'static str, all: &[u64], init_members: &BTreeMap<u64, BasicNode>, _p: &Prof) {
    match op {
        "write" => {
            if let Some(n) = target_node() {
                write(n);
            }
        }
        "burst" => {
            if let Some(n) = target_node() {
                for _ in 0..rnd(2, 8) {
                    write(n);
                }
            }
        }
        "flood" => {
            if let Some(n) = target_node() {
                for _ in 0..rnd(30, 90) {
                    write(n);
                }
            }
        }
        "read" => {
            if let Some(n) = target_node() {
                read(n);
            }
        }
        "ask" => {
            if let Some(n) = any_up() {
                ask(n);
            }
        }
        "part" => {
            let side = subset(all, 0);
            let both = chance(0.7);
            for a in all {
                for b in all {
                    if side.contains(a) && !side.contains(b) {
                        cut_link(*a, *b, both);
                    }
                }
            }
        }
        "isolate" => {
            let ls = leaders();
            let x = if !ls.is_empty() && chance(0.7) { pick(&ls) } else { pick(all) };
            let mode = rnd(0, 3);
            let spare = if chance(0.3) { pick(all) } else { 0 };
            for b in all {
                if *b == x || *b == spare {
                    continue;
                }
                match mode {
                    0 | 1 => cut_link(x, *b, true),
                    2 => cut_link(x, *b, false),
                    _ => cut_link(*b, x, false),
                }
            }
        }
        "heal" => heal(),
        "swap" => {
            // A leader is cut off while it is being written to, and another takes over.
            if let Some(l) = top_leader() {
                for b in all {
                    if *b != l {
                        cut_link(l, *b, true);
                    }
                }
                for _ in 0..rnd(1, 4) {
                    write(l);
                }
                rt::sleep_ms(rnd(400, 900)).await;
                if let Some(n) = target_node() {
                    write(n);
                }
                if chance(0.6) {
                    heal();
                }
            }
        }
        "crash" => {
            let ls = leaders();
            let u = ups();
            if u.is_empty() {
                return;
            }
            let n = if !ls.is_empty() && chance(0.5) { pick(&ls) } else { pick(&u) };
            crash(n);
        }
        "bounce" => {
            if let Some(n) = any_up() {
                crash(n);
                start(n).await;
            }
        }
        "restart" => {
            let down: Vec<u64> = all.iter().copied().filter(|n| !is_up(*n)).collect();
            if !down.is_empty() {
                start(pick(&down)).await;
            }
            // A node that failed by itself is restarted after a crash.
            for n in all {
                if is_up(*n) && dead(*n) {
                    crash(*n);
                    if chance(0.7) {
                        start(*n).await;
                    }
                }
            }
        }
        "pause" => {
            if let Some(n) = target_node() {
                rt::pause(n, rnd(20, 900));
            }
        }
        "holdflush" => {
            if let Some(n) = any_up() {
                let disk = w(|x| x.nodes[&n].disk.clone());
                disk.lock().unwrap().hold_flush = true;
                let ms = rnd(10, 500);
                rt::spawn_as((0, 0), async move {
                    rt::sleep_ms(ms).await;
                    let mut d = disk.lock().unwrap();
                    d.hold_flush = false;
                    d.notify.notify_one();
                });
            }
        }
        "shutdown" => {
            if let Some(n) = any_up() {
                if w(|x| x.shutting.insert(n)) {
                    rt::spawn_as((0, 0), async move {
                        let r = shutdown_node(n).await;
                        if r != Some("gone") {
                            pb(n, "shutdown", r.is_none(), json!(r));
                        }
                    });
                }
            }
        }
        "fault" => {
            if let Some(n) = any_up() {
                let k = pick(&["append", "flush", "vote", "truncate", "purge", "savec", "read", "apply", "snapbuild", "snapbegin", "snapinstall", "snapread"]);
                let disk = w(|x| x.nodes[&n].disk.clone());
                disk.lock().unwrap().fail.insert(k, rnd(0, 3));
            }
        }
        "elect" => {
            // Not on a node that leads or is about to.
            let ls = leaders();
            let c: Vec<u64> = ups().into_iter().filter(|n| !ls.contains(n)).collect();
            if !c.is_empty() {
                trigger(pick(&c), "elect", 0);
            }
        }
        "hb" => {
            if let Some(n) = target_node() {
                trigger(n, "hb", 0);
            }
        }
        "snap" => {
            if let Some(n) = any_up() {
                trigger(n, "snap", 0);
            }
        }
        "purge" => {
            if let Some(n) = any_up() {
                let at = metrics_of(n).and_then(|m| m.last_applied).map(|x| x.index).unwrap_or(0);
                trigger(n, "purge", at + rnd(0, 3));
            }
        }
        "transfer" => {
            if let Some(n) = target_node() {
                trigger(n, "transfer", pick(all));
            }
        }
        "init" => {
            if let Some(n) = any_up() {
                initialize(n, init_members.clone());
            }
        }
        "learner" => {
            if let Some(n) = target_node() {
                let id = pick(all);
                add_learner(n, id, id * 100 + rnd(0, 1), chance(0.5));
            }
        }
        "change" => {
            if let Some(n) = target_node() {
                let ids = subset(all, 1);
                let nd: BTreeMap<u64, BasicNode> = ids
                    .iter()
                    .map(|i| (*i, BasicNode { addr: (i * 100 + rnd(0, 2)).to_string() }))
                    .collect();
                let one = BTreeSet::from([pick(all)]);
                let c = match rnd(0, 11) {
                    0 => ChangeMembers::AddVoterIds(ids),
                    1 => ChangeMembers::AddVoters(nd),
                    2 => ChangeMembers::RemoveVoters(if chance(0.7) { one } else { ids }),
                    3 | 4 | 5 => ChangeMembers::ReplaceAllVoters(ids),
                    6 => ChangeMembers::AddNodes(nd),
                    7 => ChangeMembers::SetNodes(nd),
                    8 => ChangeMembers::RemoveNodes(one),
                    9 => ChangeMembers::ReplaceAllNodes(nd),
                    10 => ChangeMembers::AddVoterIds(one),
                    _ => ChangeMembers::RemoveVoters(one),
                };
                change(n, c, chance(0.5));
            }
        }
        other => panic!("unknown op {}", other),
    }
}
