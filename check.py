#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on /repo's working tree (see DESIGN.md).

Builds the harness against /repo, runs seeded scenarios on the real code, and lets TLC check every recorded event
against the specification (spec/OrTrace.tla). Exit 0: held; 1: VIOLATION; 2: the check itself failed.
"""
import json, os, re, subprocess, sys, threading, time, shutil, zlib

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, "tools"))
import mc
SPEC = os.path.join(V, "spec")
TARGET = os.path.join(V, "target")
EV = os.path.join(V, "evidence")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
ALL = ["election", "log", "member", "snapshot", "chunk", "read", "lease", "transfer", "init", "restart", "fault", "live", "mixed"]
EXTRA = {"P03": ["lossy"]}

# Profiles that are about the property, and rules that are lemmas of it: the property follows from the rules
# (spec/MC*.tla), so a step of the code that breaks one is a step outside of the model that the property was checked on.
PROPS = {
    "P01": (["election", "transfer", "member"], ["P01", "P02", "P08.quorums_overlap", "P17.vote_restored"]),
    "P02": (["election", "restart", "lease"], ["P02", "P17.vote_restored", "P06.ack_vote_durable"]),
    "P03": (["log", "mixed", "restart"], ["P03", "P01.only_leader_replicates"]),
    "P04": (["log", "election", "member"], ["P04", "P02", "P07", "P01.claim_quorum", "P06", "P05.commit_agrees", "P08.quorums_overlap"]),
    "P05": (["log", "snapshot", "restart", "mixed", "long"], ["P05", "P07", "P04", "P03.log_matching", "P10", "P06.committed_cut_off", "P17.state_machine_restored"]),
    "P06": (["restart", "log", "snapshot", "fault"], ["P06", "P07.commit_durable", "P02.grant_durable", "P02.reject_durable", "P02.candidate_vote_durable", "P02.leader_vote_durable", "P17"]),
    "P07": (["log", "member", "mixed"], ["P07", "P05.commit_agrees", "P23"]),
    "P08": (["member", "mixed", "live"], ["P08", "P09.change_as_requested", "P17.membership_restored", "P19.membership_of_log", "P10.snapshot_membership"]),
    "P09": (["member", "mixed", "live"], ["P09", "P08"]),
    "P10": (["snapshot", "chunk", "mixed"], ["P10", "P06.ack_snapshot_durable", "P06.committed_cut_off", "P17.snapshot_restored", "P19.snapshot_exists", "P05.applies_in_order"]),
    "P11": (["snapshot", "restart", "mixed"], ["P11", "P17.purged_logs_have_snapshot", "P19.purged_is_purged"]),
    "P12": (["read", "lease", "mixed"], ["P12"]),
    "P13": (["log", "read", "mixed"], ["P13"]),
    "P14": (["lease", "election", "read", "transfer"], ["P14"]),
    "P15": (["transfer"], ["P15", "P01.only_voters_campaign", "P18"]),
    "P16": (["init"], ["P16"]),
    "P17": (["restart", "snapshot", "init", "fault", "long"], ["P17"]),
    "P18": (["live", "member", "mixed", "chunk"], ["P18", "P25.no_livelock"]),
    "P19": (["mixed", "live", "election", "snapshot"], ["P19", "P23", "P14.quorum_acked_by_quorum"]),
    "P20": (["chunk"], ["P20", "P10"]),
    "P21": (["probe"], ["P21", "P15.transfer_completes", "P14.leader_is_stable", "P13.writes_at_leader_only", "P13.forwards_to_leader", "P19.wait_tells_the_truth",
                        "P09.change_completes", "P18", "P19.shows_present_vote", "P19.shows_present_log", "P19.shows_present_snapshot",
                        "P19.shows_present_role", "P19.shows_present_leader"]),
    "P22": (["probe", "shut"], ["P22", "P17", "P18.goes_on_without_a_node"]),
    "P23": (["log", "live", "member", "snapshot", "long"], ["P23", "P07"]),
    "P25": (["fault", "mixed", "restart", "snapshot"], ["P25"]),
    "P26": (["mem", "rocks", "sled"], ["P26"]),
}
# Decided with the driver of the bundled stores and spec/OrStore.tla.
STORES = {"P26"}
# Configurations of spec/OrMC.tla (tools/mc.py) that say most about the property: that its global form follows from
# the local rules. The rules judge the code; these judge the rules.
MODELS = {
    "P01": (["tiny", "tinystd"], ["tinyled", "stdled", "crash", "ledlog", "member"]), "P02": (["tiny"], ["tinyled", "crash", "ledcrash"]),
    "P03": (["tinylog"], ["tinyled", "log", "ledlog", "crash"]), "P04": (["tinylog"], ["tinyled", "ledlog", "ledcrash", "ledmem"]),
    "P05": (["tinysnap"], ["ledlog", "ledsnap", "ledcrash", "big"]), "P06": (["tiny"], ["ledcrash", "crash", "big"]),
    "P07": (["tinylog"], ["tinyled", "ledlog", "ledcrash", "ledmem"]), "P08": (["tinymem"], ["ledmem", "member", "member4", "bigmem"]),
    "P09": (["tinymem"], ["ledmem", "bigmem"]), "P10": (["tinysnap"], ["ledsnap", "snap", "big"]),
    "P11": (["tinysnap"], ["ledsnap", "snap", "big"]), "P12": (["tinyread"], ["ledread", "read", "ledwalk"]),
    "P13": (["tinyread"], ["ledlog", "ledread", "ledwalk"]), "P17": (["tiny"], ["ledcrash", "crash", "big"]),
    "P23": (["tinylog"], ["tinyled", "ledlog", "ledcrash"]),
    "P26": (["storetiny", "storedisktiny"], ["store", "storedisk", "store2", "storebig"]),
}
# Not checked with the feature single-term-leader as well: nothing of it depends on how votes compare.
NO_STD = {"P26", "P09", "P20", "P21", "P22", "P25"}
ALWAYS = ["P25.no_panic", "P25.no_livelock"]


def die(msg):
    print("ERROR " + msg, flush=True)
    sys.exit(2)


def build(std=False, stores=False):
    """The harness, with openraft's feature single-term-leader or without; or the driver of the stores."""
    target = os.path.join(TARGET, "stores") if stores else os.path.join(TARGET, "std") if std else TARGET
    r = subprocess.run(["bash", "-c", ". /opt/vp/env.sh >/dev/null 2>&1; export CARGO_TARGET_DIR=%s; cd %s/%s && exec cargo build --offline %s"
                        % (target, V, "stores" if stores else "harness", "--features single-term-leader" if std else "")],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        die("the harness does not build against /repo")
    return os.path.join(target, "debug", "orstore" if stores else "orsim")


class Shard(threading.Thread):
    """Some runs of some profiles: simulated, then checked by TLC."""

    def __init__(self, k, orsim, plan, tmp, std=False, stores=False):
        super().__init__()
        self.std = std
        self.spec = ("OrStoreTrace.cfg", "OrStoreTrace.tla") if stores else ("OrTraceStd.cfg" if std else "OrTrace.cfg", "OrTrace.tla")
        self.args = [] if stores else ["--shards", "1"]
        self.k, self.orsim, self.plan, self.tmp = k, orsim, plan, tmp
        self.bad, self.states, self.gen, self.events, self.runs, self.err = [], 0, 0, 0, 0, None
        self.kinds = {}

    def run(self):
        try:
            if self.orsim is None:
                self.orsim = build(self.std)
            self.simulate()
            self.validate()
        except Exception as e:
            self.err = repr(e)
        except SystemExit:
            self.err = "no build"

    def simulate(self):
        self.trace = os.path.join(self.tmp, "s%d.ndjson" % self.k)
        with open(self.trace, "w") as f:
            for prof, first, count in self.plan:
                if count == 0:
                    continue
                out = os.path.join(self.tmp, "p%d.%s" % (self.k, prof))
                r = subprocess.run([self.orsim, "sim", prof, str(first), str(count), out] + self.args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode != 0:
                    raise RuntimeError("orsim %s: %s" % (prof, r.stdout[-300:]))
                with open(out + ".0.ndjson") as g:
                    shutil.copyfileobj(g, f)
                os.unlink(out + ".0.ndjson")

    def validate(self):
        self.lines = open(self.trace).read().splitlines()
        self.begins = [i for i, l in enumerate(self.lines) if '"e":"begin"' in l]
        self.runs = len(self.begins)
        self.events = len(self.lines)
        for l in self.lines:
            m = re.search(r'"e":"(\w+)"', l)
            if m:
                self.kinds[m.group(1)] = self.kinds.get(m.group(1), 0) + 1
        off, tries = 0, 0
        while off < len(self.lines):
            failed = self.tlc(off)
            if failed is None:
                return
            # The specification has no meaning for what the run did.
            b = [x for x in self.begins if x <= failed][-1]
            o = json.loads(self.lines[b])
            if not any(x[4] >= b for x in self.bad):
                self.bad.append(("SPEC", "outside_of_specification", o["prof"], o["seed"], failed))
            nxt = [x for x in self.begins if x > b]
            tries += 1
            if not nxt or tries > 4:
                return
            off = nxt[0]

    def tlc(self, off):
        """TLC over the lines from off on. None, or a line of the run where it failed."""
        path = self.trace
        if off:
            path = self.trace + ".tail"
            with open(path, "w") as f:
                f.write("\n".join(self.lines[off:]) + "\n")
        meta = os.path.join(self.tmp, "meta%d" % self.k)
        shutil.rmtree(meta, ignore_errors=True)
        env = dict(os.environ, TRACE=path)
        p = subprocess.Popen(["java", "-Djava.io.tmpdir=" + self.tmp, "-XX:+UseSerialGC", "-Xmx3g", "-Xss32m", "-cp", JAR, "tlc2.TLC", "-workers", "1", "-metadir", meta,
                              "-noGenerateSpecTE", "-config", *self.spec], cwd=SPEC, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        done, at, err = False, None, None
        for l in p.stdout:
            if l.startswith('<<"BAD"'):
                x = l.strip().strip("<>").replace('"', "").split(", ")
                self.bad.append((x[1], x[2], x[3], int(x[4]), off + int(x[5]) - 1))
            elif l.startswith('<<"RUN"'):
                at = off + int(l.strip().strip("<>").split(", ")[3]) - 1
            elif l.startswith('<<"DONE"'):
                done = True
            elif l.startswith("Error") or "OutOfMemory" in l or "StackOverflow" in l:
                err = l.strip()
                if "OutOfMemory" in l:
                    p.kill()
                    p.wait()
                    raise RuntimeError("TLC: " + l.strip())
                p.kill()
                break
            m = re.match(r"(\d+) states generated, (\d+) distinct states found, 0 states left", l)
            if m:
                self.gen += int(m.group(1))
                self.states += int(m.group(2))
        p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        if done:
            return None
        if err is None or at is None:
            raise RuntimeError("TLC ended without a result (code %s): %s" % (p.returncode, err))
        return at


class Models(threading.Thread):
    """TLC on the transition system of the rules, next to the traces (quick) or after them (thorough)."""

    def __init__(self, prop):
        super().__init__()
        self.names, self.res, self.err = MODELS.get(prop, ([], []))[0 if TIER == "quick" else 1], [], None

    def run(self):
        try:
            for n in self.names:
                c = mc.CONFIGS[n]
                if TIER == "quick":
                    r = mc.run(c, secs=30, workers=1, mem="2g")
                else:
                    r = mc.run(c, secs=int(os.environ.get("VERIF_MC_SECS", "600")), workers=8, mem="10g", seed=SEED, simulate=10 ** 9 if n in mc.WALKS else 0)
                if r["result"] in ("violated", "error"):
                    raise RuntimeError("model %s: %s %s\n%s" % (n, r["result"], r["violated"], r["out"][-1500:]))
                self.res.append(dict(config=n, constants=c, **{k: r[k] for k in ("result", "states", "distinct", "depth", "secs")}))
        except Exception as e:
            self.err = str(e)


def known():
    """Known findings: rule -> text."""
    out = {}
    for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
        m = re.match(r"known: property=(\w+) rule=(\S+) (.*)", l)
        if m:
            out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def counts_for(prop, rule, kf):
    p, r = rule
    if p == "SPEC":
        return True
    names = PROPS[prop][1] + ALWAYS
    return p in names or p + "." + r in names


def main():
    prop = sys.argv[1]
    if prop not in PROPS:
        die("unknown property " + prop)
    t0 = time.time()
    os.makedirs(EV, exist_ok=True)
    stores = prop in STORES
    orsim = build(stores=stores)
    tb = time.time()
    par = 8
    own, _ = PROPS[prop]
    total = int(os.environ.get("VERIF_RUNS", "1000" if TIER == "quick" else "20000")) * (3 if stores else 1)
    others = [p for p in ALL if p not in own and not stores]
    n_own = total * (7 if others else 10) // 10 // len(own)
    n_oth = total * 3 // 10 // len(others) if others else 0
    base = 100000 * (zlib.crc32(("%s/%d/%s" % (prop, SEED, TIER)).encode()) % 20000)
    tmp = os.path.join(TARGET, "tmp.%s.%d" % (prop, os.getpid()))
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    rounds = 1 if TIER == "quick" else max(1, total // 2000)
    shards = []
    models = Models(prop)
    try:
        if TIER == "quick":
            models.start()
        at = 0
        for rnd in range(rounds):
            batch = []
            for k in range(par):
                plan = []
                for p in own + others + EXTRA.get(prop, []):
                    n = (n_own if p in own else n_oth if p in others else 40) // rounds
                    lo, hi = n * k // par, n * (k + 1) // par
                    plan.append((p, base + at + lo, hi - lo))
                s = Shard(rnd * par + k, orsim, plan, tmp, stores=stores)
                s.start()
                batch.append(s)
            # The same with openraft's feature single-term-leader, on less.
            if prop not in NO_STD:
                plan = [(p, base + 50000 + at, max(1, total // 10 // rounds // len(own))) for p in own]
                s = Shard(1000 + rnd, None if rnd == 0 else os.path.join(TARGET, "std", "debug", "orsim"), plan, tmp, std=True)
                s.start()
                batch.append(s)
            for s in batch:
                s.join()
                if s.err:
                    die("shard %d: %s" % (s.k, s.err))
            shards += batch
            at += max(n_own, n_oth) // rounds + 1
            if rounds > 1:
                for s in batch:
                    if not any(counts_for(prop, b[:2], None) for b in s.bad):
                        os.unlink(s.trace)
                        s.lines = s.lines[:2000]
            if TIER != "quick" and time.time() - t0 > 3000:
                break
        if TIER != "quick":
            models.start()
        models.join()
        if models.err:
            die(models.err)
        sys.exit(report(prop, shards, t0, tb, base, models.res))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def report(prop, shards, t0, tb, base, models):
    kf = known()
    viol, seen_kf, other = [], {}, {}
    for s in shards:
        for b in s.bad:
            if b[0] == "TOOL":
                # A run that broke a rule before is not followed exactly any more.
                begin = max(x for x in s.begins if x <= b[4])
                if any(o[0] != "TOOL" and begin <= o[4] < b[4] for o in s.bad):
                    continue
                die("the recorded disk and the specification differ: %s %s %s" % (b[2], b[3], b[1]))
            if (b[0], b[1]) in kf:
                if b[0] == prop:
                    seen_kf.setdefault((b[0], b[1]), []).append((b[2], b[3]))
                continue
            if counts_for(prop, b[:2], kf):
                viol.append((b, s))
            else:
                other.setdefault(b[0] + "." + b[1], []).append([b[2], b[3], b[4] - max(x for x in s.begins if x <= b[4])])
    kinds = {}
    for s in shards:
        for k, v in s.kinds.items():
            kinds[k] = kinds.get(k, 0) + v
    runs = sum(s.runs for s in shards)
    samples = []
    for s in shards[:2]:
        for l in s.lines[:4] + [x for x in s.lines[4:400] if '"e":"ax"' in x or '"e":"vt"' in x][:6]:
            samples.append(l[:300])
    ev = {
        "property": prop, "tier": TIER, "seed": SEED, "level": "model_checking",
        "coverage": {
            "states": sum(s.states for s in shards), "transitions": sum(s.gen for s in shards), "traces_validated_against_impl": runs,
            "events": sum(s.events for s in shards), "events_by_kind": kinds, "profiles": {p: n for p, n in count_profiles(shards).items()},
            "first_seed": base, "rules_counted": PROPS[prop][1] + ALWAYS, "rules_broken_elsewhere": {k: {"runs": len(v), "first": v[0]} for k, v in other.items()}, "samples": samples,
            "model": models,
        },
        "assumptions": ["a crash ends a process at a write to a file or a sync of it; of the write-ahead log of rocksdb, what was not synced may be lost",
                        "rocksdb and sled themselves are trusted"] if prop in STORES else ["the harness (deterministic executor, storage, network) reports what it sees", "messages are not forged or altered",
                        "a storage keeps what it reported as flushed; an unflushed write of a leader that crashes survives (see known finding KF-1)"],
        "wall_s": round(time.time() - t0, 1), "violations": len(viol),
    }
    for (p, r), l in sorted(kf.items()):
        if p == prop:
            n = seen_kf.get((p, r), [])
            print("KNOWN-FINDING: property=%s %s [%s; %d runs here]" % (p, l, r, len(n)))
    rc = 0
    if viol:
        rc = 1
        d = os.path.join(EV, "replay")
        os.makedirs(d, exist_ok=True)
        byrule = {}
        for b, s in viol:
            byrule.setdefault(b[:2], []).append((b, s))
        first = None
        for rule, l in sorted(byrule.items(), key=lambda x: x[0]):
            b, s = l[0]
            lo = [x for x in s.begins if x <= b[4]][-1]
            path = os.path.join(d, "%s-%s-%s.%s-%d%s.ndjson" % (prop, b[2], b[0], b[1], b[3], "-std" if s.std else ""))
            hi = [x for x in s.begins if x > lo]
            with open(path, "w") as f:
                f.write("\n".join(s.lines[lo:(hi[0] if hi else len(s.lines))]) + "\n")
            print("  rule %s.%s broken in %d runs, first: profile %s seed %d%s event %d of the run: %s" % (b[0], b[1], len(l), b[2], b[3], " (single-term-leader)" if s.std else "", b[4] - lo, s.lines[b[4]][:300]))
            first = first or path
        print("VIOLATION property=%s replay=%s" % (prop, first), flush=True)
    ev["coverage"]["build_s"] = round(tb - t0, 1)
    json.dump(ev, open(os.path.join(EV, prop + ".json"), "w"), indent=1)
    print("%s %s: %d runs, %d events, %d violations, build %.0fs, total %.0fs" % (prop, TIER, runs, ev["coverage"]["events"], len(viol), tb - t0, time.time() - t0), flush=True)
    return rc


def count_profiles(shards):
    out = {}
    for s in shards:
        for p, _, n in s.plan:
            p = p + ".std" if s.std else p
            out[p] = out.get(p, 0) + n
    return out


if __name__ == "__main__":
    main()
