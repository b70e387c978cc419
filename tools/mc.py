#!/usr/bin/env python3
"""Model checking of spec/OrMC.tla with TLC.

mc.py NAME [--secs S] [--workers W] [--simulate N]   one configuration
mc.py --all SECS [--workers W]                        every configuration, SECS seconds each
mc.py --bites [--workers W]                           drop local rules one by one: a derived rule or an invariant must break

A configuration is finished ("complete") or stopped at its time limit ("partial": breadth first, so everything
up to the depth printed was seen).
"""
import sys, os, re, subprocess, tempfile, shutil, json, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def cfg(nodes=3, term=2, len=3, crash=0, wal=0, voters=None, changes="NoChanges", snap=0, read=0, led=False, std=False):
    return dict(nodes=nodes, term=term, len=len, crash=crash, wal=wal, voters=voters or list(range(1, nodes + 1)),
                changes=changes, snap=snap, read=read, led=led, std=std)

CONFIGS = {
    # exhaustive in seconds
    "tinyled": cfg(term=2, len=2, led=True),
    "tiny":    cfg(nodes=2, term=2, len=2, crash=1, wal=1),
    "tinystd":  cfg(term=1, len=2, std=True),
    "stdled":  cfg(term=2, len=2, led=True, std=True),
    "tinysnap": cfg(nodes=2, term=1, len=3, snap=1, wal=1),
    "tinylog": cfg(nodes=2, term=2, len=3, led=True),
    "tinyread": cfg(nodes=2, term=2, len=2, read=1, led=True),
    "tinymem": cfg(nodes=2, term=2, len=3, voters=[1], changes="ReplaceAny"),
    # larger: breadth first within a time limit
    "log":     cfg(term=2, len=3),
    "crash":   cfg(term=2, len=3, crash=1, wal=1),
    "member":  cfg(term=2, len=3, voters=[1, 2], changes="ReplaceAny"),
    "member4": cfg(nodes=4, term=2, len=4, voters=[1, 2, 3], changes="AddOrRemove"),
    "snap":    cfg(term=2, len=3, snap=1),
    "read":    cfg(term=2, len=2, read=1),
    # random walks through these
    "ledlog":  cfg(term=3, len=3, led=True),
    "ledcrash": cfg(term=2, len=3, crash=1, wal=1, led=True),
    "ledread": cfg(term=2, len=3, read=1, led=True),
    "ledmem":  cfg(term=2, len=4, voters=[1, 2], changes="ReplaceAny", led=True),
    "ledsnap": cfg(term=2, len=3, snap=1, led=True),
    "big":     cfg(term=4, len=5, crash=2, wal=2, snap=2, read=2),
    "bigmem":  cfg(nodes=4, term=4, len=6, crash=1, wal=1, snap=1, read=1, voters=[1, 2], changes="ReplaceAny"),
    "ledwalk": cfg(term=3, len=4, crash=1, wal=1, snap=1, read=1, led=True),
    "walk":    cfg(term=3, len=4, crash=1, wal=1, snap=1, read=1),
}
WALKS = ("big", "bigmem", "walk", "ledwalk")
INV = "NoDerivedBroken ElectionSafety LeaderCompleteness LogMatching StateMachineSafety CommittedSurvives"

# Local rules that carry the global properties: (rules dropped, configuration to see it in, seconds)
BITES = [
    ("P01.claim_quorum", "tinyled"), ("P02.vote_grows", "tinyled"), ("P02.grant_needs_log_up_to_date", "tinyled"),
    ("P02.grant_durable", "ledcrash"), ("P06.ack_log_durable", "walk"),
    ("P07.commit_by_quorum", "tinyled"), ("P08.one_change_at_a_time", "bigmem"),
    ("P11.purges_behind_snapshot", "walk"), ("P12.read_confirms_leadership", "ledread"),
    ("P03.truncates_conflicting_only", "tinyled"), ("P01.only_voters_campaign", "ledmem"),
    ("P01.claims_current_vote", "tinyled"), ("P01.follows_claimed_leader", "tinyled"),
]

def store(ops=3, term=2, index=2, crash=1, disk=False):
    return dict(kind="store", term=term, index=index, ops=ops, crash=crash, disk=disk)

# spec/OrStoreMC.tla: a store that does as spec/OrStore.tla asks, and one with something left out.
CONFIGS.update({
    "storetiny": store(), "storedisktiny": store(disk=True),
    "store": store(ops=5), "storedisk": store(ops=5, disk=True), "store2": store(ops=5, crash=2), "storebig": store(ops=6, index=3, crash=2),
})
STORE_BITES = [(b, "store") for b in ("vote_nosync", "append_nosync", "trunc_nosync", "install_nosync", "purge_first", "builder_old")] + [
    (b, "storedisk") for b in ("apply_nosync", "install_split", "builder_old")]

def run(c, secs=60, workers=4, simulate=0, relaxed="{}", seed=None, mem="6g", bug="none"):
    d = tempfile.mkdtemp(prefix="ormc.")
    try:
        if c.get("kind") == "store":
            for f in ("OrStore.tla", "OrStoreMC.tla"):
                shutil.copy(os.path.join(HERE, "spec", f), d)
            open(d + "/MC.tla", "w").write("---- MODULE MC ----\nEXTENDS OrStoreMC\n====\n")
            open(d + "/MC.cfg", "w").write(
                "CONSTANTS\n  MaxTerm = %d\n  MaxIndex = %d\n  MaxOps = %d\n  MaxCrash = %d\n  OnDisk = %s\n  Bug = \"%s\"\n"
                "SPECIFICATION Spec\nINVARIANTS NoRuleBroken Looks\nCHECK_DEADLOCK FALSE\n" % (
                    c["term"], c["index"], c["ops"], c["crash"], str(c["disk"]).upper(), bug))
            return tlc(d, secs, workers, simulate, seed, mem)
        for f in ("OrBase.tla", "OrSpec.tla", "OrMC.tla"):
            shutil.copy(os.path.join(HERE, "spec", f), d)
        open(d + "/MC.tla", "w").write("---- MODULE MC ----\nEXTENDS OrMC\nMCRelaxed == %s\n====\n" % relaxed)
        st = lambda q: "{" + ", ".join(map(str, q)) + "}"
        open(d + "/MC.cfg", "w").write(
            "CONSTANTS\n  Nodes = %s\n  MaxTerm = %d\n  MaxLen = %d\n  MaxCrash = %d\n  MaxWal = %d\n  InitVoters = %s\n"
            "  Changes <- %s\n  MaxSnap = %d\n  MaxRead = %d\n  Led = %s\n  Std = %s\n  Relaxed <- MCRelaxed\nSPECIFICATION Spec\nVIEW View\n"
            "INVARIANTS %s\nCHECK_DEADLOCK FALSE\n" % (
                st(range(1, c["nodes"] + 1)), c["term"], c["len"], c["crash"], c["wal"], st(c["voters"]), c["changes"],
                c["snap"], c["read"], str(c["led"]).upper(), str(c["std"]).upper(), INV))
        return tlc(d, secs, workers, simulate, seed, mem)
    finally:
        shutil.rmtree(d, ignore_errors=True)

def tlc(d, secs, workers, simulate, seed, mem):
    cmd = ["timeout", str(secs), "java", "-Djava.io.tmpdir=" + d, "-XX:+UseParallelGC", "-Xmx" + mem, "-Xss32m", "-cp", JAR, "tlc2.TLC",
           "-workers", str(workers), "-metadir", d + "/m", "-noGenerateSpecTE", "-config", "MC.cfg"]
    if simulate:
        cmd += ["-simulate", "num=%d" % simulate, "-depth", "80"]
        if seed is not None:
            cmd += ["-seed", str(seed)]
    cmd += ["MC.tla"]
    t0 = time.time()
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = p.stdout
    r = dict(secs=round(time.time() - t0), result="partial", states=0, distinct=0, depth=0, violated="")
    m = re.search(r"Invariant (\w+) is violated", out)
    if m:
        r["result"] = "violated"; r["violated"] = m.group(1)
        q = re.findall(r"viol = (\{.*?\})", out, re.S)
        r["rules"] = q[-1].replace("\n", " ") if q else ""
    elif "No error has been found" in out or (simulate and "The number of states generated" in out and p.returncode == 0):
        r["result"] = "complete"
    elif p.returncode not in (0, 124):
        r["result"] = "error"
    for a, b, g in re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found()", out):
        r["states"] = int(a.replace(",", "")); r["distinct"] = int(b.replace(",", ""))
    for a in re.findall(r"Progress\((\d+)\)", out) + re.findall(r"depth of the complete state graph search is (\d+)", out):
        r["depth"] = int(a)
    for a in re.findall(r"Progress: ([\d,]+) states checked", out) + re.findall(r"The number of states generated: ([\d,]+)", out):
        r["states"] = int(a.replace(",", ""))
    r["out"] = out
    return r

def rules(names):
    return "{" + ", ".join('<<"%s", "%s">>' % tuple(x.split(".")) for x in names.split("+")) + "}"

def show(n, r):
    print(n, {k: v for k, v in r.items() if k != "out"}, flush=True)
    if r["result"] in ("violated", "error"):
        f = "/tmp/ormc.%s.out" % n.replace("/", "_")
        open(f, "w").write(r["out"])
        print("  full output:", f, flush=True)

def main():
    a = sys.argv[1:]
    def opt(n, d):
        return type(d)(a[a.index(n) + 1]) if n in a else d
    w = opt("--workers", 4)
    if "--bites" in a:
        only = opt("--only", "")
        bad = 0
        for (b, c) in STORE_BITES:
            if only and only not in b:
                continue
            x = run(CONFIGS[c], secs=opt("--secs", 240), workers=w, bug=b)
            print(b, c, {k: v for k, v in x.items() if k != "out"}, flush=True)
            bad += x["result"] != "violated"
        for (r, c) in BITES:
            if only and only not in r:
                continue
            x = run(CONFIGS[c], secs=opt("--secs", 240), workers=w, simulate=100000000 if c in WALKS else 0, relaxed=rules(r))
            print(r, c, {k: v for k, v in x.items() if k != "out"}, flush=True)
            bad += x["result"] != "violated"
        sys.exit(1 if bad else 0)
    if "--all" in a:
        bad = 0
        for n, c in CONFIGS.items():
            sim = 100000000 if n in WALKS else 0
            x = run(c, secs=opt("--all", 60), workers=w, simulate=sim)
            show(n, x)
            bad += x["result"] in ("violated", "error")
        sys.exit(1 if bad else 0)
    n = a[0]
    x = run(CONFIGS[n], secs=opt("--secs", 60), workers=w, simulate=opt("--simulate", 0))
    show(n, x)
    sys.exit(1 if x["result"] in ("violated", "error") else 0)

if __name__ == "__main__":
    main()
