#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json for the properties that check.py decides."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import check
T = "TLA+ specification checked with TLC; traces of the real code under simulated schedules, faults and crashes validated against it by TLC"
NOTE = ("Every event of seeded runs of the real code (deterministic executor, storage and network of the harness) is checked by TLC to be a "
        "step of the specification; holds for the runs explored, not for all. Trusted: harness recording, TLC. Messages are not forged; flushed data survives.")
STORES_T = "TLA+ specification of a store checked with TLC against traces of the bundled stores, driven through the storage traits with crashes at writes and syncs"
STORES_NOTE = ("Every operation and every state read back in seeded runs of the stores (crashes at file writes and syncs, loss of unsynced write-ahead log) is checked by TLC "
               "against spec/OrStore.tla; holds for the runs explored, not for all. Trusted: recording, TLC, rocksdb and sled themselves.")
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p in check.PROPS:
        checks.append(dict(property=p, quick_cmd="python3 check.py " + p, thorough_cmd="VERIF_TIER=thorough python3 check.py " + p,
                           evidence_file="evidence/%s.json" % p, technique=STORES_T if p in check.STORES else T, level="model_checking", level_note=STORES_NOTE if p in check.STORES else NOTE))
m = dict(version=1, setup_cmd="bash setup.sh", hooks=dict(guard="none", enable="no hooks: the harness uses the public API of openraft only", source_commits=[]),
         checks=checks, not_applicable=[dict(property=p, reason="no check yet") for p in props if p not in check.PROPS],
         notes="See DESIGN.md. KNOWN_FINDINGS.txt lists findings and repairs.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
