#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TECH = "TLA+ specification (spec/AbsVec.tla, TLC) + trace validation of histories enumerated by a deterministic scheduler on the real code"
NOTE = ("Every recorded execution of the property's programs on the real code must be a behaviour of the TLA+ specification; the specification and the algorithm model are model-checked for the property's invariants within small constants. "
        "Bounded: listed and seeded random programs, 2-5 threads, schedules enumerated up to 2-3 preemptions plus random ones; sequentially consistent interleavings with happens-before race detection. Trusted: TLC, the explorer's scheduler and value instrumentation.")
checks = [dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique=TECH, level="model_checking", level_note=NOTE) for p in props]
checks[-1].update(technique="TLA+ specification of ownership and sharing (spec/Share.tla): TLC enumerates what can be misused; conformance: the compiler's answers for every public type (probe/)",
    level_note="Exhaustive over 13 parts of the crate x share/send x 4 kinds of element types x 3 storages. Which methods are reachable through a part is written in the specification by hand. Trusted: TLC, rustc.")
PROOF = (" Two parts of the algorithm model are proved for any number of threads and calls: Growth.tla (reserve, permit, enlarge, write, len; GrowthProof.tla) and Locks.tla (ordered locking; LocksProof.tla), with TLAPS.")
for c in checks:
    if c["property"] in ("C01", "C02", "C03", "C05", "C06", "C07", "C08", "C12", "C13", "C14"): c["level_note"] += PROOF
    if c["property"] == "C10": c["level_note"] += " What the caller can still hold when the values end: spec/Borrow.tla, 752 questions to the borrow checker."
m = dict(version=1, setup_cmd="bash harness/build.sh", checks=checks,
         not_applicable=[],
         notes="No hooks in /repo: the explorer compiles /repo and its orx-* dependencies against a stand-in for core::sync::atomic (harness/vshim).")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
