#!/usr/bin/env python3
"""Writes checks.json (what check.py needs per property) and MANIFEST.json."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULE = ("each run is generated from mix(property, VERIF_SEED, index); a run counts as non-trivial when it executed "
        "at least one check of this property after at least one state-changing step; distinct = distinct FNV-1a hash of the complete "
        "event log (operations, arguments, observed values, injected faults)")
DDREAL = ["dd::Package", "unique/compute tables", "memory managers", "number tables", "reference counting and collection", "dd::Edge/Node/normalisation"]
HEAP = ["heap (operator new/malloc arena: placement, reuse order and fill bytes decided by the seed)"]
NOTE = "seeded simulation of histories with injected faults; samples histories, exhausts nothing"
C = {}
def c(pid, quick, thorough, **k):
    d = dict(variant="main", quick=quick, thorough=thorough, level="exploration", rule=RULE, quick_s=60, thorough_s=600, note=NOTE)
    d.update(k); C[pid] = d
exec(open(os.path.join(V, "tools", "checkdefs.py")).read())
json.dump(C, open(os.path.join(V, "checks.json"), "w"), indent=1)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p["id"], "reason": NA[p["id"]]} for p in props if p["id"] not in C]
checks = [{"property": k, "quick_cmd": f"python3 check.py {k} quick", "thorough_cmd": f"python3 check.py {k} thorough",
           "technique": "deterministic simulation with fault injection: " + d["technique"], "level": d["level"], "level_note": d["note"]}
          for k, d in sorted(C.items())]
man = {"version": 1, "setup_cmd": "python3 tools/build.py main >/dev/null" + (" && python3 tools/build.py cov >/dev/null" if any(d["variant"] == "cov" for d in C.values()) else ""),
       "hooks": {"guard": "MQT_VERIF_SIM", "enable": "the simulator is compiled with -DMQT_VERIF_SIM from /repo's sources by tools/build.py; no hook was needed in /repo, every seam is interposed at link time or through public API", "source_commits": []},
       "checks": checks, "not_applicable": na}
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed", sorted(C), "n/a", [x["property"] for x in na])
