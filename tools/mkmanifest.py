#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the checks present."""
import json
import os

V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
    "C80": "pure formulae evaluated along one solution: no schedule, clock, I/O, randomness or fault can change whether they hold",
    "C81": "pure functions of arrays: nothing for a simulator to schedule or to fail",
    "C82": "pure functions of a state: nothing for a simulator to schedule or to fail",
    "C83": "needs files of the older released versions as inputs; only a few exist, and which file is read is the only variable, no schedule or fault",
    "C84": "algebraic identity between formulae: nothing for a simulator to schedule or to fail",
}
TECH = "deterministic simulation with fault injection (seeded search over schedules and faults, replayable tape)"
NOTE = ("Seeded random exploration of simulated executions of the real commands; no alarm means no violation in the runs "
        "listed in the evidence, not a proof. Trusts the simulator's stand-ins (process pool, clock, random source, scripted "
        "CVODE results where a scenario says so) and the oracle, which is written against the property, not the code. ")
EXTRA = {}
with open(os.path.join(V, "tools", "notes.json"), encoding="utf-8") as f:
    EXTRA = json.load(f)
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"), encoding="utf-8")]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "dst", "props", i.lower() + ".py")):
        checks.append({
            "property": i, "quick_cmd": f"./check {i} quick",
            "thorough_cmd": f"./check {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": TECH, "level": "exploration",
            "level_note": NOTE + EXTRA.get(i, ""),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "none", "enable": "no hooks: /repo is used as it is; every seam is at a library boundary (see DESIGN.md)", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "Python sources of /repo are imported from /repo/src as they are, nothing is built. "
             "Replay a violation with ./check ID --replay FILE. Known findings and fixed defects: known_findings.json.",
}
with open(os.path.join(V, "MANIFEST.json"), "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "checks,", len(na), "not applicable")
