#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one check per property that has a harness."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
TECH = "symbolic execution of the Go SSA of the current source, path conditions and assertions decided by z3, counterexamples replayed on the real build"
NOTE = ("Holds for every value of the symbolic inputs within the bounds DESIGN.md states for this property; a run cut short by its time budget says so in the evidence. "
        "Trusted: the SSA interpreter and its models of fmt, strings, reflect, regexp, encoding/xml tokens and the file system (cross-checked on sampled paths against the compiled code on every run), and z3.")
NA = {
 "C23": "a loss-free round trip is a statement about programs that the generator emits, compiled and run by encoding/xml's reflection; that code does not exist in /repo when the check runs, so there is no source to encode. The parts of it that the generator decides are C01-C09, C17 and C20.",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(root, "harness", i + ".go")):
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check yet")})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: harnesses are overlaid on the package, /repo is never written to. known_findings.json lists known and fixed findings."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
