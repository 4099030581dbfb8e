#!/usr/bin/env python3
import json, os, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from checks import CHECKS
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        C = CHECKS[i]
        specs = sorted({j.get("spec", C.get("spec")) for j in C["jobs"]})
        mods = sorted({m["module"] for m in C.get("models", [])})
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "level": "model_checking",
                       "technique": "TLA+/TLC: trace validation of recorded executions of the real code against %s%s" %
                       (", ".join(s + ".tla" for s in specs), ("; exhaustive model checking of " + ", ".join(m + ".tla" for m in mods)) if mods else ""),
                       "level_note": C.get("note", "Every recorded call of the real code must be a step of the TLA+ specification with the recorded "
                       "results; exhaustive only over the executions generated (seeded random histories over the listed configurations) and, for the "
                       "design models, over their small constants. Trusts TLC, the compiler and the recording drivers.")})
    else:
        na.append({"property": i, "reason": "no check registered yet (work in progress)"})
man = {"version": 1, "setup_cmd": "python3 -m py_compile check.py checks.py && java -version && g++ --version",
       "checks": checks, "not_applicable": na,
       "notes": "No hooks in /repo: all observation goes through the public interface, instrumented element types and link-time wrapping of pthread calls. "
                "Commits in /repo starting with fix: repair defects found by the checks (see known_findings.json)."}
json.dump(man, open(R + "/MANIFEST.json", "w"), indent=1)
