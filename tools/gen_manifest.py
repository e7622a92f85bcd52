#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from plan.py and properties.jsonl."""
import json, os, subprocess, sys
sys.path.insert(0, "/verif")
from plan import PLAN, NOTES, NOT_APPLICABLE
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
TECH = {"spawn": "exhaustive enumeration of bounded operation histories on actors spawned onto each real runtime",
        "seq": "explicit-state exploration of all operation/poll sequences of the real code up to a depth, against a reference model",
        "conc": "stateless model checking of the real code: exhaustive preemption-bounded thread schedules under a controlled scheduler",
        "instr": "exhaustive enumeration of bounded instrumented executions with a recording subscriber",
        "derive": "exhaustive enumeration of derive input shapes, compiled and executed"}
m = {
    "version": 1,
    "setup_cmd": "python3 /verif/setup.py",
    "hooks": {"guard": "cfg(xtra_mc)", "enable": "RUSTFLAGS=--cfg xtra_mc (set by check.py when it builds mc/conc, whose Cargo.toml patches the crate spin with a shim)", "source_commits": hooks},
    "checks": [],
    "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in PLAN:
        m["checks"].append({
            "property": i,
            "quick_cmd": f"python3 /verif/check.py {i} quick",
            "thorough_cmd": f"python3 /verif/check.py {i} thorough",
            "technique": "model checking: " + "; ".join(TECH[k] for k in PLAN[i]),
            "level": "model_checking",
            "level_note": NOTES.get(i, "bounded: exhaustive within the depths, alphabets and preemption bounds reported in the evidence file"),
        })
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE[i]})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
