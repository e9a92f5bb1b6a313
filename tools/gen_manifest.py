#!/usr/bin/env python3
"""Writes MANIFEST.json. CLAIMED is kept by hand; a property outside it goes under not_applicable with its reason."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
MONITOR = "runtime monitoring: online reference-model oracle over generated executions of the real code (sharded, watchdogged)"
TECH = {
    "C18": "runtime monitoring: online checker comparing the inference with each register's own reader and plausibility check and with a reference model",
    "C20": "runtime monitoring: online oracle (independent CPR encoder, round trip and re-encoding residual) over generated position pairs",
    "C21": "runtime monitoring: online oracle (independent CPR encoder, round trip and re-encoding residual) over generated positions and references",
    "C22": "runtime monitoring: online oracle (independent CPR encoder, round trip and re-encoding residual) over generated surface pairs",
    "C23": "runtime monitoring: online oracle (independent great-circle computation and metric laws)",
    "C24": "runtime monitoring: totality monitor (panic, nil-contract, CPU and memory watchdog) over every public reader and accessor",
    "C25": "race detector (-race build) plus purity monitors (repeat, history, buffer canaries, aliasing scribble) over concurrent and sequential executions",
    "C26": "runtime monitoring: online checker of printed reports against the decoded values and a reference label table",
    "C27": "runtime monitoring: black-box trace checker of the built command-line tool against the library's answers",
    "C29": "runtime monitoring: heap, object, goroutine and descriptor accounting over thousands of distinct calls of each kind, growth confirmed over four rounds",
    "C28": "runtime monitoring: end-to-end simulation (independent encoders, lossy damaged channel, receiver threads) with an online oracle knowing the truth",
}
NOTE = {}
PENDING = {i: "check not built yet (work in progress)" for i in []}
checks, na = [], []
for i in ids:
    if i in PENDING:
        na.append({"property": i, "reason": PENDING[i]})
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i} quick",
        "thorough_cmd": f"bash check.sh {i} thorough",
        "technique": TECH.get(i, MONITOR),
        "level": "exploration",
        "level_note": NOTE.get(i, "Holds on every execution observed: directed enumeration of each field's codes and boundaries plus seeded random content; evidence lists the observation classes and counts."),
    })
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks: the monitors use only the public API and the built tool. Fix commits in /repo are listed in known_findings.json."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
