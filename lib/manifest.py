#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the job tables."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS
NA = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        assert i in NA, i
        continue
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} --tier quick",
        "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": "symbolic execution of the crate's LLVM IR, assertions decided by an SMT solver (z3)",
        "level": "model_checking",
        "level_note": "Holds for every value of the symbolic inputs, schedules and cut points within: " + CHECKS[i]["bounds"] + ". Nothing outside these bounds. Trusts rustc's LLVM IR, the executor in engine/, z3 and the model of the runtime in models/tokio (scheduler, timers, sockets); counterexamples and sampled paths are replayed against a native build.",
    })
m = {
    "version": 1,
    "setup_cmd": "cargo build --release --offline --quiet --manifest-path engine/Cargo.toml",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
    "notes": "See DESIGN.md. Checks build what they need under build/ (ignored by git) from /repo's current sources; /repo itself carries no hooks, only fix: commits (known_findings.txt).",
}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
