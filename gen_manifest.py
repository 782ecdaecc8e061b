#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl."""
import json, os
import jobs
d = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(d, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in jobs.PROPS:
        na.append({"property": i, "reason": "not checked yet: its harness is being written"})
        continue
    q = jobs.PROPS[i]
    checks.append({
        "property": i,
        "quick_cmd": f"python3 check.py {i} quick",
        "thorough_cmd": f"python3 check.py {i} thorough",
        "technique": "symbolic execution of the crate's LLVM IR, SMT-decided assertions against a reference model",
        "level": "other",
        "level_note": "Bounded solver-based verification: decided by SMT solving (own bit-blaster and z3) for all values of the symbolic inputs. Bounds: " + q.bounds +
                      ". Outside: " + q.outside + ". Trusted: " + "; ".join(jobs.ASSUME + q.assume) + ".",
    })
m = {"version": 1, "setup_cmd": "cd engine && cargo build --release --offline --quiet && ./target/release/symir --selftest",
     "checks": checks, "not_applicable": na,
     "notes": "No hooks: every property is decided through the public API. /repo carries fix: commits only (see KNOWN_FINDINGS.md)."}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
