#!/usr/bin/env python3
"""Writes MANIFEST.json from jobs.py and properties.jsonl (run after tools/mkprops.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from jobs import CHECKS, NOT_APPLICABLE
props = [json.loads(l) for l in open(ROOT + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            technique="symbolic execution of the rustc LLVM IR of the real code, path conditions and assertions decided by Z3 (QF_BV); counterexamples replayed natively",
            level="model_checking",
            level_note="Exhaustive over all symbolic values within: " + CHECKS[i]["bounds"] + " Beyond these bounds nothing is claimed. Trusts rustc, the executor (cross-checked natively on sampled paths on every run) and Z3."))
    else:
        na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check yet (work in progress).")))
json.dump(dict(version=1, setup_cmd="cd engine && cargo build --release --offline", checks=checks, not_applicable=na), open(ROOT + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
