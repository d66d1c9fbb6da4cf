#!/usr/bin/env python3
"""developer tool: rewrites MANIFEST.json from proofmap.py"""
import json
from proofmap import LEVEL, NOTE, NOT_APPLICABLE, THEOREMS
checks = []
for p in sorted(LEVEL):
    checks.append({
        "property": p,
        "quick_cmd": f"python3 check.py {p}",
        "thorough_cmd": f"python3 check.py {p} --tier thorough",
        "evidence_file": f"evidence/{p}.json",
        "technique": "contract-based deductive verification (Verus) of the functions extracted from /repo on every run",
        "level": LEVEL[p],
        "level_note": NOTE[p],
        **({"theorems": THEOREMS[p]} if p in THEOREMS else {}),
    })
m = {
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "No hooks: /repo carries only fix: commits. See DESIGN.md.",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
