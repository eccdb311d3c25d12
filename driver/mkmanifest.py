#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py (run by hand after a change there)."""
import json, os, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "driver"))
from props import PROPS, NOT_APPLICABLE
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE, text=True).stdout.split()
checks = []
for p in sorted(PROPS):
    c = PROPS[p]
    checks.append({
        "property": p,
        "quick_cmd": "./check.sh %s --tier quick" % p,
        "thorough_cmd": "./check.sh %s --tier thorough" % p,
        "evidence_file": "evidence/%s.json" % p,
        "technique": c.get("technique", "deductive verification (Verus) of contracts on the extracted functions; bounded conformance replay for inputs"
                           if c.get("proof") else "bounded stand-in (contracts pending)"),
        "level": c["level"],
        "level_note": c.get("note", ""),
    })
json.dump({
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(hop_verif)", "enable": "RUSTFLAGS=\"--cfg hop_verif\" (set by check.py when it builds harness/)", "source_commits": hooks},
    "checks": checks,
    "not_applicable": [{"property": k, "reason": v} for k, v in sorted(NOT_APPLICABLE.items())],
    "notes": "See DESIGN.md.",
}, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
