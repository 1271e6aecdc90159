#!/usr/bin/env python3
"""Writes known_findings.json (run after commits in /repo): open findings, and one 'fixed:' line per fix commit."""
import json, pathlib, subprocess, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
FIXED = {}   # subject of the fix commit (without "fix: ") -> (property, what failed)
OPEN = []    # dict(property, id, sub, case, what)
exec((ROOT / "tools" / "findings_src.py").read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%H %s"], capture_output=True, text=True, check=True).stdout
fixed, seen = [], set()
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    seen.add(s)
    if s not in FIXED:
        sys.exit(f"no entry for fix commit: {s}")
    prop, what = FIXED[s]
    fixed.append(f"fixed: property={prop} {h[:12]} {what}")
gone = set(FIXED) - seen
if gone:
    sys.exit(f"entries without commit: {gone}")
(ROOT / "known_findings.json").write_text(json.dumps({"findings": [dict(o, status="open") for o in OPEN], "fixed": fixed}, indent=1) + "\n")
print(len(OPEN), "open,", len(fixed), "fixed")
