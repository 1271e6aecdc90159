"""mkseed.py ID PROPERTY 'needs' 'breaks' < [[file, old, new], ...]: write seeded/ID/patch.diff and meta.json (demo by hand). Works on a scratch clone of /repo."""
import json, os, subprocess, sys, tempfile
sid, prop, needs, breaks = sys.argv[1:5]
edits = json.load(sys.stdin)
d = f"/verif/seeded/{sid}"; os.makedirs(d, exist_ok=True)
with tempfile.TemporaryDirectory() as t:
    subprocess.run(["git", "clone", "-q", "/repo", t + "/r"], check=True)
    for f, old, new in edits:
        p = f"{t}/r/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, old, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", t + "/r", "diff"], capture_output=True, text=True).stdout
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('#!/bin/bash\nMPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
