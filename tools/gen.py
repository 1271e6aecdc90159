#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""
import json, pathlib
ROOT = pathlib.Path(__file__).resolve().parent.parent
Q = "src/mqt/qudits/"

P = []
def prop(id, title, statement, over, text, why, files, mech, observe, technique=None, note=None, claimed=True):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=dict(files=[f if f.startswith(("include", "src/python")) else Q + f for f in files],
                  mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe),
                  _tech=technique, _note=note, _claimed=claimed))

exec((ROOT / "tools" / "props.py").read_text())
exec((ROOT / "tools" / "claims.py").read_text())

with (ROOT / "properties.jsonl").open("w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

man = dict(version=1, setup_cmd="bash setup.sh", checks=[], not_applicable=[],
  notes="All checks are property-based / model-based generated-input searches; see DESIGN.md. "
        "No hooks in /repo. known_findings.json lists defects recorded or repaired.")
for p in P:
    if p["id"] in CLAIMS:
        p["_tech"], p["_note"] = CLAIMS[p["id"]]
        man["checks"].append(dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick",
            thorough_cmd=f"bash check.sh {p['id']} thorough", technique=p["_tech"], level="exploration", level_note=p["_note"]))
    else:
        man["not_applicable"].append(dict(property=p["id"], reason="check not built yet"))
(ROOT / "MANIFEST.json").write_text(json.dumps(man, indent=1) + "\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
