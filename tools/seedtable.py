"""seedtable.py : rewrite the table of planted changes in DESIGN.md (between the two markers)."""
import json, os, re
CAUGHT = {
"control-overlap-unsorted": "refuse", "draw-multi-as-local": "drawing", "ctl-level-digits": "all", "classic-offset": "history", "csum7-adjoint": "run", "ls-six-levels": "matrix", "instruction-alias": "history",
"qasm-measure-offset": "memory, adjoint", "qasm-two-digit-index": "malformed", "noise-share-by-widest": "frequency, single",
"noise-outside-levels": "structure, frequency, single", "noise-skips-adjoint": "structure", "odd-shots": "ideal, noisy, saving",
"tnsim-stale-program": "twins_tn", "dfs-third-child": "history, large", "dfs-depth-first-child": "history, large", "ptrace-four-kept": "trace",
"density-ten-outcomes": "density", "remap-three-qudits": "map, plot", "verifier-real-part": "verify, self", "pswap-qubit-target": "gate, small, block",
"state-tree-four-branches": "exact, approx", "adaptive-phase-level": "adaptive, chain", "ansatz-ls-second-qutrit": "ansatz",
"adjoint-of-near-hermitian": "echo", "control-order": "embed", "idle-control": "state", "identity-runs": "resynth", "phase-through-control-line": "remove, remove_ent",
"pending-over-entangler": "cex", "edge-data-of-first": "queries, route", "propagate-sixth-level": "propagate, mixed", "adaptive-ground-phase": "adaptive, circuit",
"state-reduced-last": "exact", "qasm-precision": "memory, files", "dd-noise-three-qudits": "certain", "dd-sum-weight": "crowd",
}
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| planted change | property | needs | caught by |", "|---|---|---|---|"]
metas = sorted(((json.load(open(f"{here}/seeded/{s}/meta.json")), s) for s in os.listdir(here + "/seeded")), key=lambda t: (t[0]["property"], t[1]))
for m, s in metas:
    rows.append(f"| {s} | {m['property']} | {m['needs']} | {CAUGHT.get(s, '**missed**')} |")
p = here + "/DESIGN.md"; t = open(p).read()
t = re.sub(r"(<!-- seeds -->\n).*?(<!-- /seeds -->)", lambda m: m[1] + "\n".join(rows) + "\n" + m[2], t, flags=re.S)
open(p, "w").write(t)
