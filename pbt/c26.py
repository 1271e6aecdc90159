"""C26: the printed drawing of a circuit shows its gates."""
from __future__ import annotations
import contextlib, io, math, re
from hypothesis import strategies as st
from . import gen
from .core import Sub, require

CELL = re.compile(r"--(MG|G|\[CuOne\]|\[VRz\d+\(-?[\d.]+\)\]|\[R\d+\(-?[\d.]+,-?[\d.]+\)\])--")
VRZ = re.compile(r"\[VRz(\d+)\((-?[\d.]+)\)\]$")
ROT = re.compile(r"\[R(\d+)\((-?[\d.]+),(-?[\d.]+)\)\]$")


@st.composite
def circuit(draw):
    dims = list(draw(gen.dims_list(1, 6, 2, 12, 3000)))
    kinds = draw(st.sampled_from([None, ["r", "virtrz", "cu_one", "h"], ["r", "virtrz", "cu_one"], ["r", "rh", "rz", "virtrz", "noisex", "noisez", "h", "x", "cu_one", "pm"]]))
    gates = draw(gen.gates(dims, 0, 14, max_multi=3) if kinds is None else gen.gates(dims, 0, 14, kinds=kinds, p_ctl=0.15))
    split = draw(st.integers(0, len(dims)))
    return {"dims": dims, "gates": gates, "split": split, "reuse": draw(st.integers(0, 3))}


def near(shown, angle, period):
    x = math.remainder(float(shown) - angle, period)
    return abs(x) <= 0.00501


def check_drawing(case):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.visualisation.drawing_routines import draw_qudit_local
    dims, k = case["dims"], case["split"]
    c = QuantumCircuit()
    for name, part in (("a", dims[:k]), ("b", dims[k:])):
        if part:
            c.append(QuantumRegister(name, len(part), list(part)))
    specs = list(case["gates"])
    for s in specs:
        gen.add(c, s)
    objs = list(c.instructions)
    if objs and case["reuse"] == 1:          # the same object at a second place
        c.set_instructions([*objs, objs[0]])
        specs.append(specs[0])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        draw_qudit_local(c)
    require(len(c.instructions) == len(specs) and all(a is b for a, b in zip(c.instructions, objs)), "drawing changed the circuit")
    rows = out.getvalue().splitlines()
    require(len(rows) == len(dims), f"{len(rows)} rows are drawn for {len(dims)} qudits")
    labels = set()
    for line, row in enumerate(rows):
        m = re.match(r"\|0>---(.*)---=\|\|$", row)
        require(m is not None, f"row {line} is not a line from its initial state to its measurement: {row!r}")
        cells, pos = [], 0
        while pos < len(m.group(1)):
            x = CELL.match(m.group(1), pos)
            require(x is not None, f"row {line} has something else than a gate at {m.group(1)[pos:pos + 20]!r}")
            cells.append(x.group(1))
            pos = x.end()
        require(len(cells) == len(specs), f"row {line} shows {len(cells)} of {len(specs)} gates")
        for i, (cell, s) in enumerate(zip(cells, specs)):
            if s["t"] != [line] or (s.get("c") and s["c"][0]):
                require(cell == "MG", f"gate {i} ({s['g']} on {s['t']}) is drawn as {cell} on line {line}")
            elif s["g"] in ("virtrz", "noisez"):
                x = VRZ.match(cell)
                lev, phi = (s["p"][0], s["p"][1]) if s["g"] == "virtrz" else (s["p"][0], math.pi)
                require(x is not None and int(x.group(1)) == lev and near(x.group(2), phi, 2 * math.pi), f"the phase {phi} on level {lev} is drawn as {cell}")
                labels.add("phase")
            elif s["g"] == "r":
                x = ROT.match(cell)
                a, b = sorted(s["p"][:2])
                require(x is not None and x.group(1) == f"{a}{b}" and near(x.group(2), s["p"][2], 4 * math.pi) and near(x.group(3), s["p"][3], 2 * math.pi),
                        f"the rotation {s['p']} is drawn as {cell}")
                labels.add("rotation")
            elif s["g"] == "cu_one":
                require(cell == "[CuOne]", f"the own gate is drawn as {cell}")
                labels.add("own")
            else:
                require(cell == "G", f"{s['g']} is drawn as {cell}")
                labels.add("other")
    return len(specs) >= 2 and len(labels) >= 2, "+".join(sorted(labels)) or "plain"


SUBS = [Sub("drawing", circuit(), check_drawing, 600, 6000, "circuits of up to six qudits and fourteen gates of all kinds; non-trivial: two kinds of local gates shown")]
