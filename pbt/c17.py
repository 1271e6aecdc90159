"""C17: propagation and removal of phase gates."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .c12 import Device
from .c16 import lines
from .core import Sub, require

LOCAL = ["r", "virtrz", "r", "virtrz", "rz", "z", "h", "x"]
ENT = ["csum", "cx", "cu_two", "ls"]


@st.composite
def case_(draw, kinds, p_run=0.65, nmax=12, mix=None):
    dims = list(draw(gen.dims_list(1, 4, 2, draw(st.sampled_from([3, 5, 8, 14])), 60)))
    gs = []
    n = draw(st.integers(1, nmax))
    while len(gs) < n:
        if draw(st.floats(0, 1)) < p_run:      # a run of rotations and phase gates on one qudit
            q = draw(st.integers(0, len(dims) - 1))
            for _ in range(draw(st.integers(1, 5))):
                g = draw(gen.gate([dims[q]], kinds, controls=False))
                g["t"] = [q]
                gs.append(g)
        else:
            gs.append(draw(gen.gate(dims, mix or (ENT + LOCAL), max_ctl=2, p_ctl=0.4)))
    return {"dims": dims, "gates": gs, "back": draw(st.booleans()), "again": draw(st.booleans())}


def device(dims):
    return Device([ph.make({"d": d, "edges": [[i, i + 1, 0, 1] for i in range(d - 1)], "map": list(range(d)), "init": [0], "phases": None}, i) for i, d in enumerate(dims)])


def snapshot(c):
    return [(id(g), g.qasm_tag, lines(g), np.array(g.to_matrix(0))) for g in c.instructions]


def same_snapshot(a, b):
    return len(a) == len(b) and all(x[:3] == y[:3] and gen.close(x[3], y[3], 0) for x, y in zip(a, b))


def phase_distance(a, b):
    """Distance of two operators up to a global phase."""
    t = np.vdot(b, a)
    f = t / abs(t) if abs(t) > 1e-9 else 1.0
    return float(np.max(np.abs(a - f * b)))


def check_propagate(case):
    from mqt.qudits.compiler.onedit import ZPropagationOptPass
    dims = case["dims"]
    c = gen.build(dims, case["gates"])
    before = snapshot(c)
    p = ZPropagationOptPass(backend=device(dims), back=case["back"])
    out = p.transpile(c)
    require(same_snapshot(before, snapshot(c)), "the pass changed the circuit it was given")
    require(list(out.dimensions) == list(dims) and out.number_gates == len(out.instructions), "bookkeeping of the new circuit is wrong")
    want = ref.action(case["gates"], dims)
    dist = phase_distance(ref.action(out.instructions, dims), want)
    require(dist < 1e-8, f"moving the phase gates {'backwards' if case['back'] else 'forwards'} changed the operator by {dist:.3g}")
    if case["again"]:
        second = ZPropagationOptPass(backend=device(dims), back=not case["back"]).transpile(out)
        dist = phase_distance(ref.action(second.instructions, dims), want)
        require(dist < 1e-8, f"moving the phase gates there and back changed the operator by {dist:.3g}")
    state = np.array(out.simulate()).reshape(-1)
    require(phase_distance(state, want[:, 0]) < 1e-7, "simulating the new circuit gives another state")
    tags = [g["g"] for g in case["gates"]]
    runs = any(a["g"] == "r" and b["g"] == "virtrz" or b["g"] == "r" and a["g"] == "virtrz" for a, b in zip(case["gates"], case["gates"][1:]) if a["t"] == b["t"])
    return runs, ("ent" if any(t in ENT or g["c"] for t, g in zip(tags, case["gates"])) else "local") + ("/back" if case["back"] else "/forth")


def check_remove(case):
    from mqt.qudits.compiler.onedit import ZRemovalOptPass
    dims = case["dims"]
    c = gen.build(dims, case["gates"])
    before = snapshot(c)
    out = ZRemovalOptPass(backend=device(dims)).transpile(c)
    require(same_snapshot(before, snapshot(c)), "the pass changed the circuit it was given")
    require(list(out.dimensions) == list(dims) and out.number_gates == len(out.instructions), "bookkeeping of the new circuit is wrong")
    want = np.abs(ref.action(case["gates"], dims)[:, 0]) ** 2
    got = np.abs(ref.action(out.instructions, dims)[:, 0]) ** 2
    require(gen.close(got, want, 1e-8), f"measurement probabilities changed by {np.max(np.abs(got - want)):.3g}")
    got = np.abs(np.array(out.simulate()).reshape(-1)) ** 2
    require(gen.close(got, want, 1e-7), "simulating the new circuit gives other probabilities")
    # what is missing are phase gates, the rest is kept in order on every line
    for q in range(len(dims)):
        rest = [s for s in snapshot(out) if q in s[2]]
        k = 0
        for s in [s for s in before if q in s[2]]:
            if k < len(rest) and s[1:3] == rest[k][1:3] and gen.close(s[3], rest[k][3], 1e-9):
                k += 1
            else:
                require(gen.close(s[3], np.diag(np.diag(s[3])), 1e-9), f"the pass dropped a gate {s[1]} on {s[2]}, which is no phase gate")
        require(k == len(rest), f"the gates on line {q} are no subsequence of the original ones")
    dropped = len(before) - len(out.instructions)
    return dropped > 0 and len(out.instructions) > 0, f"dropped{min(dropped, 5)}"


@st.composite
def ctl_case(draw):
    """Few gates on few qudits, mixing controlled phase gates with superpositions."""
    dims = list(draw(gen.dims_list(2, 3, 2, 4, 40)))
    gs = []
    for _ in range(draw(st.integers(2, 7))):
        if draw(st.booleans()):
            gs.append(draw(gen.gate(dims, ["h", "r", "h"], controls=False)))
        else:
            gs.append(draw(gen.gate(dims, ["virtrz", "rz", "z"], p_ctl=0.7, max_ctl=2)))
    return {"dims": dims, "gates": gs, "back": draw(st.booleans()), "again": False}


@st.composite
def ent_case(draw):
    """Phase gates before, between and after gates that mix several qudits, with superpositions next to them."""
    dims = list(draw(gen.dims_list(2, 4, 2, 4, 48)))
    gs = []
    for _ in range(draw(st.integers(1, 2))):
        gs += [draw(gen.gate(dims, ["virtrz", "rz", "z", "h"], controls=False)) for _ in range(draw(st.integers(0, 2)))]
        gs.append(draw(gen.gate(dims, ["cu_two", "ms", "cu_multi", "cu_two", "cu_one"], p_ctl=0.3, max_ctl=2)))
        gs += [draw(gen.gate(dims, ["virtrz", "rz", "z", "h", "r"], controls=False)) for _ in range(draw(st.integers(0, 4)))]
    return {"dims": dims, "gates": gs, "back": draw(st.booleans()), "again": False}


@st.composite
def wide(draw):
    """Up to twelve lines."""
    n = draw(st.integers(5, 12))
    dims = [2] * n
    if n < 11:
        dims[draw(st.integers(0, n - 1))] = 3
    gs = []
    for _ in range(draw(st.integers(3, 20))):
        if draw(st.integers(0, 2)) == 0:
            w = draw(st.integers(0, n - 5))
            g = draw(gen.gate(dims[w:w + 5], ["csum", "cx", "cu_two", "ls", "ms", "z", "h"], p_ctl=0.4, max_ctl=3))
            gs.append(dict(g, t=[q + w for q in g["t"]], c=[[q + w for q in g["c"][0]], g["c"][1]] if g["c"] else None))
        else:
            q = draw(st.integers(0, n - 1))
            for _ in range(draw(st.integers(1, 4))):
                gs.append(dict(draw(gen.gate([dims[q]], ["r", "virtrz", "rz", "virtrz", "h"], controls=False)), t=[q]))
    return {"dims": dims, "gates": gs, "back": draw(st.booleans()), "again": draw(st.booleans()), "remove": draw(st.booleans())}


SUBS = [
    Sub("wide", wide(), lambda c: check_remove(c) if c["remove"] else check_propagate(c), 150, 2500, "5 to 12 qudits, phase gates propagated or removed; non-trivial as for the other subs"),
    Sub("propagate", case_(["r", "virtrz"]), check_propagate, 400, 8000, "runs of rotations and virtual phase gates with entangling gates between them; non-trivial: a rotation next to a phase gate on the same qudit"),
    Sub("mixed", case_(LOCAL, 0.6), check_propagate, 300, 6000, "as before, with other local and controlled gates within the runs"),
    Sub("remove", case_(["virtrz", "rz", "z", "r"], 0.4, mix=[*ENT, "h", "h", "r", "virtrz", "rz", "z"]), check_remove, 500, 10000, "circuits with phase gates anywhere; non-trivial: a phase gate was dropped and a gate remains"),
    Sub("remove_ctl", ctl_case(), check_remove, 600, 10000, "controlled phase gates between superpositions; non-trivial: a phase gate was dropped and a gate remains"),
    Sub("remove_ent", ent_case(), check_remove, 500, 10000, "phase gates around gates that mix several qudits; non-trivial: a phase gate was dropped and a gate remains"),
]
