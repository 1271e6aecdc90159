"""C16: local resynthesis and lanes."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .c12 import Device
from .core import Sub, require


def lines(g) -> list[int]:
    t = g.target_qudits
    out = [int(t)] if isinstance(t, (int, np.integer)) else [int(q) for q in t]
    data = g.control_info["controls"]
    return out + (list(data.indices) if data is not None else [])


@st.composite
def case_(draw, max_total=60, nmax=10):
    dims = list(draw(st.one_of(gen.dims_list(1, 4, 2, 5, max_total), gen.dims_list(1, 4, 2, 5, max_total), gen.dims_list(1, 2, 6, 14, 200))))
    gs = draw(gen.gates(dims, 0, nmax, p_ctl=0.15, max_ctl=2))
    # runs of local gates are what this is about
    n = draw(st.integers(0, 6))
    for _ in range(n):
        gs.insert(draw(st.integers(0, len(gs))), draw(gen.gate(dims, ["h", "r", "rz", "virtrz", "x", "cu_one"], controls=False)))
    return {"dims": dims, "gates": gs, "repeat": draw(st.integers(0, 4)) == 0}


def build(case):
    c = gen.build(case["dims"], case["gates"])
    gs = case["gates"]
    if case["repeat"] and gs:      # the same gate object may occur more than once in a circuit
        c.set_instructions([*c.instructions, *c.instructions])
        gs = gs + gs
    return c, gs


def check(case):
    from mqt.qudits.compiler.naive_local_resynth import NaiveLocResynthOptPass
    dims = case["dims"]
    c, gs = build(case)
    old = list(c.instructions)
    graphs = [ph.make({"d": d, "edges": [[i, i + 1, 0, 1] for i in range(d - 1)], "map": list(range(d)), "init": [0], "phases": None}, i) for i, d in enumerate(dims)]
    out = NaiveLocResynthOptPass(Device(graphs)).transpile(c)
    new = list(out.instructions)
    require(len(c.instructions) == len(old) and all(a is b for a, b in zip(c.instructions, old)), "the pass changed the circuit it was given")
    require(list(out.dimensions) == list(dims) and out.number_gates == len(new), "bookkeeping of the new circuit is wrong")
    ent_old = [g for g in old if len(lines(g)) > 1]
    ent_new = [g for g in new if len(lines(g)) > 1]
    require(len(ent_old) == len(ent_new) and all(a.qasm_tag == b.qasm_tag and lines(a) == lines(b) for a, b in zip(ent_old, ent_new)), "entangling gates were lost or reordered")
    last = {}
    for g in new:
        ls = lines(g)
        if len(ls) == 1:
            require(last.get(ls[0]) != "local", f"two neighbouring local gates on line {ls[0]} remain")
            last[ls[0]] = "local"
        else:
            for q in ls:
                last[q] = "ent"
    got, want = ref.action(new, dims), ref.action(gs, dims)
    require(gen.close(got, want, 1e-8), f"the operator of the circuit changed by {np.max(np.abs(got - want)):.3g}")
    require(gen.close(np.array(out.simulate()).reshape(-1), want[:, 0], 1e-7), "simulating the new circuit gives another state")
    return len(new) < len(old) and len(ent_old) > 0, f"{len(dims)}q/{'rep' if case['repeat'] else 'once'}"


def check_lanes(case):
    from mqt.qudits.core.lanes import Lanes
    dims = case["dims"]
    c, gs = build(case)
    old = list(c.instructions)
    lanes = Lanes(c)
    for q in range(len(dims)):
        want = [g for g in old if q in lines(g)]
        if want:
            got = lanes.extract_lane(q)
            require(len(got) == len(want) and all(a is b for a, b in zip(got, want)), f"lane {q} does not hold the gates on line {q} in their order")
    out = lanes.extract_instructions()
    require(sorted(map(id, out)) == sorted(map(id, old)), "reassembling the lanes lost or invented gates")
    for q in range(len(dims)):
        a, b = [id(g) for g in out if q in lines(g)], [id(g) for g in old if q in lines(g)]
        require(a == b, f"reassembling the lanes changed the order of gates on line {q}")
    require(gen.close(ref.action(out, dims), ref.action(gs, dims), 1e-8), "the reassembled circuit has another operator")
    if not case["repeat"]:
        for i, g in enumerate(old):
            if len(lines(g)) == 1:
                nxt = next((h for h in old[i + 1:] if lines(g)[0] in lines(h)), None)
                want = nxt is not None and len(lines(nxt)) == 1
                require(bool(lanes.next_is_local(g)) == want, f"next_is_local of gate {i} is {not want}")
    require(len(c.instructions) == len(old), "splitting into lanes changed the circuit")
    return len(old) > 2 and any(len(lines(g)) > 1 for g in old), f"{len(dims)}q"


@st.composite
def replace_case(draw):
    dims = list(draw(gen.dims_list(1, 3, 2, 4, 40)))
    gs = draw(gen.gates(dims, 2, 8, p_ctl=0))
    q = draw(st.integers(0, len(dims) - 1))
    a = draw(st.integers(0, 7)); b = draw(st.integers(0, 7))
    return {"dims": dims, "gates": gs, "line": q, "a": min(a, b), "b": max(a, b), "new": draw(gen.unitary_spec())}


def check_replace(case):
    """Replacing an interval of local gates in a lane by one gate, against a list model."""
    from mqt.qudits.core.lanes import Lanes
    from mqt.qudits.quantum_circuit.gates import CustomOne
    dims, q, a, b = case["dims"], case["line"], case["a"], case["b"]
    c = gen.build(dims, case["gates"])
    lanes = Lanes(c)
    lane = [g for g in c.instructions if q in lines(g)]
    if a >= len(lane) or any(len(lines(g)) > 1 for g in lane[a:b + 1]):
        return False, "skipped"
    new = CustomOne(c, "CUm", q, ref.unitary(case["new"], dims[q]), dims[q])
    lanes.replace_gates_in_lane(q, a, b, new)
    want = [*lane[:a], new, *lane[b + 1:]]
    got = lanes.extract_lane(q)
    require(len(got) == len(want) and all(x is y for x, y in zip(got, want)), "replacing an interval of a lane gave another lane")
    gone = {id(g) for g in lane[a:b + 1]}
    model = []
    for g in c.instructions:
        if g is lane[a]:
            model.append(new)
        elif id(g) not in gone:
            model.append(g)
    got = lanes.extract_instructions()
    require(sorted(map(id, got)) == sorted(map(id, model)), "gates were lost when the lanes were reassembled")
    require(gen.close(ref.action(got, dims), ref.action(model, dims), 1e-8), "the reassembled circuit has another operator than the model")
    return b > a, f"{b - a + 1}"


@st.composite
def wide(draw):
    """More qudits than digits: up to twelve lines, gates on several qudits close together."""
    n = draw(st.integers(5, 12))
    dims = [2] * n
    for _ in range(draw(st.integers(0, 2)) if n < 10 else 0):
        dims[draw(st.integers(0, n - 1))] = 3
    gs = []
    for _ in range(draw(st.integers(3, 30))):
        if draw(st.integers(0, 2)) == 0:
            w = draw(st.integers(0, n - 5))
            g = draw(gen.gate(dims[w:w + 5], ["csum", "cx", "cu_two", "ls", "ms", "cu_multi", "x", "h"], p_ctl=0.5, max_ctl=3, max_multi=3))
            gs.append(dict(g, t=[q + w for q in g["t"]], c=[[q + w for q in g["c"][0]], g["c"][1]] if g["c"] else None))
        else:
            gs.append(draw(gen.gate(dims, ["h", "r", "rz", "virtrz", "x", "cu_one"], controls=False)))
    return {"dims": dims, "gates": gs, "repeat": draw(st.integers(0, 9)) == 0}


SUBS = [
    Sub("wide", wide(), lambda c: check(c) if len(c["gates"]) % 2 else check_lanes(c), 150, 2500, "5 to 12 qudits, fused or split into lanes; non-trivial as for the other two"),
    Sub("resynth", case_(), check, 400, 8000, "random circuits with runs of local gates; non-trivial: gates were fused and an entangling gate is present"),
    Sub("lanes", case_(), check_lanes, 400, 8000, "lanes of random circuits; non-trivial: more than two gates, at least one entangling"),
    Sub("replace", replace_case(), check_replace, 300, 4000, "replacing an interval of a lane; non-trivial: more than one gate replaced"),
]
