"""C13: logical decomposition of local gates."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .c12 import Device, case_ as phys_case
from .core import Slow, Sub, require, soft_limit


def check(case):
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass
    from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_adaptive_decomp import LogAdaptiveDecomposition
    from mqt.qudits.compiler.onedit.mapping_un_aware_transpilation.log_local_qr_decomp import QrDecomp
    dims, g, kind = case["dims"], case["gate"], case["kind"]
    if kind != "qr":
        case["graphs"] = [dict(s, phases=None) for s in case["graphs"]]
    c = gen.new_circuit(dims)
    gate = gen.add(c, g)
    q = g["t"][0]
    d = dims[q]
    u = ref.matrix(g, dims)
    graphs = [ph.make(s, i, c) for i, s in enumerate(case["graphs"])]
    owed = np.diag(np.exp(-1j * ph.phases(graphs[q])))
    dev = Device(list(graphs))
    mat0, n0 = np.array(gate.to_matrix(0)), len(c.instructions)
    label = f"{kind}/d{d}"
    try:
        with soft_limit(5):
            if kind == "qr":
                seq = LogLocQRPass(dev).transpile_gate(gate)
            elif kind == "ada":
                seq = LogLocAdaPass(dev).transpile_gate(gate)
            elif kind == "qrdec":
                seq, _a, _b = QrDecomp(gate, graphs[q]).execute()
            else:
                _, a, b = QrDecomp(gate, graphs[q]).execute()
                seq, best, _g = LogAdaptiveDecomposition(gate, graphs[q], (a, b), d).execute()
                require(best[1] <= b + 1e-9, "the adaptive sequence costs more than the limit")
    except Slow:
        return False, label + "/undecided"
    every = {frozenset((i, j)) for i in range(d) for j in range(i)}
    ph.check_pulses(seq, q, every)
    want = u if kind in ("qr", "ada") else u.conj().T
    dist = ref.phase_distance(ph.product(seq, d), want @ owed)
    require(dist < 3e-4 * d, f"the sequence differs from the gate by {dist:.3g}")
    require(len(dev.energy_level_graphs) == len(graphs) and all(x is not None for x in dev.energy_level_graphs), "the level graphs of the device are gone")
    for i, s in enumerate(case["graphs"]):
        out = dev.energy_level_graphs[i]
        ph.structure_unchanged(out, s, i)
        require(ph.placement(out) == s["map"], "a logical decomposition changed the placement of levels")
    require(not np.any(np.abs(ph.phases(dev.energy_level_graphs[q])) > 1e-6), "stored phases stay in the level graph although they were emitted")
    require(len(c.instructions) == n0 and gen.close(np.array(gate.to_matrix(0)), mat0, 1e-12), "compiling changed the gate or its circuit")
    return ref.phase_distance(u, np.diag(np.diag(u)) + 0j) > 1e-3 and len(seq) > 1, label


@st.composite
def circ(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 3, 2, 4, 40), gen.dims_list(1, 3, 2, 4, 40), gen.dims_list(4, 6, 2, 4, 250))))
    return {"dims": dims, "gates": draw(gen.gates(dims, 1, 6, p_ctl=0.15, max_ctl=2)), "which": draw(st.sampled_from(["qr", "qr", "ada"])),
            "graphs": [dict(draw(ph.graph_spec(d)), phases=None) for d in dims]}


def check_circ(case):
    """Decomposing the local gates of a whole circuit leaves its operator and the other gates alone."""
    from mqt.qudits.compiler.onedit import LogLocAdaPass, LogLocQRPass
    dims, gs = case["dims"], case["gates"]
    c = gen.build(dims, gs)
    dev = Device([ph.make(s, i, c) for i, s in enumerate(case["graphs"])])
    p = (LogLocQRPass if case["which"] == "qr" else LogLocAdaPass)(dev)
    try:
        with soft_limit(5):
            out = p.transpile(c)
    except Slow:
        return False, "undecided"
    require(len(c.instructions) == len(gs), "the pass changed the circuit it was given")
    local = [s for s in gs if len(s["t"]) == 1 and not s["c"]]
    kept = [g for g in out.instructions if not (isinstance(g.target_qudits, int) and g.control_info["controls"] is None)]
    require(len(kept) == len(gs) - len(local), f"{len(kept)} of {len(gs) - len(local)} entangling gates are left")
    dist = ref.phase_distance(ref.action(out.instructions, dims), ref.action(gs, dims))
    require(dist < 3e-4 * np.prod(dims) * (len(local) + 1), f"the transpiled circuit differs from the original by {dist:.3g}")
    return len(local) > 0 and len(gs) > 1, case["which"]


SUBS = [
    Sub("qr", phys_case(8, ("qr", "qr", "qrdec")), check, 900, 12000, "any gate up to 8 levels; non-trivial: not diagonal and more than one operation"),
    Sub("adaptive", phys_case(5, ("ada", "ada", "adadec"), sparse_from=4), check, 600, 8000, "adaptive search; same rule; searches above 5 s count as undecided"),
    Sub("circuit", circ(), check_circ, 150, 2500, "whole circuits; non-trivial: at least one local gate and two gates"),
]
