"""C12: physical compilation of local gates."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .core import Slow, Sub, require, soft_limit

KINDS = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "pm", "cu_one"]


class Device:
    """Stands for a backend: the passes use its level graphs only."""

    def __init__(self, graphs):
        self.energy_level_graphs = graphs


@st.composite
def case_(draw, dmax, kinds=("qr",), sparse_from=99):
    n = draw(st.integers(1, 2))
    dims = [draw(st.integers(2, dmax)) for _ in range(n)]
    q = draw(st.integers(0, n - 1))
    if draw(st.booleans()):
        ks = ["block", "givens", "perm", "pperm", "diag", "clifdiag", "id", "tiny"] + ([] if dims[q] >= sparse_from else ["haar", "fourier", "real", "near_id"])
        g = {"g": "cu_one", "t": [q], "p": draw(gen.unitary_spec(ks)), "c": None, "dag": draw(st.booleans())}
    else:
        ks = [k for k in KINDS if k != "cu_one"] if dims[q] < sparse_from else ["x", "z", "r", "rz", "rh", "virtrz", "pm"]
        g = draw(gen.gate(dims, [k for k in ks if k != "s" or gen.is_prime(dims[q])], controls=False, tmap=None))
        g = dict(g, t=[q]) if dims[g["t"][0]] == dims[q] else g
        q = g["t"][0]
    return {"dims": dims, "gate": g, "kind": draw(st.sampled_from(list(kinds))),
            "graphs": [draw(ph.graph_spec(d, phases=True)) for d in dims]}


def check(case):
    from mqt.qudits.compiler.onedit.mapping_aware_transpilation import PhyAdaptiveDecomposition, PhyLocAdaPass, PhyLocQRPass, PhyQrDecomp
    dims, g, kind = case["dims"], case["gate"], case["kind"]
    c = gen.new_circuit(dims)
    gate = gen.add(c, g)
    q = g["t"][0]
    d = dims[q]
    u = ref.matrix(g, dims)
    graphs = [ph.make(s, i, c) for i, s in enumerate(case["graphs"])]
    before = [(ph.placement(x), ph.phases(x).tolist()) for x in graphs]
    start = ph.log_to_phys(graphs[q])
    edges = ph.physical_edges(graphs[q])
    dev = Device(graphs)
    tag0, dag0, mat0, n0 = gate.qasm_tag, gate.dagger, np.array(gate.to_matrix(0)), len(c.instructions)
    label = f"{kind}/d{d}/{'phases' if case['graphs'][q]['phases'] else 'clean'}"
    try:
        with soft_limit(6):
            if kind == "qr":
                seq = PhyLocQRPass(dev).transpile_gate(gate)
            elif kind in ("ada", "adaz"):
                seq = PhyLocAdaPass(dev, kind == "adaz").transpile_gate(gate)
            elif kind == "qrdec":
                seq, alg_cost, cost = PhyQrDecomp(gate, dev.energy_level_graphs[q], not_stand_alone=False).execute()
                require(alg_cost >= 0 and cost >= 0, "negative cost")
            elif kind == "adadec":
                _, a, b = PhyQrDecomp(gate, graphs[q]).execute()
                require([(ph.placement(x), np.mod(ph.phases(x) + 1e-9, 2 * np.pi).round(6).tolist()) for x in graphs]
                        == [(p, np.mod(np.array(f) + 1e-9, 2 * np.pi).round(6).tolist()) for p, f in before], "a stand-alone QR estimate changed the level graph")
                seq, best, dev.energy_level_graphs[q] = PhyAdaptiveDecomposition(gate, graphs[q], (a, b), d, z_prop=True).execute()
                require(best[1] <= b + 1e-9, f"adaptive sequence costs {best[1]}, above the limit {b}")
            else:
                raise AssertionError(kind)
    except Slow:
        return False, label + "/undecided"
    out = dev.energy_level_graphs[q]
    ph.structure_unchanged(out, case["graphs"][q], q)
    ph.check_pulses(seq, q, edges)
    end = ph.log_to_phys(out)
    if kind in ("qr", "ada", "qrdec"):
        require(not np.any(np.abs(np.mod(ph.phases(out) + 1e-9, 2 * np.pi)) > 1e-6), "phases stay in the level graph although they were to be emitted")
    if kind in ("qr", "qrdec"):
        require(ph.placement(out) == before[q][0], "the QR decomposition changed the placement of levels")
    for i, x in enumerate(dev.energy_level_graphs):
        require(i == q or (ph.placement(x), ph.phases(x).tolist()) == before[i], "the level graph of another qudit changed")
    want = end @ (u if kind in ("qr", "ada", "adaz") else u.conj().T) @ start.conj().T
    dist = ref.phase_distance(ph.product(seq, d), want)
    require(dist < 3e-4 * d, f"the sequence differs from the gate under the reported placement by {dist:.3g}")
    require(gate.dagger == dag0 and gate.qasm_tag == tag0 and len(c.instructions) == n0 and gen.close(np.array(gate.to_matrix(0)), mat0, 1e-12), "compiling changed the gate or its circuit")
    nontrivial = ref.phase_distance(u, np.diag(np.diag(u)) + 0j) > 1e-3 and len(seq) > 1
    return nontrivial, label


@st.composite
def chain(draw):
    """Several gates on the same device, compiled one after the other with phase propagation."""
    d = draw(st.integers(2, 4))
    ks = ["block", "givens", "perm", "pperm", "diag", "clifdiag", "tiny"] + (["haar"] if d < 4 else [])
    n = draw(st.integers(2, 5))
    return {"d": d, "graph": draw(ph.graph_spec(d, phases=True)),
            "gates": [draw(gen.unitary_spec(ks)) for _ in range(n)], "how": draw(st.lists(st.sampled_from(["qr", "ada", "adaz", "adaz"]), min_size=n, max_size=n))}


def check_chain(case):
    from mqt.qudits.compiler.onedit.mapping_aware_transpilation import PhyLocAdaPass, PhyLocQRPass
    d = case["d"]
    c = gen.new_circuit([d])
    dev = Device([ph.make(case["graph"], 0, c)])
    start, edges = ph.log_to_phys(dev.energy_level_graphs[0]), ph.physical_edges(dev.energy_level_graphs[0])
    total, seq = np.eye(d, dtype=complex), []
    for s, how in zip(case["gates"], case["how"]):
        u = ref.unitary(s, d)
        g = c.cu_one(0, u)
        p = PhyLocQRPass(dev) if how == "qr" else PhyLocAdaPass(dev, how == "adaz")
        try:
            with soft_limit(2):
                seq += p.transpile_gate(g)
        except Slow:
            return False, "undecided"
        total = u @ total
    out = dev.energy_level_graphs[0]
    ph.structure_unchanged(out, case["graph"], 0)
    ph.check_pulses(seq, 0, edges)
    dist = ref.phase_distance(ph.product(seq, d), ph.log_to_phys(out) @ total @ start.conj().T)
    require(dist < 3e-4 * d * len(case["gates"]), f"the compiled sequence of {len(case['gates'])} gates differs from their product under the reported placement by {dist:.3g}")
    return ph.placement(out) != case["graph"]["map"] or np.any(ph.phases(out) != 0), f"d{d}"


@st.composite
def circuit_case(draw):
    """Whole circuits: local gates on several qudits with gates on two qudits in between, which stay."""
    dims = draw(gen.dims_list(1, 3, 2, 5, 60))
    gs = []
    for _ in range(draw(st.integers(1, 7))):
        if len(dims) > 1 and draw(st.integers(0, 3)) == 0:
            gs.append(draw(gen.gate(dims, ["cx", "ls", "ms", "cu_two"], controls=draw(st.booleans()))))
        else:
            q = draw(st.integers(0, len(dims) - 1))
            ks = ["block", "givens", "perm", "diag", "tiny"] + (["haar"] if dims[q] < 4 else [])
            g = draw(gen.gate([dims[q]], ["x", "z", "r", "rz", "virtrz", "pm", *(["h", "rh"] if dims[q] < 4 else [])], controls=False)) if draw(st.booleans()) \
                else {"g": "cu_one", "t": [0], "p": draw(gen.unitary_spec(ks)), "c": None, "dag": draw(st.booleans())}
            gs.append(dict(g, t=[q]))
    return {"dims": dims, "gates": gs, "how": draw(st.sampled_from(["qr", "ada", "adaz"])), "graphs": [draw(ph.graph_spec(d, phases=True)) for d in dims]}


def check_circuit(case):
    from mqt.qudits.compiler.onedit.mapping_aware_transpilation import PhyLocAdaPass, PhyLocQRPass
    from .c16 import lines
    from .c17 import same_snapshot, snapshot
    dims = case["dims"]
    c = gen.build(dims, case["gates"])
    before = snapshot(c)
    dev = Device([ph.make(s, i, c) for i, s in enumerate(case["graphs"])])
    graphs0 = list(dev.energy_level_graphs)
    start, edges = [ph.log_to_phys(g) for g in graphs0], [ph.physical_edges(g) for g in graphs0]
    p = PhyLocQRPass(dev) if case["how"] == "qr" else PhyLocAdaPass(dev, case["how"] == "adaz")
    try:
        with soft_limit(6):
            out = p.transpile(c)
    except Slow:
        return False, "undecided"
    require(same_snapshot(before, snapshot(c)), "transpiling changed the circuit that was given")
    require(out is not c and list(out.dimensions) == dims and out.number_gates == len(out.instructions), "bookkeeping of the new circuit is wrong")
    single = [len(lines(g)) == 1 for g in c.instructions]
    kept = [g for g, one in zip(c.instructions, single) if not one]
    new_kept = [g for g in out.instructions if len(lines(g)) > 1]
    require(len(kept) == len(new_kept) and all(a.qasm_tag == b.qasm_tag and lines(a) == lines(b) and gen.close(np.array(a.to_matrix(0)), np.array(b.to_matrix(0)), 1e-12)
            for a, b in zip(kept, new_kept)), "gates on two qudits were changed, lost or reordered")
    moved = False
    for q, d in enumerate(dims):
        g1 = dev.energy_level_graphs[q]
        ph.structure_unchanged(g1, case["graphs"][q], q)
        # the gates of the circuit and of the result on this qudit, cut where a gate on two qudits acts on it
        want, seqs = [np.eye(d, dtype=complex)], [[]]
        for spec, g, one in zip(case["gates"], c.instructions, single):
            if q in lines(g):
                if one:
                    want[-1] = ref.matrix(spec, dims) @ want[-1]
                else:
                    want.append(np.eye(d, dtype=complex))
        for g in out.instructions:
            if q in lines(g):
                if len(lines(g)) == 1:
                    seqs[-1].append(g)
                else:
                    seqs.append([])
        for s in seqs:
            ph.check_pulses(s, q, edges[q])
        end, n = ph.log_to_phys(g1), len(case["gates"])
        moved = moved or ph.placement(g1) != case["graphs"][q]["map"]
        if case["how"] == "qr":
            require(ph.placement(g1) == case["graphs"][q]["map"], "the QR decomposition changed the placement of levels")
            require(len(want) == len(seqs), "a gate on two qudits moved")
            place = np.abs(end).round()
            for k, (w, s) in enumerate(zip(want, seqs)):
                if not s:
                    require(ref.phase_distance(w, np.eye(d)) < 3e-4 * d * n, f"the local gates on qudit {q} in part {k} are lost")
                    continue
                # stored phases are emitted with the first gate of a qudit
                first = all(not t for t in seqs[:k])
                dist = ref.phase_distance(ph.product(s, d), place @ w @ (start[q] if first else place).conj().T)
                require(dist < 3e-4 * d * n, f"the local gates on qudit {q} in part {k} differ from those of the circuit by {dist:.3g}")
        else:
            tot = np.eye(d, dtype=complex)
            for w in want:
                tot = w @ tot
            touched = any(one and lines(g) == [q] for g, one in zip(c.instructions, single))
            if not touched:
                require(not any(seqs), f"local operations on qudit {q}, which has none")
                continue
            dist = ref.phase_distance(ph.product([g for s in seqs for g in s], d), end @ tot @ start[q].conj().T)
            require(dist < 3e-4 * d * n, f"the local operations on qudit {q} differ from those of the circuit under the reported placement by {dist:.3g}")
    return (sum(single) > 1 and len(kept) > 0) or moved, f"{case['how']}/{len(dims)}/{'kept' if kept else 'local'}"


SUBS = [
    Sub("qr", case_(8, ("qr", "qr", "qrdec")), check, 900, 12000, "any gate on any structure up to 8 levels; non-trivial: the gate is not diagonal and needs more than one operation"),
    Sub("adaptive", case_(5, ("ada", "adaz", "adadec"), sparse_from=4), check, 900, 9000, "adaptive search, sparse gates from 4 levels on; same rule; searches above 6 s count as undecided"),
    Sub("chain", chain(), check_chain, 350, 6000, "several gates compiled on one device; non-trivial: the placement or the stored phases changed"),
    Sub("circuit", circuit_case(), check_circuit, 160, 4000, "whole circuits through the passes; non-trivial: several local gates and a gate that stays, or the placement changed"),
]
