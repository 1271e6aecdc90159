"""C14: decomposition of two-qudit gates."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .core import Sub, require


def native(op, lines):
    """A single-qudit gate, or the native entangler on the two lines."""
    none = op.control_info["controls"] is None
    if isinstance(op.target_qudits, (int, np.integer)):
        return none and int(op.target_qudits) in lines
    return none and op.qasm_tag == "cx" and sorted(int(q) for q in op.target_qudits) == sorted(lines)


@st.composite
def two_gate(draw, dims, kinds=("csum", "cx", "ls", "ms", "cu_two", "ctl")):
    n = len(dims)
    k = draw(st.sampled_from(list(kinds)))
    if k == "ctl":
        a, b = draw(st.permutations(range(n)))[:2]
        one = draw(gen.gate([dims[a]], ["x", "z", "h", "r", "rz", "rh", "virtrz", "cu_one"], controls=False))
        return dict(one, t=[a], c=[[b], [draw(st.integers(0, dims[b] - 1))]])
    return draw(gen.gate(dims, [k], controls=False))


@st.composite
def case_(draw, max_total=36, extra=True):
    da = draw(st.integers(2, 6)); db = draw(st.integers(2, max(2, min(6, max_total // da))))
    dims = [da, db]
    if extra and draw(st.integers(0, 3)) == 0:
        dims.insert(draw(st.integers(0, 2)), draw(st.integers(2, 3)))
    return {"dims": dims, "gate": draw(two_gate(dims)), "via": draw(st.sampled_from(["pass", "pass", "class"]))}


@st.composite
def spread(draw):
    """Two lines of a register of four to six qudits, or one large qudit with a small one."""
    if draw(st.integers(0, 3)) == 0:
        dims = [draw(st.integers(7, 9)), draw(st.integers(2, 3))]
        dims = list(draw(st.permutations(dims)))
    else:
        dims = list(draw(gen.dims_list(4, 6, 2, 4, 200)))
        # at most 12 basis states on the two lines keep the sequences short
    s = draw(two_gate(dims).filter(lambda s: len(dims) == 2 or np.prod([dims[q] for q in lines_of(s)]) <= 9))
    return {"dims": dims, "gate": s, "via": draw(st.sampled_from(["pass", "pass", "class"]))}


def lines_of(s):
    return sorted(list(s["t"]) + (list(s["c"][0]) if s["c"] else []))


def check(case):
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    from mqt.qudits.compiler.twodit.entanglement_qr import EntangledQRCEX
    dims, s = case["dims"], case["gate"]
    c = gen.new_circuit(dims)
    gate = gen.add(c, s)
    u = ref.operator(s, dims)
    mat0, dag0, n0 = np.array(gate.to_matrix(0)), gate.dagger, len(c.instructions)
    if case["via"] == "pass":
        seq, want = LogEntQRCEXPass.transpile_gate(gate), u
    else:
        seq, a, b = EntangledQRCEX(gate).execute()
        want = u.conj().T
        require(a >= 0 and b >= 0 and (a + b > 0) == (len(seq) > 0), "the counted blocks do not fit the sequence")
    lines = lines_of(s)
    for op in seq:
        require(native(op, lines), f"the sequence contains {op.qasm_tag} on {op.target_qudits}, neither local nor the native entangler on {lines}")
    got = ref.action(seq, dims)
    dist = ref.phase_distance(got, want @ ref.probe(dims))
    require(dist < 2e-4 * len(u), f"the sequence differs from the gate by {dist:.3g}")
    require(len(c.instructions) == n0 and gate.dagger == dag0 and gen.close(np.array(gate.to_matrix(0)), mat0, 1e-12), "compiling changed the gate or its circuit")
    return len(seq) > 1, f"{s['g']}{'+ctl' if s['c'] else ''}/{dims[lines[0]]}x{dims[lines[1]]}"


@st.composite
def block(draw):
    dims = [draw(st.integers(2, 6)), draw(st.integers(2, 6))]
    n = dims[0] * dims[1]
    more = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(2, 3)), max_size=2)) if n <= 16 else []
    kind = draw(st.sampled_from(["crot", "pswap", "czrot", "czswap"]))
    if kind in ("pswap", "czswap"):
        i = draw(st.integers(1, dims[0] - 1)) * dims[1] - 1
    else:
        b = draw(st.integers(0, dims[0] - 1))
        i = b * dims[1] + draw(st.integers(0, dims[1] - 2))
    return {"dims": dims, "kind": kind, "i": i, "theta": draw(gen.angles()), "phi": draw(gen.angles()), "n": n, "more": [list(x) for x in more]}


def check_block(case):
    """Each block is the two-level rotation between neighbouring states of the product basis that it stands for."""
    from mqt.qudits.compiler.twodit.blocks.crot import CRotGen
    from mqt.qudits.compiler.twodit.blocks.czrot import CZRotGen
    from mqt.qudits.compiler.twodit.blocks.pswap import PSwapGen
    dims, i, th, phi, n = case["dims"], case["i"], case["theta"], case["phi"], case["n"]
    # further qudits before, between and after the two
    regs = [[d for w, d in case["more"] if w == j] for j in range(3)]
    full = [*regs[0], dims[0], *regs[1], dims[1], *regs[2]]
    at = [len(regs[0]), len(regs[0]) + 1 + len(regs[1])]
    c = gen.new_circuit(full)
    k = case["kind"]
    if k == "crot":
        seq, want = CRotGen(c, at).permute_crot_101_as_list(i, th, phi), ref.rmat(n, i, i + 1, th, phi)
    elif k == "pswap":
        seq, want = PSwapGen(c, at).permute_pswap_101_as_list(i, th, phi), ref.rmat(n, i, i + 1, th, phi)
    else:
        g = CZRotGen(c, at)
        seq = g.z_from_crot_101_list(i, th) if k == "czrot" else g.z_pswap_101_as_list(i, th)
        want = np.eye(n, dtype=complex)
        want[i, i], want[i + 1, i + 1] = np.exp(-0.5j * th), np.exp(0.5j * th)
    for op in seq:
        require(native(op, at), f"the block contains {op.qasm_tag} on {op.target_qudits}")
    require(len(c.instructions) == 0, "building a block added gates to the circuit")
    got = ref.objects_operator(seq, full)
    want = ref.apply(np.eye(int(np.prod(full)), dtype=complex), full, want, at)
    require(gen.close(got, want, 1e-6), f"block {k} at {i} of {dims} with angles {th:.4g}, {phi:.4g} differs from its definition by {np.max(np.abs(got - want)):.3g}")
    return abs(np.sin(th / 2)) > 1e-3, k


@st.composite
def circ(draw):
    dims = list(draw(gen.dims_list(2, 3, 2, 3, 18)))
    return {"dims": dims, "gates": draw(gen.gates(dims, 1, 4, p_ctl=0.2, max_ctl=1, max_multi=2))}


def check_circ(case):
    from mqt.qudits.compiler.twodit import LogEntQRCEXPass
    dims, gs = case["dims"], case["gates"]
    c = gen.build(dims, gs)
    out = LogEntQRCEXPass(None).transpile(c)
    require(len(c.instructions) == len(gs), "the pass changed the circuit it was given")
    two = [s for s in gs if len(lines_of(s)) == 2]
    for op in out.instructions:
        t = op.target_qudits
        many = len([t] if isinstance(t, int) else t) + (len(op.control_info["controls"].indices) if op.control_info["controls"] is not None else 0)
        require(many != 2 or op.qasm_tag in ("cx", "cumulti"), f"{op.qasm_tag} is left")
    dist = ref.phase_distance(ref.objects_operator(out.instructions, dims), ref.circuit_operator(gs, dims))
    require(dist < 2e-4 * np.prod(dims) * (len(two) + 1), f"the transpiled circuit differs from the original by {dist:.3g}")
    return len(two) > 0 and len(gs) > 1, f"{len(two)}two"


SUBS = [
    Sub("gate", case_(), check, 80, 3000, "any two-qudit gate up to 6x6; non-trivial: more than one operation"),
    Sub("spread", spread(), check, 60, 2000, "two lines of four to six qudits, or a qudit of seven to nine levels with a small one; same rule"),
    Sub("small", case_(12, False), check, 150, 5000, "same with at most 12 basis states"),
    Sub("block", block(), check_block, 400, 6000, "the building blocks; non-trivial: the rotation is not the identity"),
    Sub("circuit", circ(), check_circ, 50, 1500, "whole circuits; non-trivial: a two-qudit gate and a second gate"),
]
