"""C25: the verifier of decompositions and the reference simulations used with it."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .core import Sub, require

LOCAL = ["r", "rz", "virtrz", "h", "x", "z", "rh", "cu_one", "pm", "s"]
TWO = ["csum", "cx", "ls", "ms", "cu_two"]
LIMIT = 1e-4        # the verifier's tolerance on each entry


@st.composite
def case_(draw):
    two = draw(st.integers(0, 3)) == 0
    dims = [draw(st.integers(2, 3)), draw(st.integers(2, 3))] if two else [draw(st.integers(2, 6))]
    d = int(np.prod(dims))
    kinds = TWO if two else LOCAL
    gs = [draw(gen.gate(dims, kinds, controls=False)) for _ in range(draw(st.integers(0, 6)))]
    return {"dims": dims, "gates": gs, "placed": draw(st.integers(0, 2)) > 0, "nodes": list(draw(st.permutations(range(d)))) if draw(st.booleans()) else list(range(d)),
            "first": list(draw(st.permutations(range(d)))), "last": list(draw(st.permutations(range(d)))),
            "phase": draw(st.one_of(st.just(0.0), gen.angles())),
            "spoil": draw(st.sampled_from([None, None, "small", "tiny", "phase", "swap", "adjoint", "drop", "placement", "level", "transpose"])),
            "amount": draw(st.sampled_from([1e-5, 1e-3, 0.01, 0.1, 1.0, 3.0])), "s": draw(gen.seeds()), "i": draw(st.integers(0, 5))}


def placement(nodes, mapping):
    """|mapping[i]><nodes[i]|"""
    p = np.zeros((len(nodes), len(nodes)))
    for a, b in zip(nodes, mapping):
        p[b, a] = 1
    return p


def distance(w):
    """Largest entry of w - e^{ia}, for the best phase."""
    t = np.trace(w)
    f = t / abs(t) if abs(t) > 1e-12 else 1.0
    return float(np.max(np.abs(w - f * np.eye(len(w)))))


def check_verify(case):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import UnitaryVerifier
    dims = case["dims"]
    d = int(np.prod(dims))
    rng = np.random.default_rng([31, case["s"]])
    c = gen.new_circuit(dims)
    seq = [gen.add(c, g) for g in case["gates"]]
    u = ref.circuit_operator(case["gates"], dims)
    nodes, first, last = (case["nodes"], case["first"], case["last"]) if case["placed"] else (None, None, None)
    p0 = placement(nodes, first) if nodes else np.eye(d)
    p1 = placement(nodes, last) if nodes else np.eye(d)
    # the target that the sequence undoes: seq . p0 . target = e^{ia} p1
    t = np.exp(1j * case["phase"]) * p0.T @ u.conj().T @ p1
    how, eps = case["spoil"], case["amount"]
    if how in ("small", "tiny"):
        h = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        t = t @ ref.expi(h + h.conj().T, eps if how == "small" else 1e-7)
    elif how == "phase":        # one level gets another phase
        t = t @ np.diag([np.exp(1j * eps) if k == case["i"] % d else 1 for k in range(d)])
    elif how == "swap":
        perm = np.arange(d)
        a, b = case["i"] % d, (case["i"] + 1) % d
        perm[[a, b]] = perm[[b, a]]
        t = t[:, perm]
    elif how == "adjoint":
        t = t.conj().T
    elif how == "transpose":
        t = t.T
    elif how == "drop" and seq:
        seq.pop(case["i"] % len(seq))
    elif how == "placement" and nodes:
        last = [last[-1], *last[:-1]]
    elif how == "level":
        k = case["i"] % d
        t = t @ np.diag([-1.0 if j == k else 1 for j in range(d)])
    lines = list(range(len(dims)))
    cc = gen.new_circuit(dims)
    target = cc.cu_one(0, t) if len(dims) == 1 else cc.cu_two(lines, t)
    w = (placement(nodes, last) if nodes else np.eye(d)).T @ ref.objects_operator(seq, dims) @ p0 @ t
    before = [id(g) for g in seq]
    held = np.array(target.to_matrix(0))
    args = (seq, target, list(dims)) if nodes is None else (seq, target, list(dims), list(nodes), list(first), list(last))
    with np.errstate(all="ignore"):
        v = UnitaryVerifier(*args)
        got = v.verify()
        again = v.verify()
    require(isinstance(got, bool) and got == again, "verifying twice gives different answers")
    require([id(g) for g in seq] == before and gen.close(np.array(target.to_matrix(0)), held, 0), "the sequence or the target was changed")
    dist = distance(w)
    if dist < LIMIT / 4:
        require(got, f"a sequence at distance {dist:.3g} was rejected")
        return True, "accepted"
    if dist > 4 * LIMIT:
        require(not got, f"a sequence at distance {dist:.3g} was accepted")
        return True, f"rejected {how}"
    return False, "open"


@st.composite
def pair_case(draw):
    """Two sequences, the second of which is the first rewritten by an identity of the gates."""
    d = draw(st.integers(2, 6))
    gs = [draw(gen.gate([d], LOCAL, controls=False)) for _ in range(draw(st.integers(1, 5)))]
    return {"d": d, "gates": gs, "spoil": draw(st.booleans()), "i": draw(st.integers(0, 4))}


def check_self(case):
    """A sequence undoes the product of its inverses, and a sequence with one gate too many does not."""
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import UnitaryVerifier
    d = case["d"]
    c = gen.new_circuit([d])
    gs = [gen.add(c, g) for g in case["gates"]]
    u = np.eye(d, dtype=complex)
    for g in gs:
        u = np.asarray(g.to_matrix(0)) @ u
    target = gs[0] if len(gs) == 1 else gen.new_circuit([d]).cu_one(0, u)
    inv = [dict(g, dag=not g.get("dag")) for g in reversed(case["gates"])]
    cc = gen.new_circuit([d])
    seq = [gen.add(cc, g) for g in inv]
    if case["spoil"]:
        k = case["i"] % len(seq)
        extra = gen.add(cc, inv[k])
        seq.insert(k, extra)
        dist = distance(ref.objects_operator(seq, [d]) @ u)
    else:
        dist = 0.0
    with np.errstate(all="ignore"):
        got = UnitaryVerifier(seq, target, [d]).verify()
    if dist < LIMIT / 4:
        require(got, "the inverse of a sequence was rejected")
    elif dist > 4 * LIMIT:
        require(not got, f"a sequence with a gate too many was accepted (distance {dist:.3g})")
    return True, "longer" if dist > 4 * LIMIT else "inverse"


# ---------------------------------------------------------------- the simulations used for verification
@st.composite
def sim_case(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 4, 2, 5, 80), gen.dims_list(1, 4, 2, 5, 80), gen.dims_list(5, 7, 2, 3, 200), gen.dims_list(1, 2, 6, 14, 150))))
    return {"dims": dims, "gates": draw(gen.gates(dims, 0, 7)), "cut": draw(st.integers(0, 7))}


def check_sim(case):
    from mqt.qudits.compiler.compilation_minitools import naive_unitary_verifier as m
    dims = case["dims"]
    c = gen.build(dims, case["gates"])
    before = [id(g) for g in c.instructions]
    want = ref.circuit_operator(case["gates"], dims)
    require(gen.close(m.mini_unitary_sim(c, c.instructions), want, 1e-8), "the simulated operator is not that of the circuit")
    k = min(case["cut"], len(case["gates"]))
    require(gen.close(m.mini_unitary_sim(c, c.instructions[:k]), ref.circuit_operator(case["gates"][:k], dims), 1e-8), "the simulated operator of a part of the circuit is wrong")
    require(gen.close(np.asarray(m.mini_sim(c)).ravel(), want[:, 0], 1e-8), "the simulated state is not that of the circuit")
    require([id(g) for g in c.instructions] == before, "the simulation changed the circuit")
    return len(case["gates"]) > 1, ""


@st.composite
def phys_case(draw):
    d = draw(st.integers(2, 6))
    return {"d": d, "map": list(draw(st.permutations(range(d)))), "gates": draw(gen.gates([d], 0, 6, controls=False))}


def check_phys(case):
    from mqt.qudits.compiler.compilation_minitools.naive_unitary_verifier import phy_sdit_sim
    d = case["d"]
    c = gen.build([d], case["gates"])
    c.set_mapping([list(case["map"])])
    want = ref.circuit_operator(case["gates"], [d])[:, case["map"][0]]
    require(gen.close(np.asarray(phy_sdit_sim(c)).ravel(), want, 1e-8), "the simulation does not start from the physical level of the lowest state")
    return case["map"][0] != 0, ""


SUBS = [
    Sub("verify", case_(), check_verify, 700, 10000, "random sequences against the target they undo, exact or spoilt, with random placements and phases; non-trivial: clearly within or beyond the tolerance"),
    Sub("self", pair_case(), check_self, 200, 3000, "a sequence against its own inverse; every case is non-trivial"),
    Sub("sim", sim_case(), check_sim, 200, 3000, "random circuits; non-trivial: at least two gates"),
    Sub("phys", phys_case(), check_phys, 100, 1000, "single qudits with random placements; non-trivial: the lowest state is placed elsewhere"),
]
