"""C11: state preparation."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require

VALS = [0, 0, 0, 1, 1, -1, 1j, -1j, 2, 0.5, 1 + 1j, 1 - 1j, -2, -0.5j, 3, 1e-3]


def vector(spec, n, dims) -> np.ndarray:
    k = spec["kind"]
    if k == "rand":
        rng = np.random.default_rng(spec["seed"])
        v = rng.standard_normal(n) + 1j * rng.standard_normal(n)
    elif k == "real":
        v = np.random.default_rng(spec["seed"]).standard_normal(n).astype(complex)
    elif k == "entries":        # few distinct amplitudes, so equal sub-states appear
        v = np.array([VALS[i] for i in spec["v"]], dtype=complex)
    elif k == "sparse":
        v = np.zeros(n, dtype=complex)
        for i, j in spec["v"]:
            v[i % n] += VALS[j]
    elif k == "phases":         # equal weights, arbitrary phases
        v = np.array([np.exp(1j * p) for p in spec["v"]])
    elif k == "blocks":         # a sub-state repeated with different factors
        d0 = dims[0]
        sub = vector(spec["sub"], n // d0, dims[1:])
        v = np.concatenate([VALS[f] * sub for f in spec["f"]])
    elif k == "product":
        v = np.ones(1, dtype=complex)
        for d, s in zip(dims, spec["seeds"]):
            rng = np.random.default_rng(s)
            w = rng.standard_normal(d) + 1j * rng.standard_normal(d)
            if s % 3 == 0:
                w[rng.integers(d)] = 0
            v = np.kron(v, w)
    elif k == "two":            # one dominant amplitude and one small one
        v = np.zeros(n, dtype=complex)
        v[spec["i"] % n] = 1
        v[spec["j"] % n] += spec["e"]
    else:
        raise ValueError(k)
    if np.linalg.norm(v) < 1e-6:
        v = v + np.eye(n, dtype=complex)[spec.get("fallback", 0) % n]
    return v / np.linalg.norm(v)


@st.composite
def spec_(draw, n, dims, depth=0):
    kinds = ["rand", "real", "entries", "entries", "sparse", "sparse", "phases", "product", "two"]
    if len(dims) > 1 and depth < 2:
        kinds += ["blocks"] * 3
    k = draw(st.sampled_from(kinds))
    s = {"kind": k, "fallback": draw(st.integers(0, n - 1))}
    ix = st.integers(0, len(VALS) - 1)
    if k in ("rand", "real"):
        s["seed"] = draw(gen.seeds())
    elif k == "entries":
        s["v"] = draw(st.lists(ix, min_size=n, max_size=n))
    elif k == "sparse":
        s["v"] = [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), ix), min_size=1, max_size=6))]
    elif k == "phases":
        s["v"] = draw(st.lists(st.one_of(st.sampled_from([0.0, np.pi, np.pi / 2, -np.pi / 2, 1e-3]), st.floats(-4, 4)), min_size=n, max_size=n))
    elif k == "blocks":
        s["sub"] = draw(spec_(n // dims[0], dims[1:], depth + 1))
        s["f"] = draw(st.lists(ix, min_size=dims[0], max_size=dims[0]))
    elif k == "product":
        s["seeds"] = [draw(gen.seeds()) for _ in dims]
    elif k == "two":
        s["i"], s["j"] = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
        s["e"] = draw(st.sampled_from([1e-2, 1e-3, 1e-4, -1e-3, 0.05, 0.11, 0.3]))
    return s


@st.composite
def case_(draw, approx=False, max_total=40):
    dims = list(draw(gen.dims_list(1, 4, 2, 6, max_total)))
    return {"dims": dims, "state": draw(spec_(int(np.prod(dims)), dims)), "approx": approx,
            "form": draw(st.sampled_from(["array", "array", "array", "list"])),
            "after": draw(gen.gates(dims, 0, 3, p_ctl=0.3))}


def tolerance(n):
    return 3e-5 * np.sqrt(n) + 1e-7   # rotations by less than 1e-5 are left out by design


def check(case):
    dims = case["dims"]
    n = int(np.prod(dims))
    target = vector(case["state"], n, dims)
    c = gen.new_circuit(dims)
    arg = target.copy() if case["form"] == "array" else target.tolist()
    out = c.set_initial_state(arg, case["approx"])
    require(out is c, "set_initial_state does not return the circuit")
    require(np.array_equal(np.asarray(arg), target), "set_initial_state changed the state it was given")
    require(list(c.dimensions) == list(dims) and c.number_gates == len(c.instructions), "the circuit bookkeeping is inconsistent")
    # evaluate the emitted gates with the reference semantics and with the library
    mine = simulate_ref(c, dims)
    theirs = np.array(c.simulate()).reshape(-1)
    for name, v in (("by the gate definitions", mine), ("by simulate()", theirs)):
        require(v.shape == (n,), f"prepared state {name} has wrong size")
        require(abs(np.linalg.norm(v) - 1) < 1e-7, f"prepared state {name} is not normalised")
        ov = np.vdot(target, v)
        if case["approx"]:
            require(abs(ov) ** 2 >= 0.99 - 1e-6, f"approximate preparation has fidelity {abs(ov) ** 2:.6f} < 0.99 ({name})")
        else:
            ph = ov / abs(ov) if abs(ov) > 1e-12 else 1
            dist = np.linalg.norm(v - ph * target)
            require(dist <= tolerance(n), f"prepared state {name} differs from the target by {dist:.3g}")
    for s in case["after"]:
        gen.add(c, s)
    if case["after"]:
        got = np.array(c.simulate()).reshape(-1)
        want = ref.circuit_state(case["after"], dims, start=theirs)
        require(gen.close(got, want, 1e-7), "gates appended after the preparation do not act on the prepared state")
    nz = int(np.count_nonzero(np.abs(target) > 1e-9))
    return nz > 1, f"{len(dims)}q/{case['state']['kind']}"


def simulate_ref(c, dims):
    v = np.zeros((int(np.prod(dims)), 1), dtype=complex)
    v[0] = 1
    for g in c.instructions:
        require(isinstance(g.target_qudits, int), "preparation uses a gate that is not a (controlled) single-qudit gate")
        v = ref.apply_object(v, dims, g)
    return v[:, 0]


@st.composite
def named(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 4, 2, 6, 60), gen.dims_list(1, 4, 2, 6, 60), gen.dims_list(5, 7, 2, 3, 200), gen.dims_list(1, 2, 7, 12, 130))))
    return {"dims": dims, "which": draw(st.sampled_from(["ghz", "qudit-w-state", "embedded-w-state"])), "approx": draw(st.booleans())}


def check_named(case):
    """The named target states have the amplitudes of their definition, and are prepared."""
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_uniform_state, verify_normalized_state
    import itertools
    dims = case["dims"]
    v = np.asarray(generate_uniform_state(dims, case["which"]))
    want = []
    for digits in itertools.product(*[range(d) for d in dims]):
        nz = [x for x in digits if x]
        if case["which"] == "ghz":
            want.append(len(set(digits)) == 1)
        elif case["which"] == "qudit-w-state":
            want.append(len(nz) == 1)
        else:
            want.append(nz == [1])
    want = np.array(want, dtype=complex)
    want /= np.linalg.norm(want)
    require(gen.close(v, want, 1e-12), f"{case['which']} of {dims} has wrong amplitudes")
    require(verify_normalized_state(v) and not any(verify_normalized_state(v * f) for f in (1.01, 0.99, 1.0002, 0.9998)), "normalisation test is wrong")
    c = gen.new_circuit(dims)
    c.set_initial_state(v, case["approx"])
    got = np.array(c.simulate()).reshape(-1)
    f = abs(np.vdot(want, got)) ** 2
    require(f >= (0.99 if case["approx"] else 1 - tolerance(len(v)) ** 2) - 1e-6, f"named state prepared with fidelity {f}")
    return len(dims) > 1, case["which"]


@st.composite
def wide_(draw):
    dims = list(draw(gen.dims_list(5, 8, 2, 5, 400)))
    n = int(np.prod(dims))
    ix = st.integers(1, len(VALS) - 1)
    kind = draw(st.sampled_from(["sparse", "blocks", "product", "rand"] if n <= 100 else ["sparse", "sparse", "blocks", "product"]))
    if kind == "blocks":      # the same sparse sub-state below several branches of the first qudits
        state = {"kind": "sparse", "v": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), ix), min_size=1, max_size=4))]}
        for k in range(draw(st.integers(1, 3)), 0, -1):
            state = {"kind": "blocks", "sub": state, "f": draw(st.lists(st.integers(0, len(VALS) - 1), min_size=dims[k - 1], max_size=dims[k - 1]))}
    elif kind == "sparse":
        state = {"kind": kind, "v": [list(x) for x in draw(st.lists(st.tuples(st.integers(0, n - 1), ix), min_size=2, max_size=12))]}
    elif kind == "product":
        state = {"kind": kind, "seeds": [draw(gen.seeds()) for _ in dims]}
    else:
        state = {"kind": kind, "seed": draw(gen.seeds())}
    return {"dims": dims, "state": state, "approx": draw(st.sampled_from([False, False, True]))}


def check_wide(case):
    """Preparation on five to eight qudits, evaluated by the definitions of the emitted gates."""
    dims = case["dims"]
    n = int(np.prod(dims))
    target = vector(case["state"], n, dims)
    c = gen.new_circuit(dims)
    c.set_initial_state(target.copy(), case["approx"])
    v = simulate_ref(c, dims)
    ov = np.vdot(target, v)
    if case["approx"]:
        require(abs(ov) ** 2 >= 0.99 - 1e-6, f"approximate preparation has fidelity {abs(ov) ** 2:.6f} < 0.99")
    else:
        ph = ov / abs(ov) if abs(ov) > 1e-12 else 1
        dist = np.linalg.norm(v - ph * target)
        require(dist <= tolerance(n), f"prepared state differs from the target by {dist:.3g}")
    return np.count_nonzero(np.abs(target) > 1e-9) > 1, f"{len(dims)}q/{case['state']['kind']}"


@st.composite
def tree_(draw):
    dims = list(draw(gen.dims_list(1, 5, 2, 6, 120)))
    return {"dims": dims, "state": draw(spec_(int(np.prod(dims)), dims)),
            "tol": draw(st.sampled_from([0.0, 0.01, 0.02, 0.1, 0.3, 0.6])), "scale": draw(st.sampled_from([1.0, 1.0, 2.0, 0.5]))}


def evaluate(node, dims, depth=0, shared=False):
    """The vector a decision tree stands for: the product of the weights on each path."""
    if node.weight == 0:
        return np.zeros(int(np.prod(dims[depth:], dtype=int)), dtype=complex)
    return node.weight * below(node, dims, depth, shared)


def below(node, dims, depth, shared):
    if depth == len(dims):
        return np.ones(1, dtype=complex)
    parts = []
    for i in range(dims[depth]):
        child = node.children[i]
        if child.weight == 0:
            parts.append(np.zeros(int(np.prod(dims[depth + 1:], dtype=int)), dtype=complex))
        else:               # an edge keeps its weight; with sharing, the sub-tree is the one it refers to
            other = node.children[node.children_index[i]] if shared else child
            parts.append(child.weight * below(other, dims, depth + 1, shared))
    return np.concatenate(parts)


def check_tree(case):
    """The decision tree holds the vector; its operations keep, cut and share what they say."""
    from mqt.qudits.core import micro_dd as m
    dims, tol = case["dims"], case["tol"]
    labels = list(range(len(dims)))
    data = vector(case["state"], int(np.prod(dims)), dims) * case["scale"]
    root, count = m.create_decision_tree(labels, dims, data.copy())
    require(gen.close(evaluate(root, dims), data, 1e-12), "the decision tree does not hold the vector it was built from")
    full = 1 + sum(int(np.prod(dims[:k])) for k in range(1, len(dims) + 1))
    require(count == [full], f"the tree counts {count} nodes instead of {full}")
    total = float(np.linalg.norm(data) ** 2)
    contributions = m.get_node_contributions(root, labels)
    require(len(contributions) == len(dims), "contributions are not listed per qudit")
    for k, level in enumerate(contributions):
        probs = [p for _, p in level]
        require(probs == sorted(probs), "contributions are not in rising order")
        require(abs(sum(probs) - total) < 1e-9, f"contributions at level {k} sum to {sum(probs)} instead of {total}")
        for node, p in level:
            require(abs(np.linalg.norm(node.data) ** 2 - p) < 1e-9, "a node's contribution is not the weight of its part of the vector")
    lost = 0.0
    if tol:
        m.cut_branches(contributions, tol)
        cut = evaluate(root, dims)
        keep = np.abs(cut) > 0
        require(gen.close(cut[keep], data[keep], 1e-12), "cutting branches changed an amplitude it kept")
        lost = float(np.linalg.norm(data[~keep]) ** 2)
        require(lost < tol + 1e-9, f"cutting branches with tolerance {tol} lost {lost}")
        if not keep.any():
            return True, "all cut"
        m.normalize_all(root, dims)
        v = evaluate(root, dims)
        require(gen.close(v, cut, 1e-12), "normalising after a cut changed the vector")
        stack = [(root, 0)]
        while stack:
            node, depth = stack.pop()
            if depth < len(dims) and node.weight != 0:
                require(abs(sum(abs(x.weight) ** 2 for x in node.children) - 1) < 1e-9, "a node is not normalised after normalize_all")
                stack.extend((x, depth + 1) for x in node.children)
    before = evaluate(root, dims)
    out = m.dd_reduction(root, dims)
    require(out is root, "dd_reduction returns another tree")
    require(gen.close(evaluate(root, dims, 0, True), before, 1e-9), "sharing equal branches changed the vector")
    stack = [(root, 0)]
    while stack:
        node, depth = stack.pop()
        if depth == len(dims) or node.weight == 0:
            continue
        live = [i for i in range(dims[depth]) if node.children[i].weight != 0]
        if node.reduced:
            require(len(live) > 1 and len({node.children_index[i] for i in live}) == 1, "a node is marked reduced although its branches differ")
        stack.extend((node.children[i], depth + 1) for i in live)
    return lost > 0 or (np.abs(data) > 0).sum() > 1, "cut" if lost else "kept"


@st.composite
def random_(draw):
    return {"dims": list(draw(gen.dims_list(1, 4, 2, 6, 80))), "wrong": draw(st.sampled_from(["GHZ", "w", "", "qudit-w", "w-state"]))}


def check_random(case):
    from mqt.qudits.compiler.state_compilation.retrieve_state import generate_random_quantum_state, generate_uniform_state, verify_normalized_state
    dims = case["dims"]
    v = np.asarray(generate_random_quantum_state(dims))
    w = np.asarray(generate_random_quantum_state(dims))
    n = int(np.prod(dims))
    require(v.shape == (n,) and abs(np.linalg.norm(v) - 1) < 1e-9 and verify_normalized_state(v), "a random state has wrong size or norm")
    require(not gen.close(v, w, 1e-12), "two random states are the same")
    try:
        generate_uniform_state(dims, case["wrong"])
    except ValueError:
        pass
    else:
        require(False, f"an unknown state name {case['wrong']!r} is accepted")
    c = gen.new_circuit(dims)
    c.set_initial_state(v)
    u = simulate_ref(c, dims)
    require(1 - abs(np.vdot(u, v)) ** 2 < tolerance(n) ** 2 + 1e-9, "a random state is not prepared")
    return True, str(len(dims))


SUBS = [
    Sub("wide", wide_(), check_wide, 150, 2500, "five to eight qudits; non-trivial: more than one non-zero amplitude"),
    Sub("tree", tree_(), check_tree, 300, 6000, "decision trees of vectors, cut and shared; non-trivial: something cut or several amplitudes"),
    Sub("random", random_(), check_random, 30, 300, "the generator of random states; all non-trivial"),
    Sub("exact", case_(), check, 700, 8000, "target states of several structures; non-trivial: more than one non-zero amplitude"),
    Sub("approx", case_(True), check, 300, 3000, "same with approximation enabled, fidelity at least 0.99"),
    Sub("named", named(), check_named, 120, 900, "GHZ and W states; non-trivial: at least two qudits"),
]
