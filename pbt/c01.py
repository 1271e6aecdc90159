"""C01: gate matrices."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require

TOL = 1e-9


def sorted_matrix(spec, dims):
    """Reference matrix on the gate's own targets, indexed by the targets in increasing line order."""
    lines = sorted(spec["t"])
    s = dict(spec, t=[lines.index(q) for q in spec["t"]], c=None)
    return ref.operator(s, [dims[q] for q in lines])


@st.composite
def matrix_case(draw):
    dims = draw(gen.dims_list(1, 4, 2, 9, 1000))
    spec = draw(gen.gate(dims, controls=False, dag=False, max_multi=3).filter(lambda s: np.prod([dims[q] for q in s["t"]]) <= 130))
    return {"dims": list(dims), "gate": spec}


@st.composite
def large_case(draw):
    """Dimensions up to 24 for one qudit, 16 for gates on several."""
    dims = draw(st.one_of(gen.dims_list(1, 1, 8, 24, 24), gen.dims_list(2, 3, 2, 16, 600)))
    spec = draw(gen.gate(dims, controls=False, dag=False, max_multi=3).filter(lambda s: np.prod([dims[q] for q in s["t"]]) <= 260))
    return {"dims": list(dims), "gate": spec}


def check_matrix(case):
    dims, spec = case["dims"], case["gate"]
    g = gen.add(gen.new_circuit(dims), spec)
    m = np.array(g.to_matrix(identities=0))
    want = sorted_matrix(spec, dims)
    require(m.shape == want.shape, f"{spec['g']}: matrix has shape {m.shape}, expected {want.shape}")
    require(np.max(np.abs(m @ m.conj().T - np.eye(len(m)))) < 1e-9, f"{spec['g']}: matrix is not unitary")
    require(gen.close(m, want, TOL), f"{spec['g']}: matrix differs from its definition by {np.max(np.abs(m - want)):.3g}")
    m2 = np.array(g.to_matrix(identities=0))
    require(gen.close(m, m2, 0.0), f"{spec['g']}: matrix changes when asked for again")
    desc = len(spec["t"]) > 1 and spec["t"][0] > spec["t"][1]
    return True, spec["g"] + ("/desc" if desc else "")


@st.composite
def gell_case(draw):
    d = draw(st.integers(2, 16))
    a, b = sorted(draw(gen.two_levels(d)))
    return {"d": d, "p": [a, b, draw(st.sampled_from(["s", "a", "d"]))]}


def check_gell(case):
    c = gen.new_circuit([case["d"]])
    g = c.gellmann(0, list(case["p"]))
    m = np.array(g.to_matrix())
    require(gen.close(m, ref.gellmann(case["d"], *case["p"]), TOL), "Gell-Mann generator differs from its definition")
    require(gen.close(m, m.conj().T, TOL), "Gell-Mann generator not Hermitian")
    require(len(c.instructions) == 0, "a generator must not become part of the circuit")
    return True, case["p"][2]


@st.composite
def rand_case(draw):
    dims = draw(gen.dims_list(1, 3, 2, 5, 60))
    t = draw(st.permutations(range(len(dims))))[: draw(st.integers(1, len(dims)))]
    return {"dims": list(dims), "t": list(t)}


def check_rand(case):
    c = gen.new_circuit(case["dims"])
    g = c.randu(list(case["t"]))
    m = np.array(g.to_matrix())
    n = int(np.prod([case["dims"][q] for q in case["t"]]))
    require(m.shape == (n, n), "random gate has the wrong size")
    require(gen.close(m @ m.conj().T, np.eye(n), 1e-9), "random gate is not unitary")
    require(gen.close(m, np.array(g.to_matrix()), 0.0), "random gate changes its matrix from call to call")
    return True, str(len(case["t"]))


@st.composite
def period_case(draw):
    d = draw(st.integers(2, 6))
    return {"d": d, "l": draw(gen.two_levels(d)), "theta": draw(gen.angles()), "phi": draw(gen.angles()), "k": draw(st.integers(-3, 3))}


def check_period(case):
    d, (a, b), th, ph, k = case["d"], case["l"], case["theta"], case["phi"], case["k"]
    c = gen.new_circuit([d])
    pairs = [
        (c.r(0, [a, b, th, ph]), c.r(0, [a, b, th + 4 * np.pi * k, ph])),
        (c.r(0, [a, b, th, ph]), c.r(0, [a, b, th, ph + 2 * np.pi * k])),
        (c.rz(0, [a, b, ph]), c.rz(0, [a, b, ph + 4 * np.pi * k])),
        (c.virtrz(0, [a, ph]), c.virtrz(0, [a, ph + 2 * np.pi * k])),
        (c.r(0, [a, b, th, ph]), c.r(0, [b, a, th, ph])),
        (c.rz(0, [a, b, ph]), c.rz(0, [b, a, ph])),
    ]
    for x, y in pairs:
        require(gen.close(np.array(x.to_matrix()), np.array(y.to_matrix()), 1e-8), f"{type(x).__name__}: equivalent angles or level orders give different matrices")
    return k != 0, f"k={k}"


SUBS = [
    Sub("matrix", matrix_case(), check_matrix, 1500, 20000, "random gate/placement/parameters; non-trivial always (each compares a full matrix)"),
    Sub("large", large_case(), check_matrix, 300, 6000, "dimensions up to 24 (one qudit) or 16 (several); non-trivial always"),
    Sub("gellmann", gell_case(), check_gell, 150, 600, "generator kind and levels"),
    Sub("randu", rand_case(), check_rand, 60, 300, "random unitary gate on random lines"),
    Sub("period", period_case(), check_period, 200, 3000, "shifted angles; non-trivial when the shift is non-zero"),
]
