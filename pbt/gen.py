"""Hypothesis strategies for registers, gates and circuits; and the builder onto the real library."""
from __future__ import annotations
import math
from hypothesis import strategies as st
import numpy as np
from . import ref

PI = math.pi
SPECIAL = [0.0, PI / 2, PI, 3 * PI / 2, 2 * PI, PI / 4, PI / 3, 2 * PI / 3, PI / 6, 0.1, 0.5, 1e-3, 3 * PI, 4 * PI, 5 * PI]


def angles(signed=True):
    sp = SPECIAL + ([-a for a in SPECIAL] if signed else [])
    lo = -15.0 if signed else 0.0
    return st.one_of(st.sampled_from(sp), st.floats(lo, 15.0, allow_nan=False, width=64).map(lambda x: round(x, 6)))


def angle02pi():
    return st.one_of(st.sampled_from([0.0, PI / 2, PI, 3 * PI / 2, 2 * PI, PI / 4, 1.0]),
                     st.floats(0, 2 * PI, allow_nan=False).map(lambda x: round(x, 6)))


def dims_list(min_q=1, max_q=4, dmin=2, dmax=5, max_total=200):
    @st.composite
    def f(draw):
        n = draw(st.integers(min_q, max_q))
        out, tot = [], 1
        for i in range(n):
            rest = dmin ** (n - i - 1)
            hi = max(dmin, min(dmax, max_total // (tot * rest)))
            d = draw(st.integers(dmin, hi))
            out.append(d); tot *= d
        return draw(st.permutations(out)) if n > 1 else out
    return f()


def seeds():
    return st.integers(0, 999)


UKINDS = ["haar", "diag", "perm", "pperm", "block", "givens", "id", "fourier", "real", "clifdiag", "near_id", "tiny"]


def unitary_spec(kinds=tuple(UKINDS)):
    return st.fixed_dictionaries({"k": st.sampled_from(list(kinds)), "s": seeds()})


def is_prime(n):
    return n > 1 and all(n % k for k in range(2, n))


SINGLE = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "pm", "cu_one", "noisex", "noisey", "noisez"]
TWO = ["csum", "cx", "ls", "ms", "cu_two"]
CONTROLLABLE = {"x", "z", "h", "s", "r", "rz", "rh", "virtrz", "cu_one", "noisex", "noisey", "noisez"}


@st.composite
def two_levels(draw, d):
    a = draw(st.integers(0, d - 1))
    b = draw(st.integers(0, d - 2))
    if b >= a:
        b += 1
    return [a, b]


@st.composite
def gate(draw, dims, kinds=None, controls=True, dag=True, max_ctl=3, angle=None, max_multi=3, tmap=None, p_ctl=0.35):
    """One gate spec valid on a register with these dims."""
    n = len(dims)
    ang = angle or angles()
    ks = [k for k in (kinds or (SINGLE + TWO + ["cu_multi"]))
          if not (k in TWO and n < 2) and not (k == "cu_multi" and n < 2)]
    if "s" in ks and not any(is_prime(d) for d in dims):
        ks = [k for k in ks if k != "s"]
    g = draw(st.sampled_from(ks))
    c = None
    p = None
    if g in TWO:
        t = draw(st.permutations(range(n)))[:2]
        if g == "cu_two":
            t = sorted(t)
    elif g == "cu_multi":
        k = draw(st.integers(2, min(n, max_multi)))
        t = sorted(draw(st.permutations(range(n)))[:k])
    elif g == "s":
        t = [draw(st.sampled_from([i for i in range(n) if is_prime(dims[i])]))]
    else:
        t = [draw(st.integers(0, n - 1))]
    d = dims[t[0]]
    if g == "r":
        p = [*draw(two_levels(d)), draw(ang), draw(ang)]
    elif g == "rz":
        p = [*draw(two_levels(d)), draw(ang)]
    elif g in ("rh", "noisex", "noisey"):
        p = draw(two_levels(d))
    elif g == "virtrz":
        p = [draw(st.integers(0, d - 1)), draw(ang)]
    elif g == "noisez":
        p = [draw(st.integers(0, d - 1))]
    elif g == "pm":
        p = list(draw(st.permutations(range(d))))
    elif g in ("cu_one", "cu_two", "cu_multi"):
        p = draw(unitary_spec())
    elif g in ("ls", "ms"):
        p = [draw(angle02pi())]
    elif g == "cx":
        if draw(st.integers(0, 5)) == 0:
            p = None
        else:
            la, lb = sorted(draw(two_levels(dims[t[1]])))
            p = [la, lb, draw(st.integers(0, dims[t[0]] - 1)), draw(angle02pi())]
    if controls and g in CONTROLLABLE and n > 1 and draw(st.floats(0, 1)) < p_ctl:
        others = [i for i in range(n) if i not in t]
        k = draw(st.integers(1, min(max_ctl, len(others))))
        cl = list(draw(st.permutations(others)))[:k]
        c = [cl, [draw(st.one_of(st.integers(0, dims[q] - 1), st.just(dims[q] - 1))) for q in cl]]
    dg = bool(dag and draw(st.integers(0, 3)) == 0)
    return {"g": g, "t": list(t), "p": p, "c": c, "dag": dg}


def gates(dims, n_min=0, n_max=8, **kw):
    return st.lists(gate(dims, **kw), min_size=n_min, max_size=n_max)


# ---------------------------------------------------------------- onto the real library
def qc_mod():
    from mqt.qudits.quantum_circuit import QuantumCircuit
    return QuantumCircuit


def new_circuit(dims):
    return qc_mod()(len(dims), list(dims), 0)


def controls_of(spec):
    if not spec.get("c"):
        return None
    from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
    return ControlData(list(spec["c"][0]), list(spec["c"][1]))


def add(circ, spec, post_control=False):
    """Issue the request for this gate on a real circuit; returns the gate object."""
    g, t, p = spec["g"], list(spec["t"]), spec.get("p")
    dims = circ.dimensions
    ctl = None if post_control else controls_of(spec)
    if g in ("x", "z", "h", "s"):
        o = getattr(circ, g)(t[0], ctl) if ctl else getattr(circ, g)(t[0])
    elif g in ("r", "rz", "rh", "virtrz", "noisex", "noisey"):
        o = getattr(circ, g)(t[0], list(p), ctl) if ctl else getattr(circ, g)(t[0], list(p))
    elif g == "noisez":
        o = circ.noisez(t[0], p[0], ctl)
    elif g == "pm":
        o = circ.pm(t[0], list(p))
    elif g == "cu_one":
        o = circ.cu_one(t[0], ref.unitary(p, dims[t[0]]), ctl)
    elif g in ("cu_two", "cu_multi"):
        n = int(np.prod([dims[q] for q in t]))
        o = getattr(circ, g)(t, ref.unitary(p, n))
    elif g == "csum":
        o = circ.csum(t)
    elif g == "cx":
        o = circ.cx(t, list(p)) if p is not None else circ.cx(t)
    elif g in ("ls", "ms"):
        o = getattr(circ, g)(t, list(p))
    else:
        raise ValueError(g)
    if post_control and spec.get("c"):
        o.control(list(spec["c"][0]), list(spec["c"][1]))
    if spec.get("dag"):
        o.dag()
    return o


def build(dims, gate_specs, post_control=False):
    c = new_circuit(dims)
    for s in gate_specs:
        add(c, s, post_control)
    return c


def close(a, b, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b), initial=0.0)) <= tol
