"""C08: tensor-network simulation."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c05 import snapshot
from .core import Sub, require


@st.composite
def case_(draw, max_q=5, max_total=150, dmax=7, max_gates=10):
    dims = list(draw(gen.dims_list(1, max_q, 2, dmax, max_total)))
    return {"dims": dims, "gates": draw(gen.gates(dims, 0, max_gates, p_ctl=0.4, max_ctl=4)), "via": draw(st.sampled_from(["run", "simulate"])), "post": draw(st.booleans())}


def simulate(c, via):
    if via == "simulate":
        return np.array(c.simulate())
    from mqt.qudits.simulation import MQTQuditProvider
    return np.array(MQTQuditProvider().get_backend("tnsim").run(c).result().get_state_vector())


def check(case):
    dims, gates = case["dims"], case["gates"]
    c = gen.build(dims, gates, case["post"])
    before = snapshot(c)
    n = int(np.prod(dims))
    v = simulate(c, case["via"])
    require(v.size == n, f"state has {v.size} entries, register has {n} basis states")
    want = ref.circuit_state(gates, dims)
    require(gen.close(v.reshape(-1), want, 1e-8), f"state differs from the product of the gates by {np.max(np.abs(v.reshape(-1) - want)):.3g}")
    require(abs(np.linalg.norm(v) - 1) < 1e-8, "state is not normalised")
    require(snapshot(c) == before, "simulating changed the circuit")
    w = simulate(c, case["via"])
    require(gen.close(v, w, 1e-12), "simulating the same circuit again gives another state")
    nt = len(gates) >= 2 and np.count_nonzero(np.abs(want) > 1e-9) > 1
    return nt, f"{len(dims)}q/{'ctl' if any(s['c'] for s in gates) else 'noctl'}/{'multi' if any(len(s['t']) > 1 for s in gates) else 'local'}"


@st.composite
def wide(draw):
    """Many qudits, so that long-range gates skip several lines; or a few with many levels."""
    if draw(st.integers(0, 3)) == 0:
        dims = list(draw(gen.dims_list(1, 3, 2, 24, 300)))
        return {"dims": dims, "gates": draw(gen.gates(dims, 2, 8, p_ctl=0.4, max_ctl=2)), "via": "run", "post": draw(st.booleans())}
    n = draw(st.integers(5, 8))
    dims = [draw(st.sampled_from([2, 2, 3])) for _ in range(n)]
    while np.prod(dims) > 700:
        dims[dims.index(3)] = 2
    return {"dims": dims, "gates": draw(gen.gates(dims, 2, 14, p_ctl=0.5, max_ctl=5)), "via": "run", "post": draw(st.booleans())}


@st.composite
def long_(draw):
    """Long circuits on few levels."""
    dims = list(draw(gen.dims_list(1, 4, 2, 5, 36)))
    return {"dims": dims, "gates": draw(gen.gates(dims, 25, 90, p_ctl=0.3, max_ctl=2)), "via": "run", "post": False}


@st.composite
def broad(draw):
    """Up to thirteen qudits; gates on several qudits stay within a window of five lines."""
    n = draw(st.integers(9, 13))
    dims = [2] * n
    if n < 12:
        dims[draw(st.integers(0, n - 1))] = 3
    gs = []
    for _ in range(draw(st.integers(3, 24))):
        w = draw(st.integers(0, n - 5))
        g = draw(gen.gate(dims[w:w + 5], p_ctl=0.4, max_ctl=3, max_multi=3))
        gs.append(dict(g, t=[q + w for q in g["t"]], c=[[q + w for q in g["c"][0]], g["c"][1]] if g["c"] else None))
    return {"dims": dims, "gates": gs, "via": draw(st.sampled_from(["run", "simulate"])), "post": False}


SUBS = [
    Sub("long", long_(), check, 120, 1500, "25 to 90 gates; same rule"),
    Sub("broad", broad(), check, 150, 2500, "9 to 13 qudits; same rule"),
    Sub("state", case_(), check, 1200, 20000, "random circuits; non-trivial: at least two gates and a state with more than one non-zero amplitude"),
    Sub("wide", wide(), check, 200, 3000, "5 to 8 qudits, or up to 24 levels; same rule"),
]
