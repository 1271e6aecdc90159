"""C09: decision-diagram simulation."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c05 import snapshot
from .core import Sub, require

KINDS = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "noisez", "csum", "cx"]
KINDS_W = KINDS + ["csum", "cx", "h", "r"]


def run(c):
    from mqt.qudits.simulation import MQTQuditProvider
    return np.array(MQTQuditProvider().get_backend("misim").run(c).result().get_state_vector())


@st.composite
def case_(draw, n_max=14, controls=False, max_total=300, max_q=5):
    dims = list(draw(gen.dims_list(1, max_q, 2, 7, max_total)))
    gates = draw(gen.gates(dims, 0, n_max, kinds=KINDS_W, controls=controls, p_ctl=0.6))
    return {"dims": dims, "gates": gates}


def compare(case, tol=1e-8):
    dims, gates = case["dims"], case["gates"]
    c = gen.build(dims, gates)
    before = snapshot(c)
    v = run(c)
    n = int(np.prod(dims))
    require(v.size == n, f"state has {v.size} entries, register has {n} basis states")
    want = ref.circuit_state(gates, dims)
    err = float(np.max(np.abs(v.reshape(-1) - want)))
    require(np.all(np.isfinite(v)) and err < tol, f"state differs from the product of the gates by {err:.3g}")
    require(snapshot(c) == before, "simulating changed the circuit")
    require(gen.close(run(c), v, 1e-9), "simulating the same circuit again gives another state")
    return c, v, want


def check(case):
    _, v, want = compare(case)
    return len(case["gates"]) >= 2 and np.count_nonzero(np.abs(want) > 1e-9) > 1, f"{len(case['dims'])}q/{'multi' if any(len(s['t']) > 1 for s in case['gates']) else 'local'}/{'dag' if any(s['dag'] for s in case['gates']) else 'plain'}"


@st.composite
def both(draw):
    return draw(case_(20, False, 200))


def check_both(case):
    from mqt.qudits.simulation import MQTQuditProvider
    c = gen.build(case["dims"], case["gates"])
    t = np.array(MQTQuditProvider().get_backend("tnsim").run(c).result().get_state_vector()).reshape(-1)
    v = run(c).reshape(-1)
    require(gen.close(t, v, 1e-8), f"the two simulators differ by {np.max(np.abs(t - v)):.3g}")
    return len(case["gates"]) >= 4, f"{len(case['gates']) // 5 * 5}+ gates"


UNSUP = ["ls", "ms", "pm", "cu_one", "cu_two", "cu_multi", "noisex", "noisey"]


@st.composite
def unsupported(draw):
    if draw(st.integers(0, 4)) == 0:      # a dimension it has no gates for
        dims = list(draw(gen.dims_list(1, 3, 2, 4, 30)))
        k = draw(st.integers(0, len(dims)))
        dims.insert(k, draw(st.sampled_from([8, 9, 11])))
        g = draw(st.sampled_from(["x", "z", "h", "r", "rz", "rh", "virtrz"]))
        spec = draw(gen.gate(dims, kinds=[g], controls=False)); spec["t"] = [k]
        d = dims[k]
        if g in ("r", "rz", "rh"):
            spec["p"] = [*draw(gen.two_levels(d)), *spec["p"][2:]]
        elif g == "virtrz":
            spec["p"] = [draw(st.integers(0, d - 1)), spec["p"][1]]
        base = []
    else:
        dims = list(draw(gen.dims_list(1, 4, 2, 7, 150)))
        kinds = [k for k in UNSUP if len(dims) > 1 or k in ("pm", "cu_one", "noisex", "noisey")]
        spec = draw(gen.gate(dims, kinds=kinds, controls=False))
        base = draw(gen.gates(dims, 0, 4, kinds=KINDS, controls=False))
    pos = draw(st.integers(0, len(base)))
    return {"dims": dims, "gates": base[:pos] + [spec] + base[pos:], "odd": spec}


def check_unsupported(case):
    dims, gates = case["dims"], case["gates"]
    c = gen.build(dims, gates)
    try:
        v = run(c)
    except Exception as e:  # noqa: BLE001
        return True, f"{case['odd']['g']} refused"
    want = ref.circuit_state(gates, dims)
    require(v.size == want.size and gen.close(v.reshape(-1), want, 1e-8), f"{case['odd']['g']} is neither refused nor simulated correctly")
    return True, f"{case['odd']['g']} simulated"


@st.composite
def deep(draw):
    """Longer circuits on few levels: many shared nodes and cached results."""
    dims = list(draw(gen.dims_list(2, 4, 2, 5, 80)))
    pool = [0.0, np.pi / 2, np.pi, np.pi / 4, -np.pi / 2, 1e-3, 2.0]
    gates = draw(gen.gates(dims, 15, 60, kinds=KINDS_W, controls=False, angle=st.sampled_from(pool)))
    return {"dims": dims, "gates": gates}


def check_deep(case):
    compare(case, 1e-7)
    return True, f"{len(case['gates']) // 15 * 15}+ gates"


@st.composite
def controlled(draw):
    return draw(case_(4, True))


def known_ctl(case):
    return "controls-ignored" if any(s["c"] for s in case["gates"]) else None


@st.composite
def tiny(draw):
    """Angles so small that the square of an amplitude falls below the tolerance of the number table."""
    dims = list(draw(gen.dims_list(1, 4, 2, 5, 80)))
    pool = [1e-5, 1e-6, 3e-7, 1e-7, -1e-7, 1e-8, 1e-9, 1.0, np.pi, np.pi / 2]
    gates = draw(gen.gates(dims, 3, 25, kinds=["x", "r", "r", "r", "rz", "virtrz", "cx", "csum", "h"], controls=False, angle=st.sampled_from(pool)))
    return {"dims": dims, "gates": gates}


def check_tiny(case):
    compare(case, 1e-9)
    return True, f"{len(case['dims'])}q"


@st.composite
def pair(draw):
    """Two-qudit gates on every pair of dimensions, after superpositions on both sides."""
    dims = [draw(st.integers(2, 7)), draw(st.integers(2, 7))]
    if draw(st.booleans()):
        dims.insert(draw(st.integers(0, 2)), 2)
    a, b = draw(st.permutations(range(len(dims))))[:2]
    ang = gen.angles()
    gates = [{"g": "h", "t": [a], "p": None, "c": None, "dag": False}]
    for _ in range(draw(st.integers(1, 3))):
        gates.append({"g": "r", "t": [b], "p": [*draw(gen.two_levels(dims[b])), draw(ang), draw(ang)], "c": None, "dag": False})
    for _ in range(draw(st.integers(1, 2))):
        c, t = draw(st.permutations([a, b]))
        dag = draw(st.booleans())
        if draw(st.booleans()):
            gates.append({"g": "csum", "t": [c, t], "p": None, "c": None, "dag": dag})
        else:
            la, lb = sorted(draw(gen.two_levels(dims[t])))
            gates.append({"g": "cx", "t": [c, t], "p": [la, lb, draw(st.integers(0, dims[c] - 1)), draw(st.floats(0, 6.28))], "c": None, "dag": dag})
    return {"dims": dims, "gates": gates}


def check_pair(case):
    compare(case)
    return True, "/".join(map(str, sorted(case["dims"][:2])))


@st.composite
def broad(draw):
    """Up to twelve qudits."""
    n = draw(st.integers(6, 12))
    dims = [2] * n
    for _ in range(draw(st.integers(0, 2)) if n < 10 else 0):
        dims[draw(st.integers(0, n - 1))] = draw(st.integers(3, 4))
    return {"dims": dims, "gates": draw(gen.gates(dims, 3, 40, kinds=KINDS_W, controls=False))}


SUBS = [
    Sub("broad", broad(), check, 250, 4000, "6 to 12 qudits; same rule as for state"),
    Sub("state", case_(), check, 3000, 40000, "random circuits over the supported gates; non-trivial: two gates and more than one non-zero amplitude"),
    Sub("differential", both(), check_both, 250, 4000, "both simulators on the same circuit; non-trivial: at least four gates"),
    Sub("unsupported", unsupported(), check_unsupported, 250, 3000, "one gate the simulator does not offer amid ones it does"),
    Sub("deep", deep(), check_deep, 300, 3000, "15 to 60 gates with recurring angles"),
    Sub("pair", pair(), check_pair, 500, 6000, "one or two two-qudit gates on dimensions 2 to 7 each, after superpositions"),
    Sub("tiny", tiny(), check_tiny, 500, 5000, "rotation angles down to 1e-9"),
    Sub("controlled", controlled(), check, 40, 300, "controlled gates (recorded finding; only the control-free ones are evaluated)", known_ctl),
]
