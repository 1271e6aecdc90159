"""C05: invalid gate requests are refused and leave the circuit as it was."""
from __future__ import annotations
import math
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c04 import describe
from .core import Sub, require

LEVELLED = {"r": 2, "rz": 2, "rh": 2, "noisex": 2, "noisey": 2, "virtrz": 1, "noisez": 1}


def bad_level(d):
    return st.one_of(st.sampled_from([d, d + 1, -1, -d, 2 * d, 1000]))


@st.composite
def case_(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 5, 2, 6, 150), gen.dims_list(1, 5, 2, 6, 150), gen.dims_list(5, 8, 2, 4, 400), gen.dims_list(1, 3, 6, 14, 1000))))
    base = draw(gen.gates(dims, 0, 3, max_multi=2))
    n = len(dims)
    fault = draw(st.sampled_from(["level", "level", "duplicate", "perm", "angle", "cx", "prime", "ctl", "ctl", "ctl", "ctl", "ctl_multi", "target", "gell", "reptarget", "arity", "ntargets"]))
    how = "ctor"
    if fault == "level":
        spec = draw(gen.gate(dims, kinds=list(LEVELLED), dag=False))
        k = draw(st.integers(0, LEVELLED[spec["g"]] - 1))
        spec["p"] = list(spec["p"]); spec["p"][k] = draw(bad_level(dims[spec["t"][0]]))
    elif fault == "duplicate":
        spec = draw(gen.gate(dims, kinds=["r", "rz", "rh", "noisex", "noisey"], dag=False))
        spec["p"] = list(spec["p"]); spec["p"][1] = spec["p"][0]
    elif fault == "perm":
        spec = draw(gen.gate(dims, kinds=["pm"], dag=False))
        p = list(spec["p"])
        d = len(p)
        m = draw(st.sampled_from(["dup", "range", "neg", "short", "long"]))
        i = draw(st.integers(0, d - 1))
        if m == "dup":
            p[i] = p[(i + 1) % d]
        elif m == "range":
            p[i] = d + draw(st.integers(0, 3))
        elif m == "neg":
            p[i] -= d
        elif m == "short":
            p.pop(i)
        else:
            p.append(draw(st.integers(0, d)))
        spec["p"] = p
    elif fault == "angle":
        if n < 2:
            return draw(st.just(None))
        spec = draw(gen.gate(dims, kinds=["ls", "ms", "cx"], dag=False).filter(lambda s: s["p"]))
        spec["p"] = list(spec["p"])
        spec["p"][-1] = draw(st.sampled_from([-0.1, -1e-6, 2 * math.pi + 1e-6, 7.0, -math.pi, 100.0, math.nan]))
    elif fault == "cx":
        if n < 2:
            return draw(st.just(None))
        spec = draw(gen.gate(dims, kinds=["cx"], dag=False).filter(lambda s: s["p"]))
        p = list(spec["p"]); dc, dt = dims[spec["t"][0]], dims[spec["t"][1]]
        m = draw(st.sampled_from(["order", "same", "neg", "high", "ctlhigh", "ctlneg"]))
        if m == "order":
            p[0], p[1] = p[1], p[0]
        elif m == "same":
            p[1] = p[0]
        elif m == "neg":
            p[0] = -1
        elif m == "high":
            p[1] = dt + draw(st.integers(0, 2))
        elif m == "ctlhigh":
            p[2] = dc + draw(st.integers(0, 2))
        else:
            p[2] = -1 - draw(st.integers(0, 2))
        spec["p"] = p
    elif fault == "prime":
        qs = [i for i in range(n) if not gen.is_prime(dims[i])]
        if not qs:
            return draw(st.just(None))
        spec = {"g": "s", "t": [draw(st.sampled_from(qs))], "p": None, "c": None, "dag": False}
    elif fault == "ctl":
        spec = draw(gen.gate(dims, kinds=[k for k in gen.SINGLE if k in gen.CONTROLLABLE], p_ctl=1.0, max_ctl=4, dag=False))
        c = spec["c"] or [[], []]
        c = [list(c[0]), list(c[1])]
        m = draw(st.sampled_from(["high", "neg", "target", "level", "neglevel", "dup", "unpaired"]))
        if m == "unpaired":
            if not c[0]:
                return draw(st.just(None))
            if draw(st.booleans()) and len(c[1]) > 0:
                c[1].pop()
            else:
                c[1].append(0)
        elif m == "dup":
            if not c[0]:
                return draw(st.just(None))
            c[0].append(c[0][0]); c[1].append(draw(st.integers(0, dims[c[0][0]] - 1)))
        else:
            q = {"high": n + draw(st.integers(0, 2)), "neg": -1 - draw(st.integers(0, n - 1)), "target": spec["t"][0]}.get(m)
            lev = 0
            if m in ("level", "neglevel"):
                free = [i for i in range(n) if i not in c[0] and i not in spec["t"]]
                if not free:
                    if not c[0]:
                        return draw(st.just(None))
                    q = c[0].pop(); c[1].pop()
                else:
                    q = draw(st.sampled_from(free))
                lev = dims[q] + draw(st.integers(0, 2)) if m == "level" else -1 - draw(st.integers(0, 2))
            pos = draw(st.integers(0, len(c[0])))
            c[0].insert(pos, q); c[1].insert(pos, lev)
        spec["c"] = c
        fault = "ctl-" + m
        how = draw(st.sampled_from(["ctor", "method"]))
    elif fault == "ctl_multi":
        if n < 3:
            return draw(st.just(None))
        spec = draw(gen.gate(dims, kinds=gen.TWO, dag=False))
        q = [i for i in range(n) if i not in spec["t"]][0]
        spec["c"] = [[q], [0]]
        how = "method"
    elif fault == "target":
        spec = draw(gen.gate(dims, dag=False, controls=False, max_multi=2))
        i = draw(st.integers(0, len(spec["t"]) - 1))
        spec["t"] = list(spec["t"])
        spec["t"][i] = n + draw(st.integers(0, 2)) if draw(st.booleans()) else -1 - draw(st.integers(0, 2))
    elif fault == "arity":
        spec = draw(gen.gate(dims, kinds=["r", "rz", "rh", "noisex", "noisey", "virtrz", "cx", "ls", "ms"], dag=False))
        if spec["p"] is None:
            spec["p"] = [0, 1, 0, 0.0]
        spec["p"] = list(spec["p"]) + [draw(st.sampled_from([0, 1, 0.5, 1.0]))] if draw(st.booleans()) else list(spec["p"])[:-1]
    elif fault == "ntargets":
        if n < 3:
            return draw(st.just(None))
        spec = draw(gen.gate(dims, kinds=["csum", "cx", "ls", "ms"], dag=False))
        q = [i for i in range(n) if i not in spec["t"]][0]
        spec["t"] = [*spec["t"], q] if draw(st.booleans()) else spec["t"][:1]
    elif fault == "reptarget":
        if n < 2:
            return draw(st.just(None))
        spec = draw(gen.gate(dims, kinds=gen.TWO, dag=False))
        spec["t"] = [spec["t"][0]] * 2
    else:
        d = dims[0]
        a, b = sorted(draw(gen.two_levels(d)))
        m = draw(st.sampled_from(["order", "same", "high", "neg"]))
        p = {"order": [b, a], "same": [a, a], "high": [a, d + draw(st.integers(0, 3))], "neg": [-1 - draw(st.integers(0, 2)), b]}[m]
        spec = {"g": "gellmann", "t": [0], "p": [*p, draw(st.sampled_from(["s", "a", "d"]))], "c": None, "dag": False}
    split = draw(st.integers(0, n))
    return {"dims": dims, "base": base, "spec": spec, "fault": fault, "how": how, "split": split}


def build(case):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    dims, k = case["dims"], case["split"]
    c = QuantumCircuit()
    for name, ds in (("a", dims[:k]), ("b", dims[k:])):
        if ds:
            c.append(QuantumRegister(name, len(ds), list(ds)))
    for s in case["base"]:
        gen.add(c, s)
    return c


def request(c, spec):
    """Like gen.add, for requests that cannot be built."""
    if spec["g"] == "gellmann":
        return c.gellmann(spec["t"][0], list(spec["p"]))
    if spec["g"] == "cu_one":
        q = spec["t"][0]
        from mqt.qudits.quantum_circuit.components.extensions.controls import ControlData
        return c.cu_one(q, np.eye(c.dimensions[q], dtype=complex), ControlData(list(spec["c"][0]), list(spec["c"][1])) if spec["c"] else None)
    if spec["g"] in ("cu_two", "cu_multi"):
        return getattr(c, spec["g"])(list(spec["t"]), np.eye(int(np.prod([c.dimensions[q] for q in spec["t"]])), dtype=complex))
    return gen.add(c, spec)


def snapshot(c):
    return (c.num_qudits, list(c.dimensions), dict(c.sitemap), c.number_gates, [id(g) for g in c.instructions], [describe(g) for g in c.instructions],
            [str(g.gate_type) for g in c.instructions], [list(g.reference_lines) for g in c.instructions], [bool(g.is_long_range) for g in c.instructions])


def check(case):
    if case is None:
        return False, "not applicable"
    c = build(case)
    spec = case["spec"]
    if case["how"] == "method":
        g = gen.add(c, dict(spec, c=None))
        target = g.to_matrix(identities=2)
    before = snapshot(c)
    mats = [np.array(g.to_matrix(identities=2)) for g in c.instructions]
    try:
        if case["how"] == "method":
            g.control(list(spec["c"][0]), list(spec["c"][1]))
        else:
            request(c, spec)
    except Exception as e:  # noqa: BLE001
        err = type(e).__name__
    else:
        require(False, f"invalid request accepted ({case['fault']}): {spec}")
    require(snapshot(c) == before, f"refused request ({err}) changed the circuit")
    for m, g in zip(mats, c.instructions):
        require(gen.close(m, np.array(g.to_matrix(identities=2)), 0.0), f"refused request ({err}) changed a gate of the circuit")
    if case["how"] == "method":
        require(gen.close(target, np.array(g.to_matrix(identities=2)), 0.0), "refused control changed the gate")
    return True, case["fault"] + ("/" + case["how"] if case["how"] == "method" else "")


def known(case):
    if case is None:
        return None
    s = case["spec"]
    if s["g"] == "cx" and s["p"] and case["fault"] == "cx":
        dims = case["dims"]
        p = s["p"]
        if 0 <= p[0] < p[1] and p[2] >= 0 and (p[1] >= dims[s["t"][1]] or p[2] >= dims[s["t"][0]]):
            return "cx-levels"
    return None


@st.composite
def valid_(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 5, 2, 7, 150), gen.dims_list(1, 5, 2, 7, 150), gen.dims_list(5, 8, 2, 4, 400), gen.dims_list(1, 3, 6, 14, 1000))))
    return {"dims": dims, "gate": draw(gen.gate(dims, p_ctl=0.6, max_ctl=4)), "post": draw(st.booleans())}


def check_valid(case):
    """Requests at the edge of what is allowed are not refused."""
    c = gen.new_circuit(case["dims"])
    g = gen.add(c, case["gate"], post_control=case["post"])
    require(c.number_gates == 1 and c.instructions == [g], "valid request did not append exactly one gate")
    return True, case["gate"]["g"]


SUBS = [
    Sub("refuse", case_(), check, 1500, 20000, "requests with one defect; non-trivial: the defect could be planted on the drawn register", known),
    Sub("accept", valid_(), check_valid, 300, 3000, "valid requests (control group, so that refusing everything is not a way to pass)"),
]
