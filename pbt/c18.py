"""C18: noise models and noisy realisations of circuits."""
from __future__ import annotations
import collections
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c16 import lines
from .core import Sub, require

KINDS = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "pm", "cu_one", "csum", "cx", "ls", "ms", "cu_two", "cu_multi"]
TAG = {"r": "rxy", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti"}
METHOD = {"local": "add_quantum_error_locally", "all": "add_all_qudit_quantum_error", "nonlocal": "add_nonlocal_quantum_error",
          "target": "add_nonlocal_quantum_error_on_target", "control": "add_nonlocal_quantum_error_on_control"}
DYNAMIC = ("r", "rz", "rh", "cx")


def prob():
    return st.one_of(st.sampled_from([0.0, 1.0, 0.5]), st.floats(0.05, 0.95))


@st.composite
def noise_spec(draw, dmin, dynamic, p=None):
    """Mathematical noise, physical noise on fixed level pairs, or on the pair of the gate."""
    p = p or prob()
    kind = draw(st.sampled_from(["math", "phys", "phys", *(["dyn"] if dynamic else [])]))
    out = {"kind": kind, "dep": draw(p), "deph": draw(p)}
    if kind == "phys":
        pairs = [[a, b] for a in range(dmin) for b in range(a + 1, dmin)]
        k = draw(st.integers(1, min(2, len(pairs))))
        out["levels"] = [x if draw(st.booleans()) else x[::-1] for x in list(draw(st.permutations(pairs)))[:k]]
    return out


def make_noise(spec):
    from mqt.qudits.simulation.noise_tools import Noise, SubspaceNoise
    if spec["kind"] == "math":
        return Noise(spec["dep"], spec["deph"])
    lv = [tuple(x) for x in spec.get("levels", [])]
    return SubspaceNoise(spec["dep"], spec["deph"], lv[0] if len(lv) == 1 and spec.get("tuple") else lv)


def scopes(spec):
    n = len(spec["t"]) + (len(spec["c"][0]) if spec["c"] else 0)
    out = ["local", "all", "target"]
    if n > 1:
        out.append("nonlocal")
    if spec["c"] or (len(spec["t"]) == 2 and spec["g"] != "cu_multi"):     # a gate on many qudits has no control
        out.append("control")
    return out


def affected(spec, scope, n):
    t, c = list(spec["t"]), list(spec["c"][0]) if spec["c"] else []
    if scope == "all":
        return list(range(n))
    if scope in ("local", "nonlocal"):
        return c + t
    if scope == "control":
        return c or t[:1]
    if scope == "target":
        return t if c or len(t) == 1 else t[1:]
    raise AssertionError(scope)


def levels_of(spec, noise, dims):
    if noise["kind"] == "phys":
        return [tuple(sorted(x)) for x in noise["levels"]]
    p = spec["p"] or [0, 1]
    return [tuple(sorted(p[:2]))]


def convolve(a, b, mods):
    out = collections.defaultdict(float)
    for ka, pa in a.items():
        for kb, pb in b.items():
            tot = collections.Counter(dict(ka))
            tot.update(dict(kb))
            key = tuple(sorted((k, v % mods(k)) for k, v in tot.items() if v % mods(k)))
            out[key] += pa * pb
    return dict(out)


def distribution(spec, entries, q, dims):
    """Distribution of the errors on qudit q after this gate: multiset of operations -> probability."""
    d = dims[q]
    mods = lambda k: d if k in (("x",), ("z",)) else 2  # noqa: E731
    dist = {(): 1.0}
    for scope, noise in entries:
        if q not in affected(spec, scope, len(dims)):
            continue
        p, f = noise["dep"], noise["deph"]
        if noise["kind"] == "math":
            one = {tuple(sorted((k, v) for k, v in ((("x",), a), (("z",), b)) if v)): p / d ** 2 for a in range(d) for b in range(d)}
            one[()] += 1 - p
            dist = convolve(dist, one, mods)
            two = {(((("z",), k),) if k else ()): f / d for k in range(d)}
            two[()] += 1 - f
            dist = convolve(dist, two, mods)
        else:
            for la, lb in levels_of(spec, noise, dims):
                one = {(): 1 - 0.75 * p, ((("nx", la, lb), 1),): p / 4, ((("nz", lb), 1),): p / 4, ((("ny", la, lb), 1),): p / 4}
                dist = convolve(dist, one, mods)
                for lev in range(d):
                    if lev not in (la, lb):
                        dist = convolve(dist, {(): 1 - f, ((("nz", lev), 1),): f}, mods)
    return {k: v for k, v in dist.items() if v > 1e-15}


def fits(spec, entries, dims):
    """Physical noise needs its levels on every qudit it is applied to."""
    for scope, noise in entries:
        if noise["kind"] != "math":
            for q in affected(spec, scope, len(dims)):
                if any(max(lv) >= dims[q] for lv in levels_of(spec, noise, dims)):
                    return False
    return True


def key_of(op):
    t = type(op).__name__
    if op.dagger or op.control_info["controls"] is not None:
        return None
    if t == "X":
        return ("x",)
    if t == "Z":
        return ("z",)
    if t == "NoiseX":
        return ("nx", *sorted((op.lev_a, op.lev_b)))
    if t == "NoiseY":
        return ("ny", *sorted((op.lev_a, op.lev_b)))
    if t == "VirtRz" and abs((op.phi - np.pi + np.pi) % (2 * np.pi) - np.pi) < 1e-9:
        return ("nz", op.lev_a)
    return None


def same_gate(g, h):
    return type(g) is type(h) and g.qasm_tag == h.qasm_tag and lines(g) == lines(h) and bool(g.dagger) == bool(h.dagger) and \
        gen.close(np.asarray(g.__array__()), np.asarray(h.__array__()), 1e-12) and \
        (g.control_info["controls"] is None or list(g.control_info["controls"].ctrl_states) == list(h.control_info["controls"].ctrl_states))


def segments(case_gates, c, noisy):
    """Split a realisation at the original gates (marked beforehand; gates are copied with their attributes)."""
    ops = list(noisy.instructions)
    require(noisy.number_gates == len(ops), f"the noisy circuit counts {noisy.number_gates} gates but has {len(ops)}")
    pos = [k for k, g in enumerate(ops) if getattr(g, "pbt_mark", None) is not None]
    if not pos and c.instructions:      # gates were rebuilt; fall back to matching them greedily
        k = 0
        for g in c.instructions:
            while k < len(ops) and not same_gate(g, ops[k]):
                k += 1
            pos.append(k); k += 1
    require(len(pos) == len(c.instructions), f"{len(pos)} of {len(c.instructions)} original gates are in the noisy circuit")
    for k, g in zip(pos, c.instructions):
        require(k < len(ops) and same_gate(g, ops[k]), "the original gates are not in the noisy circuit, in their order")
    require(pos[0] == 0 if pos else not ops, "errors before the first gate")
    out = []
    for i, k in enumerate(pos):
        seg = collections.defaultdict(collections.Counter)
        for op in ops[k + 1:(pos[i + 1] if i + 1 < len(pos) else len(ops))]:
            key = key_of(op)
            require(key is not None and len(lines(op)) == 1, f"the operation {type(op).__name__} on {lines(op)} is no error of any model")
            seg[lines(op)[0]][key] += 1
        out.append(seg)
    return out


def reduced(counter, d):
    mods = lambda k: d if k in (("x",), ("z",)) else 2  # noqa: E731
    return tuple(sorted((k, v % mods(k)) for k, v in counter.items() if v % mods(k)))


@st.composite
def entry_lists(draw, dims, gates, n_max, p=None):
    entries = []
    for _ in range(draw(st.integers(1, n_max))):
        spec = draw(st.sampled_from(gates))
        scope = draw(st.sampled_from(scopes(spec)))
        named = [s for s in gates if scope in scopes(s)]
        tags = sorted({TAG.get(s["g"], s["g"]) for s in draw(st.lists(st.sampled_from(named), max_size=2))} | {TAG.get(spec["g"], spec["g"])})
        # a tag may occur in the circuit with other scopes (e.g. with and without controls)
        tags = [t for t in tags if all(scope in scopes(s) for s in gates if TAG.get(s["g"], s["g"]) == t)]
        dyn = all(s["g"] in DYNAMIC for s in gates if TAG.get(s["g"], s["g"]) in tags)
        if not tags or any(t in e["tags"] and e["scope"] == scope for e in entries for t in tags):
            continue
        entries.append({"tags": tags, "scope": scope, "noise": draw(noise_spec(min(dims), dyn, p))})
    return entries


def make_model(entries):
    from mqt.qudits.simulation.noise_tools import NoiseModel
    m = NoiseModel()
    for e in entries:
        getattr(m, METHOD[e["scope"]])(make_noise(e["noise"]), list(e["tags"]))
    return m


def entries_for(spec, entries):
    return [(e["scope"], e["noise"]) for e in entries if TAG.get(spec["g"], spec["g"]) in e["tags"]]


@st.composite
def structure_case(draw):
    dims = list(draw(gen.dims_list(1, 4, 2, 5, 64)))
    gs = draw(gen.gates(dims, 1, 7, kinds=KINDS, p_ctl=0.4, max_ctl=2))
    return {"dims": dims, "gates": gs, "model": draw(entry_lists(dims, gs, 4)), "dup": draw(st.integers(0, 5)) == 0}


@st.composite
def wide_case(draw):
    """Five to eight qudits, up to three controls; or a long circuit on a few."""
    if draw(st.integers(0, 4)) == 0:
        dims = list(draw(gen.dims_list(1, 3, 2, 16, 200)))
        gs = draw(gen.gates(dims, 1, 6, kinds=KINDS, p_ctl=0.3, max_ctl=2))
    elif draw(st.booleans()):
        dims = list(draw(gen.dims_list(5, 8, 2, 5, 300)))
        gs = draw(gen.gates(dims, 1, 6, kinds=KINDS, p_ctl=0.5, max_ctl=3))
    else:
        dims = list(draw(gen.dims_list(1, 4, 2, 7, 100)))
        gs = draw(gen.gates(dims, 8, 25, kinds=KINDS, p_ctl=0.3, max_ctl=2))
    return {"dims": dims, "gates": gs, "model": draw(entry_lists(dims, gs, 6)), "dup": False}


def realise(c, model, n):
    from mqt.qudits.simulation.noise_tools import NoisyCircuitFactory
    f = NoisyCircuitFactory(model, c)
    return [f.generate_circuit() for _ in range(n)]


def marked(case):
    c = gen.build(case["dims"], case["gates"])
    for i, g in enumerate(c.instructions):
        g.pbt_mark = i
    return c


def check_structure(case):
    dims, gs = case["dims"], case["gates"]
    c = marked(case)
    before = [(id(g), np.asarray(g.__array__()).tobytes(), g.dagger) for g in c.instructions]
    model = make_model(case["model"])
    text = str(model)
    if not all(fits(s, entries_for(s, case["model"]), dims) for s in gs):
        return False, "levels outside the qudits"
    dists = [[distribution(s, entries_for(s, case["model"]), q, dims) for q in range(len(dims))] for s in gs]
    some = False
    for noisy in realise(c, model, 3):
        require(list(noisy.dimensions) == dims and noisy.num_qudits == len(dims), "the noisy circuit is on another register")
        for i, seg in enumerate(segments(gs, c, noisy)):
            for q in range(len(dims)):
                key = reduced(seg[q], dims[q])
                some = some or bool(seg[q])
                require(key in dists[i][q], f"errors {key} on qudit {q} after gate {i} ({gs[i]['g']}), which the model does not allow")
                if not any(q in affected(gs[i], scope, len(dims)) and n["dep"] + n["deph"] > 0 for scope, n in entries_for(gs[i], case["model"])):
                    require(not seg[q], f"operations {dict(seg[q])} were inserted on qudit {q} after gate {i} although there is no error")
            require(set(seg) <= set(range(len(dims))), "errors outside the register")
        v = np.eye(int(np.prod(dims)), 1, dtype=complex)
        for g in noisy.instructions:
            v = ref.apply_object(v, dims, g)
        require(gen.close(np.array(noisy.simulate()).reshape(-1), v[:, 0], 1e-7), "simulating the noisy circuit gives another state than its gates")
    require(before == [(id(g), np.asarray(g.__array__()).tobytes(), g.dagger) for g in c.instructions] and c.number_gates == len(gs), "the circuit changed")
    require(str(model) == text, "the noise model changed")
    return some, "/".join(sorted({e["noise"]["kind"] for e in case["model"]})) or "empty"


@st.composite
def frequency_case(draw):
    dims = list(draw(gen.dims_list(1, 3, 2, 4, 30)))
    g = draw(gen.gate(dims, KINDS, p_ctl=0.4, max_ctl=2))
    p = st.sampled_from([0.0, 1.0, 0.9, 0.8, 0.6, 0.3])
    return {"dims": dims, "gates": [g, g, g], "model": draw(entry_lists(dims, [g], 2, p)), "reps": 300, "fresh": draw(st.booleans())}


@st.composite
def single_case(draw):
    """One gate, a kind and a scope drawn evenly; up to one entry per scope."""
    kind = draw(st.sampled_from(KINDS))
    lo = 3 if kind == "cu_multi" else 2 if len(KINDS) > KINDS.index(kind) >= KINDS.index("csum") else 1
    dims = list(draw(gen.dims_list(lo, 4, 2, 4, 48)))
    if kind == "s" and not any(map(gen.is_prime, dims)):
        dims[0] = 3
    g = draw(gen.gate(dims, [kind], p_ctl=0.6, max_ctl=3))
    tag = TAG.get(g["g"], g["g"])
    p = st.sampled_from([1.0, 1.0, 0.0, 0.9, 0.6])
    names = list(draw(st.permutations(scopes(g))))
    names = names[:draw(st.sampled_from([1, 1, 2, len(names)]))]
    return {"dims": dims, "gates": [g, g], "model": [{"tags": [tag], "scope": s, "noise": draw(noise_spec(min(dims), kind in DYNAMIC, p))} for s in names], "reps": 30, "fresh": draw(st.booleans())}


@st.composite
def levels_case(draw):
    """Errors of the mathematical kind on qudits with many levels."""
    dims = list(draw(st.one_of(gen.dims_list(1, 1, 6, 14, 14), gen.dims_list(2, 2, 2, 14, 60))))
    kind = draw(st.sampled_from(["h", "x", "z", "r", "cu_one", "virtrz", *(["csum", "cx"] if len(dims) > 1 else [])]))
    g = draw(gen.gate(dims, [kind], p_ctl=0.2, max_ctl=1))
    p = st.sampled_from([1.0, 1.0, 0.0, 0.8])
    return {"dims": dims, "gates": [g, g], "model": [{"tags": [TAG.get(g["g"], g["g"])], "scope": draw(st.sampled_from(scopes(g))), "noise": {"kind": "math", "dep": draw(p), "deph": draw(p)}}], "reps": 250, "fresh": False}


def check_frequency(case):
    from scipy.stats import binomtest
    dims, gs = case["dims"], case["gates"]
    c = marked(case)
    model = make_model(case["model"])
    entries = entries_for(gs[0], case["model"])
    if not fits(gs[0], entries, dims) or not entries:
        return False, "levels outside the qudits"
    reps = case["reps"]
    segs = []
    if case["fresh"]:       # every realisation by a factory of its own
        for _ in range(reps):
            segs.append(segments(gs, c, realise(c, model, 1)[0]))
    else:
        segs = [segments(gs, c, noisy) for noisy in realise(c, model, reps)]

    def test(k, n, p, what):
        p = min(max(p, 0.0), 1.0)
        pv = binomtest(k, n, p).pvalue if 0 < p < 1 else float(k == round(n * p))
        require(pv > 1e-10, f"{what}: {k} of {n}, expected a fraction of {p:.4g}")
    interesting = False
    for q in range(len(dims)):
        dist = distribution(gs[0], entries, q, dims)
        seen = collections.Counter(reduced(s[q], dims[q]) for seg in segs for s in seg)
        n = reps * len(gs)
        for key in set(seen) | set(dist):
            test(seen[key], n, dist.get(key, 0.0), f"errors {key} on qudit {q} after {gs[0]['g']}")
        for part in (("x",), ("z",)):       # the powers of each kind on their own
            num, share = collections.Counter(), collections.Counter()
            for key, k in seen.items():
                num[dict(key).get(part, 0)] += k
            for key, x in dist.items():
                share[dict(key).get(part, 0)] += x
            for v in set(num) | set(share):
                test(num[v], n, share[v], f"power {v} of {part[0]} on qudit {q} after {gs[0]['g']}")
        quiet = dist.get((), 0.0)
        interesting = interesting or 0 < quiet < 1
        if 0 < quiet < 1:       # errors after different gates are independent
            both = sum(not reduced(seg[i][q], dims[q]) and not reduced(seg[i + 1][q], dims[q]) for seg in segs for i in (0,))
            test(both, reps, quiet ** 2, f"no errors on qudit {q} after two gates in a row")
            pairs = sum(reduced(a[0][q], dims[q]) == () and reduced(b[0][q], dims[q]) == () for a, b in zip(segs[::2], segs[1::2]))
            test(pairs, len(segs) // 2, quiet ** 2, f"no errors on qudit {q} in two realisations in a row")
    hit = [q for q in range(len(dims)) if 0 < distribution(gs[0], entries, q, dims).get((), 0) < 1]
    if len(hit) > 1:            # and so are those on different qudits
        a, b = hit[:2]
        pa, pb = (distribution(gs[0], entries, q, dims)[()] for q in (a, b))
        both = sum(not reduced(s[a], dims[a]) and not reduced(s[b], dims[b]) for seg in segs for s in seg)
        test(both, reps * len(gs), pa * pb, f"no errors on qudits {a} and {b} together")
    return interesting, "/".join(sorted(f"{e['noise']['kind']}-{e['scope']}" for e in case["model"]))


@st.composite
def model_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["math", "phys", "phys", "dyn"]))
        n = {"kind": kind, "dep": draw(st.floats(0, 1)), "deph": draw(st.floats(0, 1)), "tuple": draw(st.booleans())}
        if kind == "phys":
            n["levels"] = [x if draw(st.booleans()) else x[::-1] for x in draw(st.lists(st.sampled_from([[0, 1], [0, 2], [1, 2], [2, 3], [0, 3]]), min_size=1, max_size=2, unique_by=tuple))]
        ops.append({"noise": n, "tags": draw(st.lists(st.sampled_from(["x", "h", "cx", "rxy"]), min_size=1, max_size=3, unique=True)), "scope": draw(st.sampled_from(sorted(METHOD)))})
    return {"ops": ops, "careful": draw(st.integers(0, 3)) > 0}


def check_model(case):
    """The registry against a dictionary: (gate, scope) -> noise; physical noise may be extended by other level pairs."""
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    m, want = NoiseModel(), {}
    given = []

    def shape(noise):
        if isinstance(noise, Noise):
            return ("math", noise.probability_depolarizing, noise.probability_dephasing)
        return {tuple(k): (v.probability_depolarizing, v.probability_dephasing) for k, v in noise.subspace_w_probs.items()}

    for op in case["ops"]:
        n = op["noise"]
        try:
            noise = make_noise(n)
        except ValueError:
            return False, "refused"
        pairs = [tuple(sorted(x)) for x in n.get("levels", [])]
        mine = ("math", n["dep"], n["deph"]) if n["kind"] == "math" else {k: (n["dep"], n["deph"]) for k in (pairs or [(-2, -1)])}
        given.append((noise, mine))
        ok = True
        for t in op["tags"]:
            old = want.get((t, op["scope"]))
            if old is not None and (isinstance(old, tuple) or isinstance(mine, tuple) or set(old) & set(mine) or (-2, -1) in old or (-2, -1) in mine):
                ok = False
        if not ok and case["careful"]:
            continue
        try:
            getattr(m, METHOD[op["scope"]])(noise, list(op["tags"]))
            done = True
        except (ValueError, AssertionError):
            done = False
        require(done == ok, f"adding {n} for {op['tags']} ({op['scope']}) was {'accepted' if done else 'refused'}")
        if not ok:
            break
        for t in op["tags"]:
            old = want.get((t, op["scope"]))
            want[t, op["scope"]] = mine if old is None else {**old, **mine}
        require(set(m.basis_gates) == {t for t, _ in want}, f"basis gates are {m.basis_gates}")
        got = {(t, s): shape(x) for t, e in m.quantum_errors.items() for s, x in e.items()}
        require(got == want, f"the model holds {got}, expected {want}")
        for x, w in given:
            require(shape(x) == w, "a noise object given to the model was changed by a later addition")
    return len(want) > 1, "complete" if ok or case["careful"] else "ended by a refusal"


MI_KINDS = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "csum", "cx"]


@st.composite
def misim_case(draw):
    dims = list(draw(gen.dims_list(1, 3, 2, 5, 40)))
    gs = draw(gen.gates(dims, 1, 4, kinds=MI_KINDS, controls=False))
    model, names = [], sorted({TAG.get(s["g"], s["g"]) for s in gs})
    for tag in draw(st.lists(st.sampled_from(names), min_size=1, max_size=2, unique=True)):
        two = tag in ("csum", "cx")
        scope = draw(st.sampled_from(["local", "all", "nonlocal", "control", "target"] if two else ["local", "all"]))
        p = st.sampled_from([0.5, 0.0, 0.2, 0.8, 1.0, 0.35])
        model.append({"tags": [tag], "scope": scope, "noise": {"kind": "math", "dep": draw(p), "deph": draw(p)}})
    return {"dims": dims, "gates": gs, "model": model, "reps": 150}


@st.composite
def misim_single(draw):
    """One noisy gate among certain errors, its kind and scope drawn evenly, on a register in a superposition."""
    kind = draw(st.sampled_from(MI_KINDS + ["csum", "cx"] * 3))
    two = kind in ("csum", "cx")
    dims = list(draw(gen.dims_list(2 if two else 1, 5, 2, 5, 150)))
    if kind == "s" and not any(map(gen.is_prime, dims)):
        dims[0] = 3
    g = draw(gen.gate(dims, [kind], controls=False))
    other = "h" if kind != "h" else "csum"
    prep = [{"g": "h", "t": [q], "p": None, "c": None, "dag": False} for q in range(len(dims))] if other == "h" and draw(st.booleans()) else []
    if kind != "r":
        prep += [{"g": "r", "t": [q], "p": [0, 1, draw(st.floats(0.2, 1.4)), draw(st.floats(-3, 3))], "c": None, "dag": False} for q in range(len(dims))]
    all_scopes = ["local", "all", "nonlocal", "control", "target"] if two else ["local", "all"]
    names = [draw(st.sampled_from(all_scopes))]     # the order of the errors of several scopes is open
    p = st.sampled_from([1.0, 1.0, 0.0])
    model = [{"tags": [TAG.get(kind, kind)], "scope": s, "noise": {"kind": "math", "dep": draw(p), "deph": draw(p)}} for s in names]
    return {"dims": dims, "gates": prep + [g], "model": model, "reps": 60}


def check_misim(case):
    """The decision-diagram simulator applies X and Z (for rotations: on the levels of the gate) to all selected qudits."""
    from mqt.qudits.simulation import MQTQuditProvider
    from scipy.stats import binomtest
    dims, gs = case["dims"], case["gates"]
    branches = [([], 1.0)]

    def errors(s, q, what):
        if s["g"] in ("r", "rz", "virtrz"):
            if s["g"] == "virtrz":
                a = s["p"][0]
                lv = [a, a + 1] if a != dims[q] - 1 else [dims[q] - 2, dims[q] - 1]
            else:
                lv = list(s["p"][:2])
            if max(lv) >= dims[q]:
                return None
            return {"g": "r", "t": [q], "c": None, "dag": False, "p": [*lv, np.pi, np.pi / 2]} if what == "x" else {"g": "rz", "t": [q], "c": None, "dag": False, "p": [*lv, np.pi]}
        return {"g": what, "t": [q], "c": None, "dag": False, "p": None}

    for s in gs:
        new = [(b + [s], p) for b, p in branches]
        for scope, noise in entries_for(s, case["model"]):
            qs = affected(s, scope, len(dims))
            for what, pr in (("x", noise["dep"]), ("z", noise["deph"])):
                ops = [errors(s, q, what) for q in qs]
                if any(o is None for o in ops):
                    return False, "levels outside the qudits"
                new = [(b, p * (1 - pr)) for b, p in new] + [(b + ops, p * pr) for b, p in new]
                new = [(b, p) for b, p in new if p > 0]
        branches = new
        if len(branches) > 64:
            return False, "too many outcomes"
    states = []
    for b, p in branches:
        v = ref.circuit_state(b, dims)
        for k, (w, pw) in enumerate(states):
            if gen.close(v, w, 1e-7):
                states[k] = (w, pw + p)
                break
        else:
            states.append((v, p))
    c = gen.build(dims, gs)
    model = make_model(case["model"])
    backend = MQTQuditProvider().get_backend("misim")
    seen = [0] * len(states)
    n = case["reps"] if len(states) > 1 else 3
    for _ in range(n):
        v = np.array(backend.execute(c, model)).reshape(-1)
        hit = [k for k, (w, _) in enumerate(states) if gen.close(v, w, 1e-6)]
        require(hit, "a noisy run ended in a state that no errors of the model lead to")
        seen[hit[0]] += 1
    for k, (_, p) in enumerate(states):
        pv = binomtest(seen[k], n, min(1.0, p)).pvalue
        require(pv > 1e-10, f"one of the noisy states was reached in {seen[k]} of {n} runs, expected a fraction of {p:.4g}")
    require(c.number_gates == len(gs) == len(c.instructions), "the circuit changed")
    return len(states) > 1, f"{min(len(states), 5)} states/" + "+".join(e["scope"] for e in case["model"])


@st.composite
def misfit_case(draw):
    """One gate and certain errors that do not fit it: a scope it does not have, levels a qudit lacks, the pair of a gate without one."""
    dims = list(draw(gen.dims_list(1, 4, 2, 5, 64)))
    how = draw(st.sampled_from(["scope", "levels", "levels", "pair"]))
    kinds = KINDS if how != "pair" else [k for k in KINDS if k not in DYNAMIC]
    spec = draw(gen.gate(dims, kinds, p_ctl=0.4))
    other = draw(gen.gates(dims, 0, 2, kinds=[k for k in KINDS if k != spec["g"]], p_ctl=0.3))
    noise = {"kind": "math", "dep": 1.0, "deph": draw(st.sampled_from([0.0, 1.0]))}
    if how == "scope":
        wrong = [x for x in METHOD if x not in scopes(spec)]
        if not wrong:
            return None
        scope = draw(st.sampled_from(wrong))
    else:
        scope = draw(st.sampled_from(scopes(spec)))
        qs = affected(spec, scope, len(dims))
        if how == "levels":
            lo = min(dims[q] for q in qs)
            hi = draw(st.integers(lo, lo + 2))
            pair = [draw(st.integers(0, hi - 1)), hi]
            noise = dict(noise, kind="phys", levels=[pair if draw(st.booleans()) else pair[::-1]])
        else:
            noise = dict(noise, kind="dyn")
    k = draw(st.integers(0, len(other)))
    return {"dims": dims, "gates": [*other[:k], spec, *other[k:]], "at": k, "how": how,
            "model": [{"tags": [TAG.get(spec["g"], spec["g"])], "scope": scope, "noise": noise}]}


def check_misfit(case):
    if case is None:
        return False, "every scope fits"
    dims, k = case["dims"], case["at"]
    e = case["model"][0]
    spec = case["gates"][k]
    c = marked(case)
    model = make_model(case["model"])
    text = str(model)
    refused = 0
    for _ in range(3):
        try:
            noisy, = realise(c, model, 1)
        except Exception:      # noqa: BLE001  refused
            refused += 1
            continue
        ok = [] if case["how"] != "levels" else [q for q in affected(spec, e["scope"], len(dims)) if dims[q] > max(e["noise"]["levels"][0])]
        for i, seg in enumerate(segments(case["gates"], c, noisy)):
            for q, ops in seg.items():
                require(i == k and q in ok, f"errors {dict(ops)} on qudit {q} after gate {i}, where the model has none that fits ({case['how']}, scope {e['scope']})")
    require(c.number_gates == len(case["gates"]) and str(model) == text, "the circuit or the noise model changed")
    require(refused in (0, 3) or case["how"] == "levels", "the same model is refused once and accepted once")
    return True, f"{case['how']}/{'refused' if refused else 'nothing inserted'}"


SUBS = [
    Sub("structure", structure_case(), check_structure, 200, 4000, "random circuits and models, three realisations each; non-trivial: errors were inserted"),
    Sub("wide", wide_case(), check_structure, 50, 1000, "the same on wide registers, with up to 16 levels, and with long circuits"),
    Sub("frequency", frequency_case(), check_frequency, 40, 800, "900 realisations of the errors after one gate; exact binomial tests with error probability 1e-10; non-trivial: an error probability strictly between 0 and 1"),
    Sub("single", single_case(), check_frequency, 350, 6000, "60 realisations of the errors after one gate, gate kind and scopes drawn evenly; the same tests"),
    Sub("levels", levels_case(), check_frequency, 40, 800, "500 realisations of the errors on qudits of up to 14 levels; non-trivial: both outcomes possible"),
    Sub("misfit", misfit_case(), check_misfit, 300, 5000, "certain errors with a scope or levels that do not fit the gate: refused, or nothing is inserted there; non-trivial: every evaluated case"),
    Sub("model", model_case(), check_model, 400, 10000, "histories of additions to a model; non-trivial: several gates or scopes"),
    Sub("misim", misim_case(), check_misim, 150, 1500, "noisy runs of the decision-diagram simulator against the states the model allows; non-trivial: several possible states"),
    Sub("certain", misim_single(), lambda c: (lambda r: (bool(r[0] or not r[1].startswith("levels")), r[1]))(check_misim(c)), 400, 5000, "the same with certain errors after one gate, gate kind and scope drawn evenly; non-trivial: every evaluated case"),
]
