"""C19: shot-based simulation."""
from __future__ import annotations
import collections, os, pathlib, shutil, tempfile, contextlib, io
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c18 import MI_KINDS, KINDS, TAG, affected, distribution, entries_for, entry_lists, fits, make_model
from .core import Sub, require

ALPHA = 1e-10


def names(gs):
    return sorted({TAG.get(s["g"], s["g"]) for s in gs})


def exact(k, n, p, what):
    from scipy.stats import binomtest
    p = min(max(float(p), 0.0), 1.0)
    if p < 1e-12 or p > 1 - 1e-12:
        require(k == (n if p > 0.5 else 0), f"{what}: {k} of {n}, expected a fraction of {p:.3g}")
    else:
        require(binomtest(k, n, p).pvalue > ALPHA, f"{what}: {k} of {n}, expected a fraction of {p:.4g}")


def judge(counts, probs, shots):
    n = len(probs)
    require(len(counts) == shots, f"{len(counts)} outcomes for {shots} shots")
    for r in counts:
        require(isinstance(r, (int, np.integer)) and 0 <= r < n, f"outcome {r!r} is no basis state of a register with {n} basis states")
    seen = collections.Counter(int(r) for r in counts)
    for i in range(n):
        exact(seen[i], shots, probs[i], f"outcome {i}")
    # outcomes of different shots are independent, whether they follow each other or not
    for lag in (1, 2, 3, 5):
        pairs = [(counts[i], counts[i + lag]) for i in range(0, shots - lag) if (i // lag) % 2 == 0]
        exact(sum(a == b for a, b in pairs), len(pairs), float(np.sum(np.asarray(probs) ** 2)), f"equal outcomes {lag} shots apart")
    k = [int(r) for r in counts]
    top = int(np.argmax(probs))
    m = shots // 2
    exact(sum(a == top and b == top for a, b in zip(k[:m], k[m:2 * m])), m, probs[top] ** 2, f"outcome {top} in the same place of both halves")


def backend(name):
    from mqt.qudits.simulation import MQTQuditProvider
    return MQTQuditProvider().get_backend(name)


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@st.composite
def ideal_case(draw):
    sim = draw(st.sampled_from(["tnsim", "misim"]))
    dims = list(draw(gen.dims_list(1, 3, 2, 5, 60)))
    gs = draw(gen.gates(dims, 1, 7, kinds=MI_KINDS if sim == "misim" else KINDS, controls=sim != "misim", p_ctl=0.3))
    how = draw(st.sampled_from(["empty", "other gates", "zero"]))
    return {"sim": sim, "dims": dims, "gates": gs, "how": how, "shots": draw(st.sampled_from([50, 51, 200, 500, 997]))}


@st.composite
def wide_ideal(draw):
    sim = draw(st.sampled_from(["tnsim", "misim"]))
    dims = list(draw(gen.dims_list(4, 7, 2, 5, 250)))
    gs = draw(gen.gates(dims, 3, 12, kinds=MI_KINDS if sim == "misim" else KINDS, controls=sim != "misim", p_ctl=0.3))
    return {"sim": sim, "dims": dims, "gates": gs, "how": draw(st.sampled_from(["empty", "other gates", "zero"])), "shots": draw(st.sampled_from([50, 200, 500]))}


def check_ideal(case):
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    dims, gs = case["dims"], case["gates"]
    c = gen.build(dims, gs)
    m = NoiseModel()
    if case["how"] == "other gates":
        other = [t for t in ("x", "z", "h", "csum", "rxy", "rz") if t not in names(gs)]
        m.add_quantum_error_locally(Noise(0.9, 0.9), other)
    elif case["how"] == "zero":
        m.add_all_qudit_quantum_error(Noise(0.0, 0.0), names(gs))
    res = backend(case["sim"]).run(c, noise_model=m, shots=case["shots"]).result()
    want = ref.circuit_state(gs, dims)
    require(gen.close(np.array(res.get_state_vector()).reshape(-1), want, 1e-7), "the reported state is not the ideal state")
    judge(list(res.get_counts()), np.abs(want) ** 2, case["shots"])
    return int(np.sum(np.abs(want) ** 2 > 1e-3)) > 1, f"{case['sim']}/{case['how']}"


def operator_of(key, d):
    """Matrix of a multiset of error operations (they commute up to a phase where this is used)."""
    m = np.eye(d, dtype=complex)
    for (k, times) in key:
        spec = {"x": ("x", None), "z": ("z", None), "nx": ("noisex", list(k[1:])), "ny": ("noisey", list(k[1:])), "nz": ("virtrz", [*k[1:], np.pi])}[k[0]]
        one = ref.matrix({"g": spec[0], "t": [0], "c": None, "dag": False, "p": spec[1]}, [d])
        m = np.linalg.matrix_power(one, times) @ m
    return m


def noisy_probs(case):
    dims, gs = case["dims"], case["gates"]
    n = int(np.prod(dims))
    rho = np.zeros((n, n), dtype=complex); rho[0, 0] = 1
    for s in gs:
        u = ref.operator(s, dims)
        rho = u @ rho @ u.conj().T
        es = entries_for(s, case["model"])
        if case["sim"] == "misim":
            for scope, noise in es:
                for what, p in (("x", noise["dep"]), ("z", noise["deph"])):
                    v = np.eye(n)
                    for q in affected(s, scope, len(dims)):
                        v = ref.operator({"g": what, "t": [q], "c": None, "dag": False, "p": None}, dims) @ v
                    rho = (1 - p) * rho + p * v @ rho @ v.conj().T
            continue
        for q in range(len(dims)):
            dist = distribution(s, es, q, dims)
            if set(dist) == {()}:
                continue
            new = np.zeros_like(rho)
            left, right = int(np.prod(dims[:q])), int(np.prod(dims[q + 1:]))
            for key, p in dist.items():
                v = np.kron(np.kron(np.eye(left), operator_of(key, dims[q])), np.eye(right))
                new += p * v @ rho @ v.conj().T
            rho = new
    return np.clip(np.real(np.diag(rho)), 0, 1)


def simple(model, gs):
    """One physical noise on one pair per gate, or mathematical noises only: there the order of errors does not matter."""
    out = []
    for s in gs:
        es = entries_for(s, model)
        if len(es) > 1 and any(n["kind"] != "math" for _, n in es):
            return False
        if any(len(n.get("levels", [0])) > 1 for _, n in es):
            return False
    return True


@st.composite
def noisy_case(draw, wide=False):
    sim = draw(st.sampled_from(["tnsim", "tnsim", "misim"]))
    dims = list(draw(gen.dims_list(4, 6, 2, 4, 80) if wide else gen.dims_list(1, 3, 2, 4, 30)))
    p = st.sampled_from([0.5, 0.0, 1.0, 0.9, 0.7, 0.3])
    if sim == "misim":
        gs = draw(gen.gates(dims, 1, 5, kinds=["x", "z", "h", "s", "csum", "cx"], controls=False))
        model = []
        for tag in draw(st.lists(st.sampled_from(names(gs)), min_size=1, max_size=2, unique=True)):
            scope = draw(st.sampled_from(["local", "all", "nonlocal", "control", "target"] if tag in ("csum", "cx") else ["local", "all"]))
            model.append({"tags": [tag], "scope": scope, "noise": {"kind": "math", "dep": draw(p), "deph": draw(p)}})
    else:
        gs = draw(gen.gates(dims, 1, 5, kinds=KINDS, p_ctl=0.3))
        model = draw(entry_lists(dims, gs, 3, p))
    return {"sim": sim, "dims": dims, "gates": gs, "model": model, "shots": draw(st.sampled_from([200, 500, 997]))}


def check_noisy(case):
    dims, gs = case["dims"], case["gates"]
    if not simple(case["model"], gs) or not all(fits(s, entries_for(s, case["model"]), dims) for s in gs):
        return False, "order of errors matters"
    c = gen.build(dims, gs)
    res = backend(case["sim"]).run(c, noise_model=make_model(case["model"]), shots=case["shots"]).result()
    want = ref.circuit_state(gs, dims)
    require(gen.close(np.array(res.get_state_vector()).reshape(-1), want, 1e-7), "the reported state is not the ideal state")
    probs = noisy_probs(case)
    judge(list(res.get_counts()), probs, case["shots"])
    return bool(np.max(np.abs(probs - np.abs(want) ** 2)) > 0.05), case["sim"]


@st.composite
def saving_case(draw):
    base = draw(noisy_case())
    return {**base, "shots": draw(st.sampled_from([50, 64, 101, 260, 401])), "memory": draw(st.booleans()), "full": draw(st.booleans()),
            "path": draw(st.booleans()), "file": draw(st.booleans()), "quiet": draw(st.booleans()), "old": draw(st.booleans())}


def check_saving(case):
    import h5py
    dims, gs = case["dims"], case["gates"]
    n = int(np.prod(dims))
    if not all(fits(s, entries_for(s, case["model"]), dims) for s in gs):
        return False, "levels outside the qudits"
    c = gen.build(dims, gs)
    model = make_model([] if case["quiet"] else case["model"])
    scratch = tempfile.mkdtemp(prefix="pbt-c19-")
    here = os.getcwd()
    try:
        os.chdir(scratch)
        opts = {"noise_model": model, "shots": case["shots"], "memory": case["memory"], "full_state_memory": case["full"]}
        pathlib.Path("out").mkdir()
        if case["old"]:     # results of an earlier run are replaced
            with h5py.File("out/run.h5", "w") as f:
                f.create_dataset("shots", data=np.arange(3)); f.create_dataset("vectors", data=np.arange(3))
        if case["path"]:
            opts["file_path"] = str(pathlib.Path(scratch) / "out")
        if case["file"]:
            opts["file_name"] = "run.h5"
        res = quiet(backend(case["sim"]).run, c, **opts).result()
        counts = list(res.get_counts())
        require(len(counts) == case["shots"], f"{len(counts)} results for {case['shots']} shots")
        if case["full"]:
            for v in counts:
                v = np.asarray(v)
                require(v.size == n and abs(np.linalg.norm(v) - 1) < 1e-6, f"a shot returned an array of {v.size} entries, norm {np.linalg.norm(v):.4g}")
            if case["quiet"]:
                want = ref.circuit_state(gs, dims)
                require(all(gen.close(np.asarray(v).reshape(-1), want, 1e-7) for v in counts), "without noise a shot ended in another state")
        else:
            require(all(isinstance(r, (int, np.integer)) and 0 <= r < n for r in counts), "an outcome is no basis state")
        wanted = case["path"] and case["file"] and (case["memory"] or case["full"])
        files = sorted(str(p.relative_to(scratch)) for p in pathlib.Path(scratch).rglob("*") if p.is_file())
        require(files == (["out/run.h5"] if wanted or case["old"] else []), f"files written: {files}")
        if wanted:
            with h5py.File("out/run.h5", "r") as f:
                if case["full"]:
                    require(list(f) == ["vectors"], f"the file holds {list(f)}")
                    rec = f["vectors"][()]
                    require(len(rec) == len(counts) and all(np.array_equal(np.asarray(r["vector_data"]).reshape(-1), np.asarray(v).reshape(-1)) for r, v in zip(rec, counts)), "the stored states are not those returned")
                    require(len({bytes(r["name"]) for r in rec}) == len(counts), "stored states share their names")
                else:
                    require(list(f) == ["shots"], f"the file holds {list(f)}")
                    rec = f["shots"][()]
                    require([int(x) for x in rec["shot"]] == [int(x) for x in counts] and list(rec["nr"]) == list(range(len(counts))), "the stored outcomes are not those returned")
    finally:
        os.chdir(here)
        shutil.rmtree(scratch, ignore_errors=True)
    return wanted, f"{case['sim']}/{'states' if case['full'] else 'shots' if case['memory'] else 'none'}"


@st.composite
def states_case(draw):
    dims = list(draw(gen.dims_list(1, 2, 2, 4, 16)))
    k = draw(st.integers(2, 6))
    sim = draw(st.sampled_from(["tnsim", "misim"]))
    q = draw(st.integers(0, len(dims) - 1))
    return {"sim": sim, "dims": dims, "q": q, "k": k, "p": draw(st.sampled_from([0.5, 0.3, 0.7])), "shots": draw(st.sampled_from([64, 200, 400]))}


def check_states(case):
    """A chain of x gates with noise: the returned states show which errors happened; shots have independent errors."""
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel
    dims, q, d, shots = case["dims"], case["q"], case["dims"][case["q"]], case["shots"]
    gs = [{"g": "x", "t": [q], "c": None, "dag": False, "p": None}] * case["k"]
    c = gen.build(dims, gs)
    m = NoiseModel()
    m.add_quantum_error_locally(Noise(case["p"], 0.0), ["x"])
    res = quiet(backend(case["sim"]).run, c, noise_model=m, shots=shots, full_state_memory=True).result()
    right = int(np.prod(dims[q + 1:]))
    levels = []
    for v in res.get_counts():
        p = np.abs(np.asarray(v).reshape(-1)) ** 2
        i = int(np.argmax(p))
        require(p[i] > 1 - 1e-6 and i % right == 0 and i // right < d, f"a shot ended in a state that x gates and their errors do not lead to")
        levels.append((i // right - case["k"]) % d)     # extra shifts
    one = np.zeros(d)
    if case["sim"] == "misim":
        one[0] += 1 - case["p"]; one[1 % d] += case["p"]
    else:
        one += case["p"] / d; one[0] += 1 - case["p"]
    dist = np.eye(d)[0]
    for _ in range(case["k"]):
        dist = sum(one[j] * np.roll(dist, j) for j in range(d))
    for j in range(d):
        exact(levels.count(j), shots, dist[j], f"{j} extra shifts")
    for lag in range(1, 9):
        pairs = [(levels[i], levels[i + lag]) for i in range(0, shots - lag) if (i // lag) % 2 == 0]
        exact(sum(a == b for a, b in pairs), len(pairs), float(np.sum(dist ** 2)), f"equal errors {lag} shots apart")
    return True, case["sim"]


SUBS = [
    Sub("ideal", ideal_case(), check_ideal, 110, 1200, "noise models without effect; non-trivial: several possible outcomes"),
    Sub("noisy", noisy_case(), check_noisy, 140, 2000, "outcomes against the density matrix of the noisy circuit; non-trivial: noise changes a probability by more than 0.05"),
    Sub("wide_ideal", wide_ideal(), check_ideal, 30, 400, "the first on four to seven qudits"),
    Sub("wide_noisy", noisy_case(True), check_noisy, 30, 500, "the second on four to six qudits"),
    Sub("states", states_case(), check_states, 60, 800, "states of the shots of noisy chains; non-trivial: all"),
    Sub("saving", saving_case(), check_saving, 90, 1000, "result files against the returned results; non-trivial: a file was requested"),
]
