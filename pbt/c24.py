"""C24: providers, backends, options, jobs and saved results over histories of runs."""
from __future__ import annotations
import contextlib
import io
import os
import shutil
import tempfile
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c16 import lines
from .core import Sub, require

NAMES = ["tnsim", "misim", "innsbruck01", "faketraps2trits", "faketraps2six", "faketraps3six"]
DEFAULT = {"shots": 50, "memory": False, "noise_model": None, "file_path": None, "file_name": None, "full_state_memory": False}
PERM = ["x", "csum", "pm", "z"]
MI_KINDS = ["x", "z", "h", "h", "r", "r", "rz", "rh", "virtrz", "csum", "cx"]
TN_KINDS = [*MI_KINDS, "s", "pm", "ls", "ms", "cu_one", "cu_two", "cu_multi"]


def provider():
    from mqt.qudits.simulation import MQTQuditProvider
    return MQTQuditProvider()


def classes():
    from mqt.qudits.simulation.backends import Innsbruck01, MISim, TNSim
    from mqt.qudits.simulation.backends.fake_backends import FakeIonTraps2Six, FakeIonTraps2Trits, FakeIonTraps3Six
    return dict(zip(NAMES, [TNSim, MISim, Innsbruck01, FakeIonTraps2Trits, FakeIonTraps2Six, FakeIonTraps3Six]))


# ---------------------------------------------------------------- names
@st.composite
def name_case(draw):
    base = draw(st.sampled_from(NAMES))
    how = draw(st.sampled_from(["exact", "part", "mangled", "text", "none"]))
    if how == "exact":
        name = base
    elif how == "part":
        a = draw(st.integers(0, len(base) - 1))
        name = base[a:draw(st.integers(a + 1, len(base)))]
    elif how == "mangled":
        k = draw(st.integers(0, len(base)))
        name = base[:k] + draw(st.sampled_from("xq_7 ")) + base[k:]
    else:
        name = draw(st.text("abcdefikmnorstu0123456789_-", min_size=1, max_size=9))
    return {"name": None if how == "none" else name}


def check_name(case):
    p, name = provider(), case["name"]
    require(sorted(p.backends()) == sorted(NAMES), "the provider does not list its backends")
    if name is None:
        try:
            p.get_backend(None)
        except ValueError:
            return True, "none"
        require(False, "a backend was chosen without a name")
    hits = [n for n in NAMES if name in n]
    require(sorted(p.backends(name)) == sorted(hits), "the backends listed for a name are not those that match it")
    if name in NAMES or len(hits) == 1:
        b = p.get_backend(name)
        require(type(b) is classes()[name if name in NAMES else hits[0]], f"'{name}' gave a {type(b).__name__}")
        require(b.provider is p, "the backend does not belong to the provider")
        return True, "exact" if name in NAMES else "part"
    try:
        b = p.get_backend(name)
    except ValueError:
        return True, "unknown" if not hits else "ambiguous"
    require(False, f"'{name}' gave a {type(b).__name__}, although {len(hits)} backends match")


# ---------------------------------------------------------------- histories
@st.composite
def options_(draw, noisy):
    out = {}
    if draw(st.integers(0, 3)) == 0:      # everything that is needed to save
        return {"shots": draw(st.sampled_from([50, 53])), draw(st.sampled_from(["memory", "full_state_memory"])): True, "noise_model": "flip", "file_path": draw(st.sampled_from(["a", "b"])), "file_name": "t.h5"}
    if draw(st.booleans()):
        out["shots"] = draw(st.sampled_from([50, 51, 64, 100]))
    if draw(st.booleans()):
        out["memory"] = draw(st.sampled_from([True, True, False]))
    if draw(st.integers(0, 3)) == 0:
        out["full_state_memory"] = draw(st.booleans())
    if draw(st.integers(0, 2)) > 0:
        out["noise_model"] = draw(st.sampled_from(noisy))
    if draw(st.integers(0, 1)):
        out["file_path"] = draw(st.sampled_from(["a", "b", "a", None]))
    if draw(st.integers(0, 1)):
        out["file_name"] = draw(st.sampled_from(["r.h5", "s.h5", "r.h5", None]))
    return out


@st.composite
def history(draw, kinds, gate_kinds=tuple(PERM)):
    circuits = []
    for _ in range(draw(st.integers(1, 3))):
        dims = list(draw(gen.dims_list(1, 3, 2, 4, 24)))
        circuits.append({"dims": dims, "gates": [draw(gen.gate(dims, list(gate_kinds), controls=False)) for _ in range(draw(st.integers(0, 4)))]})
    noisy = ["flip", "empty", None, "flip"]
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(["run", "run", "run", "run", "edit", "edit", "set", "get", "bad"]))
        b = draw(st.integers(0, 2))
        if op == "run":
            ops.append(["run", b, draw(st.integers(0, 2)), draw(options_(noisy))])
        elif op == "edit":
            k = draw(st.integers(0, len(circuits) - 1))
            ops.append(["edit", b, k, draw(st.integers(0, 3)), draw(gen.gate(circuits[k]["dims"], list(gate_kinds), controls=False)), draw(st.integers(0, 3)) > 0])
        elif op == "set":
            ops.append(["set", b, draw(options_(noisy))])
        elif op == "get":
            ops.append(["get", b, draw(st.sampled_from(kinds)), draw(options_(noisy))])
        else:
            ops.append(["bad", b, draw(st.sampled_from(["shot", "noise", "Shots", "file"]))])
    return {"circuits": circuits, "start": [[draw(st.sampled_from(kinds)), draw(options_(noisy))] for _ in range(draw(st.integers(1, 2)))], "ops": ops}


def models():
    """No noise at all, a model without errors, and one that mostly exchanges two levels (tnsim) or shifts once more (misim) after every shift gate."""
    from mqt.qudits.simulation.noise_tools import Noise, NoiseModel, SubspaceNoise
    flip = NoiseModel()
    flip.add_quantum_error_locally(SubspaceNoise(1.0, 0.0, (0, 1)), ["x"])
    shift = NoiseModel()
    shift.add_quantum_error_locally(Noise(1.0, 0.0), ["x"])
    empty = NoiseModel()
    return {"tnsim": {None: None, "empty": empty, "flip": flip}, "misim": {None: None, "empty": empty, "flip": shift}}


def outcomes(spec, noise, kind):
    """Probability of every basis state a shot can end in."""
    dims = spec["dims"]
    e = np.zeros((int(np.prod(dims)), 1), complex)
    e[0] = 1
    states = [(1.0, e)]
    for g in spec["gates"]:
        states = [(p, ref.apply(e, dims, ref.matrix(g, dims), ref.order(g), g.get("c"))) for p, e in states]
        if noise == "flip" and g["g"] == "x":
            d = dims[g["t"][0]]
            m = np.eye(d)
            if kind == "misim":     # one more shift, always
                states = [(p, ref.apply(e, dims, np.roll(m, 1, axis=0), g["t"])) for p, e in states]
            else:                   # X or Y on the two levels in half of the cases
                m[[0, 1]] = m[[1, 0]]
                states = [(p / 2, x) for p, e in states for x in (e, ref.apply(e, dims, m, g["t"]))]
    out = {}
    for p, e in states:
        k = int(np.argmax(abs(e)))
        out[k] = out.get(k, 0) + p
    return out


def snapshot(c):
    return [(id(g), g.qasm_tag, lines(g), g.dagger, np.array(g.to_matrix(0))) for g in c.instructions], list(c.dimensions), c.number_gates


def same(a, b):
    return len(a[0]) == len(b[0]) and all(x[:4] == y[:4] and gen.close(x[4], y[4], 0) for x, y in zip(a[0], b[0])) and a[1:] == b[1:]


def saved(path):
    import h5py
    with h5py.File(path) as f:
        return {k: f[k][()] for k in f}


def check_history(case):
    p, mdl = provider(), models()
    specs = [{"dims": s["dims"], "gates": list(s["gates"])} for s in case["circuits"]]     # edited by the history
    circ = [gen.build(s["dims"], s["gates"]) for s in specs]
    held = [snapshot(c) for c in circ]
    root = tempfile.mkdtemp(prefix="c24_")
    for d in "ab":
        os.mkdir(os.path.join(root, d))
    backends, opts, jobs, ids = [], [], [], set()
    label = []

    def real(o, kind):
        o = dict(o)
        if "noise_model" in o:
            o["noise_model"] = mdl["misim" if kind == "misim" else "tnsim"][o["noise_model"]]
        if o.get("file_path"):
            o["file_path"] = os.path.join(root, o["file_path"])
        return o

    def get(kind, o):
        b = p.get_backend(kind, **real(o, kind))
        e = DEFAULT | o
        if kind == "innsbruck01":
            e["noise_model"] = None
        return b, e, kind

    def run(i, k, o):
        b, e, kind = backends[i]
        spec, c = specs[k], circ[k]
        e = e | o
        for d in "ab":
            for f in os.listdir(os.path.join(root, d)):
                os.unlink(os.path.join(root, d, f))
        with contextlib.redirect_stdout(io.StringIO()):
            job = b.run(c, **real(o, kind))
        require(job.backend() is b, "the job does not know its backend")
        require(job.job_id() not in ids, "two jobs have the same id")
        ids.add(job.job_id())
        counts, vec = list(job.result().get_counts()), np.asarray(job.result().get_state_vector())
        files = {os.path.join(d, f) for d in "ab" for f in os.listdir(os.path.join(root, d))}
        if kind == "innsbruck01":
            require(not counts and not files, "results without a machine")
            return
        n = int(np.prod(spec["dims"]))
        ideal = np.zeros(n, complex)
        want = ref.circuit_state(spec["gates"], spec["dims"]).ravel()
        require(gen.close(vec.ravel(), want, 1e-7), "the state vector is not that of the circuit")
        del ideal
        nm = e["noise_model"]
        require((nm is not None) == bool(counts), f"{len(counts)} samples with noise model '{nm}' in force")
        where = os.path.join(e["file_path"], e["file_name"]) if e["file_path"] and e["file_name"] and (e["memory"] or e["full_state_memory"]) and nm is not None else None
        require(files == ({where} if where else set()), f"files {sorted(files)} were written, expected {where}")
        if nm is None:
            jobs.append((job, vec.copy(), []))
            return
        require(len(counts) == e["shots"], f"{len(counts)} samples, {e['shots']} shots were asked for")
        dist = outcomes(spec, nm, kind)
        if e["full_state_memory"]:
            require(all(np.asarray(x).size == n for x in counts), "the recorded states have the wrong size")
            ends = [int(np.argmax(abs(np.asarray(x).ravel()))) for x in counts]
            require(all(abs(abs(np.asarray(x).ravel()[k]) - 1) < 1e-6 for x, k in zip(counts, ends)), "a recorded state is not one of the circuit")
        else:
            require(all(np.ndim(x) == 0 for x in counts), "states were recorded instead of outcomes")
            ends = [int(x) for x in counts]
        require(set(ends) <= set(dist), f"an outcome in {sorted(set(ends))}, possible with noise model '{nm}' are {sorted(dist)}")
        require(max(dist.values()) > 0.51 or len(set(ends)) > 1, f"noise model '{nm}' was not applied")      # by chance: below 2^-49
        if where:
            data = saved(os.path.join(root, where))
            if e["full_state_memory"]:
                v = data["vectors"]
                require(len(v) == len(counts) and all(gen.close(np.asarray(r["vector_data"]).ravel(), np.asarray(x).ravel(), 1e-12) for r, x in zip(v, counts)), "the saved states are not the recorded ones")
                require(len(set(r["name"] for r in v)) == len(v), "two saved states share a name")
            else:
                s = data["shots"]
                require([int(x) for x in s["shot"]] == [int(x) for x in counts] and [int(x) for x in s["nr"]] == list(range(len(counts))), "the saved outcomes are not the samples")
            label.append("saved")
        jobs.append((job, vec.copy(), [np.array(x) for x in counts]))

    try:
        for kind, o in case["start"]:
            backends.append(get(kind, o))
        ran = 0
        for op in case["ops"]:
            i = op[1] % len(backends)
            if op[0] == "run":
                run(i, op[2] % len(circ), op[3])
                ran += 1
            elif op[0] == "edit":
                k, pos, g, swap = op[2:]
                if specs[k]["gates"] and swap:      # as many gates as before
                    pos %= len(specs[k]["gates"])
                    new = gen.add(gen.new_circuit(specs[k]["dims"]), g)
                    circ[k].replace_gate(pos, [new])
                    specs[k]["gates"][pos] = g
                else:
                    gen.add(circ[k], g)
                    specs[k]["gates"].append(g)
                held[k] = snapshot(circ[k])
            elif op[0] == "get":
                if len(backends) < 3:
                    backends.append(get(op[2], op[3]))
                else:
                    backends[i] = get(op[2], op[3])
            elif op[0] == "set":
                b, e, kind = backends[i]
                b.set_options(**real(op[2], kind))
                backends[i] = (b, e | op[2], kind)
            else:
                b, e, kind = backends[i]
                try:
                    b.set_options(**{op[2]: 77})
                except AttributeError:
                    pass
                else:
                    require(False, f"option '{op[2]}' was accepted")
            for b, e, kind in backends:
                o = b.options
                for f, v in e.items():
                    if f in o:
                        w = real({f: v}, kind)[f]
                        require(o[f] is w if f == "noise_model" else o[f] == w, f"option {f} of a backend is {o[f]}, it was set to {v}")
                    else:
                        require(v == DEFAULT[f], f"option {f} of a backend was lost")
            require(all(same(x, snapshot(c)) for x, c in zip(held, circ)), "a run changed a circuit")
            for job, vec, cnt in jobs:
                r = job.result()
                require(gen.close(np.asarray(r.get_state_vector()), vec, 0) and len(r.get_counts()) == len(cnt) and all(np.array_equal(x, y) for x, y in zip(r.get_counts(), cnt)), "the result of an earlier job changed")
        return ran > 1, "saved" if label else ""
    finally:
        shutil.rmtree(root, ignore_errors=True)


# ---------------------------------------------------------------- programs that resemble each other
@st.composite
def twins(draw, kinds, total, controls):
    dims = list(draw(gen.dims_list(1, 3, 2, 5, total)))
    base = draw(gen.gates(dims, 1, 5, kinds=kinds, controls=controls, p_ctl=0.6))
    if draw(st.integers(0, 3)) > 0:
        base = [{"g": "h", "t": [q], "p": None, "c": None, "dag": False} for q in range(len(dims))] + base
    versions = [{"dims": dims, "gates": base, "how": "new", "same": True}]
    for _ in range(draw(st.integers(1, 4))):
        src = versions[draw(st.integers(0, len(versions) - 1))]
        ds, gs = list(src["dims"]), [dict(g) for g in src["gates"]]
        i = draw(st.integers(0, len(gs) - 1)) if gs else None
        if gs and draw(st.booleans()):
            i = len(gs) - 1
        g = gs[i] if gs else None
        ways = ["none", "dims", "more"]
        if gs:
            ways += ["less", "order", "dag", "dag"]
            if g["c"]:
                ways += ["level"] * 3 + ["uncontrolled"]
            if g["g"] in ("r", "rz", "virtrz", "ls", "ms", "cu_one", "cu_two", "cu_multi", "rh", "pm", "cx", "noisex", "noisey", "noisez"):
                ways += ["params"] * 4
            if len(g["t"]) == 1 and [q for q in range(len(ds)) if ds[q] == ds[g["t"][0]] and q not in g["t"] and q not in (g["c"] or [[]])[0]]:
                ways += ["target"] * 2
            if len(g["t"]) == 2 and ds[g["t"][0]] == ds[g["t"][1]] and g["g"] not in ("cu_two", "cu_multi"):
                ways += ["target"] * 2
        way = draw(st.sampled_from(ways))
        if way == "dims":
            ds.append(draw(st.integers(2, 3)))
        elif way == "more":
            gs.append(draw(gen.gate(ds, kinds=kinds, controls=controls)))
        elif way == "less":
            del gs[i]
        elif way == "order":
            gs.insert(draw(st.integers(0, len(gs) - 1)), gs.pop(i))
        elif way == "dag":
            g["dag"] = not g["dag"]
        elif way == "level":
            k = draw(st.integers(0, len(g["c"][0]) - 1))
            lv = list(g["c"][1])
            lv[k] = (lv[k] + 1) % ds[g["c"][0][k]]
            g["c"] = [g["c"][0], lv]
        elif way == "uncontrolled":
            g["c"] = None
        elif way == "params":
            for _ in range(20):
                other = draw(gen.gate(ds, kinds=[g["g"]], controls=False))
                if [ds[q] for q in other["t"]] == [ds[q] for q in g["t"]]:
                    g["p"] = other["p"]
                    break
        elif way == "target" and len(g["t"]) == 2:
            g["t"] = g["t"][::-1]
        elif way == "target":
            q = draw(st.sampled_from([q for q in range(len(ds)) if ds[q] == ds[g["t"][0]] and q not in g["t"] and q not in (g["c"] or [[]])[0]]))
            g["t"] = [q]
        versions.append({"dims": ds, "gates": gs, "how": draw(st.sampled_from(["new", "set", "copy"])), "same": draw(st.integers(0, 3)) > 0, "way": way})
    return {"versions": versions, "again": draw(st.booleans())}


def check_twins(case, kind):
    """A backend that has just simulated one program simulates another that differs from it in one detail."""
    p = provider()
    b, c, ways, made = p.get_backend(kind), None, set(), []
    for v in case["versions"] + (case["versions"][:1] if case["again"] else []):
        if not v["same"]:
            b = p.get_backend(kind)
        if c is None or v["how"] == "new" or list(c.dimensions) != v["dims"]:
            c = gen.build(v["dims"], v["gates"])
        elif v["how"] == "copy":
            c = c.copy()
            c.set_instructions(gen.build(v["dims"], v["gates"]).instructions)
        else:
            c.set_instructions(gen.build(v["dims"], v["gates"]).instructions)
        got = np.asarray(b.run(c).result().get_state_vector()).ravel()
        want = ref.circuit_state(v["gates"], v["dims"]).ravel()
        require(gen.close(got, want, 1e-7), f"run {len(made) + 1} of {kind} does not give the state of its circuit (changed: {v.get('way', 'first')})")
        made.append(want)
        ways.add(v.get("way"))
    nt = any(a.shape != z.shape or not gen.close(a, z, 1e-6) for a, z in zip(made, made[1:]))
    return nt, "different states" if nt else "equal states"


# ---------------------------------------------------------------- several devices
@st.composite
def device_case(draw):
    return {"name": draw(st.sampled_from(NAMES[3:])), "gates": draw(st.integers(0, 3)), "shots": draw(st.sampled_from([50, 60])), "mode": draw(st.sampled_from(["default", "off", "ctor"])), "s": draw(gen.seeds())}


def check_device(case):
    """Devices sample with their own noise unless the run says otherwise; two devices share nothing."""
    p = provider()
    dims = {"faketraps2trits": [3, 3], "faketraps2six": [6, 6], "faketraps3six": [6, 6, 6]}[case["name"]]
    n = int(np.prod(dims))
    c = gen.new_circuit(dims)
    rng = np.random.default_rng([41, case["s"]])
    specs = [{"g": "x", "t": [int(rng.integers(len(dims)))], "p": None, "c": None, "dag": False} for _ in range(case["gates"])]
    for s in specs:
        gen.add(c, s)
    for name, ds in {"innsbruck01": [3, 3], case["name"]: dims}.items():
        x, y = p.get_backend(name), p.get_backend(name)
        gs = [*x.energy_level_graphs, *y.energy_level_graphs]
        require(len({id(a) for a in gs}) == 2 * len(ds) and [a.number_of_nodes() for a in gs] == ds + ds, "two qudits share a level graph, or the device does not have one of the right size per qudit")
    b = p.get_backend(case["name"], **({"shots": case["shots"]} if case["mode"] == "ctor" else {}))
    other = p.get_backend(case["name"])
    require(b is not other and b.options is not other.options, "two backends share their options")
    g, h = b.energy_level_graphs, other.energy_level_graphs
    require(len(g) == len(dims) and all(x is not y for x, y in zip(g, h)), "two devices share a level graph, or do not have one per qudit")
    require([x.number_of_nodes() for x in g] == dims, "the device does not have the levels of its qudits")
    want = ref.circuit_state(specs, dims).ravel()
    kw = {"default": {"shots": case["shots"]}, "off": {"noise_model": None}, "ctor": {}}[case["mode"]]
    own = b.options["noise_model"]
    require(own is not None, "the device has no noise model")
    r = b.run(c, **kw).result()
    require(gen.close(np.asarray(r.get_state_vector()).ravel(), want, 1e-7), "the state vector is not that of the circuit")
    cnt = list(r.get_counts())
    require(len(cnt) == (0 if case["mode"] == "off" else case["shots"]) and all(0 <= int(x) < n for x in cnt), f"{len(cnt)} samples of a device with {case['shots']} shots asked for")
    require(b.options["noise_model"] is own, "a run changed the noise model of the device")
    again = list(b.run(c).result().get_counts())
    require(len(again) == (case["shots"] if case["mode"] == "ctor" else 50), "the next run of the device does not use its own options")
    require(len(list(other.run(c).result().get_counts())) == 50, "the other device does not use its own options")
    return case["gates"] > 0, case["mode"]


# ---------------------------------------------------------------- jobs
STATES = ["INITIALIZING", "QUEUED", "VALIDATING", "RUNNING", "CANCELLED", "DONE", "ERROR"]
FINAL = STATES[4:]


@st.composite
def job_case(draw):
    return {"seq": [draw(st.sampled_from(STATES[:4])) for _ in range(draw(st.integers(0, 5)))], "last": draw(st.sampled_from(FINAL)), "timeout": draw(st.sampled_from([None, None, 0])), "case": draw(st.sampled_from(["lower", "upper", "title"]))}


def check_job(case):
    from mqt.qudits.exceptions import JobTimeoutError
    from mqt.qudits.simulation.jobs import Job, JobStatus
    from mqt.qudits.simulation.jobs.jobstatus import JobStatusError  # noqa: F401
    seq = [JobStatus[s] for s in [*case["seq"], case["last"]]]

    class Scripted(Job):
        def __init__(self):
            super().__init__(None)
            self.left = list(seq)

        def status(self):
            s = self.left[0]
            if len(self.left) > 1:
                self.left.pop(0)
            elif s is not seq[-1]:
                raise AssertionError
            self.polls = getattr(self, "polls", 0) + 1
            if self.polls > 50:
                raise TimeoutError("polled forever")
            return s
    for s in STATES:
        j = Scripted()
        j.left = [JobStatus[s]]
        j.status = lambda s=s: JobStatus[s]
        require((j.done(), j.running(), j.cancelled(), j.in_final_state()) == (s == "DONE", s == "RUNNING", s == "CANCELLED", s in FINAL), f"wrong report of a job that is {s}")
        require(JobStatus[s].is_final == (s in FINAL) and (JobStatus[s] in JobStatus.non_final_states()) == (s not in FINAL), f"{s} final or not")
        text = getattr(s, case["case"])()
        require(JobStatus.from_string(text) is JobStatus[s] and JobStatus[s].description == str(JobStatus[s]), f"status {text} is not understood")
    try:
        JobStatus.from_string("no such status")
    except ValueError:
        pass
    else:
        require(False, "an unknown status was accepted")
    j, seen = Scripted(), []
    try:
        j.wait_for_final_state(timeout=case["timeout"], wait=0, callback=lambda i, s, k: seen.append((i, s, k)))
        ended = True
    except JobTimeoutError:
        ended = False
    except TimeoutError:
        require(False, f"the job is waited for although it is {case['last']}")
    if case["timeout"] is None or not case["seq"]:
        require(ended and [s for _, s, _ in seen] == seq[:-1] and all(i == j.job_id() and k is j for i, _, k in seen), "waiting for a job does not follow its states")
    else:
        require(not ended, "waiting without time did not end in a timeout")
    a = {Job(None).job_id() for _ in range(200)}
    require(len(a) == 200, "jobs share an id")
    require(Job(None, "mine").job_id() == "mine", "the id given was not used")
    return bool(case["seq"]), case["last"]


SUBS = [
    Sub("names", name_case(), check_name, 150, 1500, "names, parts of names, mangled names and other text; every case is non-trivial"),
    Sub("history_tn", history(["tnsim", "tnsim", "innsbruck01"]), check_history, 200, 3000, "2-6 operations (obtaining backends, setting options, runs with options) on up to three backends and three circuits with deterministic outcomes; non-trivial: at least two runs"),
    Sub("history_mix", history(["misim", "tnsim"], ("x", "csum", "z")), check_history, 120, 2000, "the same with the decision-diagram backend"),
    Sub("twins_tn", twins(TN_KINDS, 60, True), lambda c: check_twins(c, "tnsim"), 250, 4000, "2-6 runs of programs that differ in one detail (a parameter, control level, target, adjoint, order, an added or dropped gate or qudit), on new, edited or copied circuits; non-trivial: two neighbouring runs have different states"),
    Sub("twins_mi", twins(MI_KINDS, 60, False), lambda c: check_twins(c, "misim"), 200, 3000, "the same on the decision-diagram backend"),
    Sub("devices", device_case(), check_device, 24, 200, "simulated devices; non-trivial: a circuit with gates"),
    Sub("jobs", job_case(), check_job, 60, 400, "scripted job states; non-trivial: the job is waited for"),
]
