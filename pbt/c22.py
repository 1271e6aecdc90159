"""C22: parametrised and variational two-qudit circuits."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c16 import lines
from .core import Slow, Sub, require, soft_limit

PKG = "mqt.qudits.compiler.twodit.variational_twodit_compilation"


def mods():
    import importlib
    import mqt.qudits.compiler  # noqa: F401  (first: the sub-packages import each other)
    return {k: importlib.import_module(f"{PKG}.{v}") for k, v in dict(
        top="layered_compilation", par="parametrize", gen="ansatz.ansatz_gen", util="ansatz.ansatz_gen_utils", inst="ansatz.instantiate", search="ansatz.ansatz_solve_n_search",
        spars="sparsifier", opt="opt.optimizer", dist="opt.distance_measures").items()}


def vector(seed, n, mode):
    """A parameter vector: generic, within a typical box, sparse or on multiples of pi/2."""
    rng = np.random.default_rng([3, seed])
    if mode == "zero":
        return np.zeros(n)
    v = rng.uniform(-2 * np.pi, 2 * np.pi, n)
    if mode == "sparse":
        v[rng.random(n) < 0.7] = 0
    if mode == "grid":
        v = rng.integers(-4, 5, n) * np.pi / 2
    return v


MODES = ["generic", "generic", "sparse", "grid", "zero"]


# ---------------------------------------------------------------- local unitaries
@st.composite
def sud_case(draw):
    return {"d": draw(st.integers(2, 6)), "s": draw(gen.seeds()), "mode": draw(st.sampled_from(MODES)), "list": draw(st.booleans())}


def check_sud(case):
    m, d = mods(), case["d"]
    n = d * d - 1
    v = vector(case["s"], n, case["mode"])
    keep = v.copy()
    u = np.asarray(m["par"].generic_sud(list(v) if case["list"] else v, d))
    require(np.array_equal(v, keep), "the parameters were changed")
    require(u.shape == (d, d) and gen.close(u @ u.conj().T, np.eye(d)), "the parametrised unitary is not unitary")
    require(abs(np.linalg.det(u) - 1) < 1e-8, f"determinant {np.linalg.det(u)} of a special unitary")
    if case["mode"] == "zero":
        require(gen.close(u, np.eye(d)), "zero parameters do not give the identity")
    if case["mode"] == "generic" and d <= 4:
        # the d^2-1 parameters are independent: together they reach every direction around the point
        eps, rows = 1e-5, []
        for k in range(n):
            a, b = v.copy(), v.copy()
            a[k] += eps
            b[k] -= eps
            t = u.conj().T @ (m["par"].generic_sud(a, d) - m["par"].generic_sud(b, d)) / (2 * eps)
            rows.append(np.concatenate([t.real.ravel(), t.imag.ravel()]))
        rows = np.array(rows)
        require(all(np.linalg.norm(r) > 1e-6 for r in rows), "a parameter has no effect")
        s = np.linalg.svd(rows, compute_uv=False)
        if s[-1] < 1e-4 and s[-1] > 1e-8:
            return False, "flat"
        require(s[-1] > 1e-8, "the parameters of the local unitary are not independent")
    return case["mode"] != "zero", f"d{d}"


@st.composite
def split_case(draw):
    return {"dims": [draw(st.integers(2, 5)), draw(st.integers(2, 5))], "k": draw(st.integers(0, 4)), "extra": draw(st.integers(0, 3))}


def check_split(case):
    m, dims = mods(), case["dims"]
    n = [d * d - 1 for d in dims]
    v = list(range(case["k"] * sum(n) + case["extra"]))
    try:
        out = m["par"].params_splitter(v, dims)
    except ValueError:
        require(len(v) % sum(n) != 0, "a parameter vector of the right length was refused")
        return True, "refused"
    require(len(v) % sum(n) == 0, "a parameter vector of the wrong length was accepted")
    require([x for b in out for x in b] == v and [len(b) for b in out] == n * case["k"], "the parameters are not split into one block per qudit and layer")
    return case["k"] > 0, "split"


# ---------------------------------------------------------------- ansatz
@st.composite
def register(draw, dmax=4, total=100):
    """Register with two chosen lines (in any order)."""
    dims = list(draw(gen.dims_list(2, 4, 2, dmax, total)))
    pair = list(draw(st.permutations(range(len(dims)))))[:2]
    return dims, pair


@st.composite
def ansatz_case(draw):
    dims, pair = draw(register())
    pair = sorted(pair)
    kind = draw(st.sampled_from(["MS", "LS", "CU"]))
    out = {"dims": dims, "lines": pair, "kind": kind, "layers": draw(st.integers(0, 2)), "s": draw(gen.seeds()), "mode": draw(st.sampled_from(MODES[:4]))}
    if kind == "CU":
        local = [dims[i] for i in pair]
        g = draw(gen.gate(local, ["cu_two", "csum", "cx", "ls", "ms"], controls=False))
        g["t"] = [pair[i] for i in g["t"]]
        out["prim"] = g
    return out


def call_instance(fn, c, p, local, at):
    """The instances take the qudits they act on; the first two qudits are the default."""
    if at == [0, 1]:
        return fn(c, p, local)
    return fn(c, p, local, at)


def check_ansatz(case):
    m = mods()
    dims, at, kind = case["dims"], case["lines"], case["kind"]
    local = [dims[i] for i in at]
    n = sum(d * d - 1 for d in local)
    p = vector(case["s"], n * (case["layers"] + 2), case["mode"])
    c = gen.new_circuit(dims)
    prim = None
    if kind == "CU":
        prim = gen.add(gen.new_circuit(dims), case["prim"])
    m["util"].Primitive.set_class_variables(prim)
    try:
        name = kind.lower()
        mat = np.asarray(getattr(m["gen"], f"{name}_ansatz")(p, local))
        gates = list(call_instance(getattr(m["inst"], f"create_{name}_instance"), c, p, local, at))
    finally:
        m["util"].Primitive.set_class_variables(None)
    size = local[0] * local[1]
    require(mat.shape == (size, size) and gen.close(mat @ mat.conj().T, np.eye(size)), "the ansatz is not unitary")
    require(all(set(lines(g)) <= set(at) for g in gates), "a gate of the ansatz acts on other qudits")
    ent = [g for g in gates if len(lines(g)) == 2]
    require(len(ent) == case["layers"] + 1, f"{len(ent)} entangling gates for {case['layers']} layers")
    want = embed(mat, at, dims)
    got = ref.objects_operator(gates, dims)
    require(gen.close(got, want, 1e-7), f"the circuit is not the matrix the optimiser evaluates (distance {np.max(np.abs(got - want)):.3g})")
    # the ansatz is built from the entangling gate and local unitaries
    if kind == "CU":
        e = ref.operator(case["prim"], dims)
        require(gen.close(ref.objects_operator([ent[0]], dims), e, 1e-8), "the entangling gate is not the custom primitive")
    return True, kind + (" elsewhere" if at != [0, 1] else "")


def embed(mat, at, dims):
    """Operator on the whole register of a matrix indexed by the (increasing) qudits at."""
    size = int(np.prod(dims))
    return ref.apply(np.eye(size, dtype=complex), dims, mat, at)


# ---------------------------------------------------------------- bounds and distances
@st.composite
def bounds_case(draw):
    return {"dims": [draw(st.integers(2, 5)), draw(st.integers(2, 5))], "layers": draw(st.integers(0, 5))}


def check_bounds(case):
    m, dims = mods(), case["dims"]
    O = m["opt"].Optimizer
    O.set_class_variables(np.eye(dims[0] * dims[1]), 1e-2, *dims)
    b = O.return_bounds(case["layers"])
    require(len(b) == (case["layers"] + 2) * sum(d * d - 1 for d in dims), "the search box does not have one interval per parameter")
    require(all(lo < hi for lo, hi in b), "an empty interval in the search box")
    blocks = m["par"].params_splitter(b, dims)
    require(all(x == blocks[i % 2] for i, x in enumerate(blocks)), "the layers are not searched in the same box")
    return True, ""


@st.composite
def distance_case(draw):
    return {"n": draw(st.integers(2, 9)), "s": draw(gen.seeds()), "same": draw(st.booleans()), "phase": draw(gen.angles()), "scale": draw(st.floats(0.1, 3))}


def check_distance(case):
    D = mods()["dist"]
    n, rng = case["n"], np.random.default_rng([5, case["s"]])
    u, v = ref.haar(rng, n), ref.haar(rng, n)
    if case["same"]:
        v = u
    f = D.fidelity_on_unitares(u, v)
    want = abs(np.sum(u.conj() * v)) / n
    require(abs(f - want) < 1e-9, "wrong fidelity of two unitaries")
    require(not case["same"] or abs(f - 1) < 1e-9, "a unitary does not have fidelity one with itself")
    require(abs(D.fidelity_on_unitares(u, v * np.exp(1j * case["phase"])) - f) < 1e-9 and abs(D.fidelity_on_unitares(v, u) - f) < 1e-9, "the fidelity is not symmetric or depends on the global phase")
    g = D.fidelity_on_operator(case["scale"] * u, v)
    require(abs(g - want) < 1e-9, "wrong fidelity of two operators")
    rho, sig = (x @ np.diag(p / p.sum()) @ x.conj().T for x, p in ((u, rng.random(n) + .01), (v, rng.random(n) + .01)))
    if case["same"]:
        sig = rho
    h = D.fidelity_on_density_operator(rho, sig)
    want = abs(np.sum(rho * sig.T)) / np.sqrt(abs(np.sum(rho * rho.T) * np.sum(sig * sig.T)))
    require(abs(h - want) < 1e-9, "wrong fidelity of two density operators")
    a, b = u[:, 0], v[:, -1]
    require(abs(D.naive_state_fidelity(a, b) - abs(np.vdot(a, b)) ** 2) < 1e-9, "wrong fidelity of two states")
    for fn in (D.fidelity_on_unitares, D.fidelity_on_operator, D.fidelity_on_density_operator):
        try:
            fn(u, np.eye(n + 1))
        except ValueError:
            continue
        require(False, "operators of different sizes were compared")
    return not case["same"], ""


# ---------------------------------------------------------------- sparsification
@st.composite
def rot_case(draw):
    dims, pair = draw(register())
    g = draw(gen.gate([dims[i] for i in pair], ["cu_two", "csum", "cx", "ls", "ms"], controls=False))
    g["t"] = [pair[i] for i in g["t"]]
    if g["g"] == "cu_two":
        g["t"] = sorted(g["t"])
    return {"dims": dims, "gate": g, "s": draw(gen.seeds()), "mode": draw(st.sampled_from(MODES[:4]))}


def check_rotations(case):
    m, dims = mods(), case["dims"]
    c = gen.new_circuit(dims)
    g = gen.add(c, case["gate"])
    at = sorted(case["gate"]["t"])
    local = [dims[i] for i in at]
    p = vector(case["s"], 2 * sum(d * d - 1 for d in local), case["mode"])
    before = np.array(g.to_matrix(0))
    mat = m["spars"].apply_rotations(np.asarray(g.to_matrix(0)), p, local)
    new = gen.new_circuit(dims)
    gates = list(m["spars"].instantiate_rotations(new, g, p))
    require(gen.close(np.array(g.to_matrix(0)), before, 0), "the gate was changed")
    require(g.parent_circuit is c, "the gate was moved to another circuit")
    got, want = ref.objects_operator(gates, dims), embed(mat, at, dims)
    require(gen.close(got, want, 1e-7), f"the rotated circuit is not the rotated matrix (distance {np.max(np.abs(got - want)):.3g})")
    r = [m["par"].generic_sud(x, local[i % 2]) for i, x in enumerate(m["par"].params_splitter(p, local))]
    f = np.kron(r[0], r[1]) @ before @ np.kron(r[2], r[3])
    require(gen.close(mat, f, 1e-8), "the rotations are not applied on both sides of the gate")
    return True, case["gate"]["g"] + (" elsewhere" if at != [0, 1] else "")


@st.composite
def sparsify_case(draw):
    n = draw(st.integers(2, 3))
    dims = [draw(st.integers(2, 3)) for _ in range(n)]
    pair = list(draw(st.permutations(range(n))))[:2]
    g = draw(gen.gate([dims[i] for i in pair], ["cu_two", "csum", "cx", "ls", "ms"], controls=False))
    g["t"] = [pair[i] for i in g["t"]]
    if g["g"] == "cu_two":
        g["t"] = sorted(g["t"])
    return {"dims": dims, "gate": g, "s": draw(st.integers(0, 2**31 - 1))}


def check_sparsify(case):
    import random
    m, dims = mods(), case["dims"]
    S = m["spars"]
    c = gen.new_circuit(dims)
    g = gen.add(c, case["gate"])
    at = sorted(case["gate"]["t"])
    local = [dims[i] for i in at]
    before = np.array(g.to_matrix(0))
    random.seed(case["s"])
    np.random.seed(case["s"])
    seen = []
    inner = getattr(S, "minimize", None)

    def record(fun, x0, *a, **k):
        k["options"] = {"maxiter": 3}
        out = inner(fun, x0, *a, **k)
        seen.append(out)
        return out
    if inner is not None:
        S.minimize = record
    try:
        with soft_limit(20):
            out = S.sparsify(g)
    except Slow:
        return False, "undecided"
    finally:
        if inner is not None:
            S.minimize = inner
    require(len(c.instructions) == 1 and c.instructions[0] is g and gen.close(np.array(g.to_matrix(0)), before, 0), "the circuit of the gate was changed")
    require(list(out.dimensions) == list(dims), "the register was changed")
    op = ref.objects_operator(out.instructions, dims)
    two = [x for x in out.instructions if len(lines(x)) > 1]
    require(len(two) == 1 and gen.close(ref.objects_operator(two, dims), ref.operator(case["gate"], dims), 1e-8), "the result is not the gate between local rotations")
    require(all(set(lines(x)) <= set(at) for x in out.instructions), "a rotation acts on another qudit")
    if seen:
        # the sparsity of the delivered circuit is the one the search ended with
        mat = restrict(op, at, dims)
        require(mat is not None, "the result acts on other qudits")
        ghost = np.abs(mat.real) + np.abs(mat.imag)
        ghost[ghost < 1e-8] = 0
        n = ghost.size
        hoyer = 1 - (np.sqrt(n) * np.linalg.norm(ghost) - ghost.sum()) / (np.sqrt(n) * np.linalg.norm(ghost) - np.linalg.norm(ghost))
        val = hoyer * (np.count_nonzero(ghost > 1e-8) / n)
        require(abs(val - seen[-1].fun) < 1e-4 + 2.0 / n * (np.any((ghost > 0) & (ghost < 1e-6))), f"the circuit has sparsity measure {val:.6g}, the search reported {seen[-1].fun:.6g}")
    return bool(seen), case["gate"]["g"]


def restrict(op, at, dims):
    n = len(dims)
    rest = [i for i in range(n) if i not in at]
    t = op.reshape(dims + dims).transpose(at + rest + [n + i for i in at] + [n + i for i in rest])
    a, b = int(np.prod([dims[i] for i in at])), int(np.prod([dims[i] for i in rest] or [1]))
    t = t.reshape(a, b, a, b)
    mat = t[:, 0, :, 0]
    return mat if gen.close(op, embed(mat, at, dims), 1e-7) else None


# ---------------------------------------------------------------- compilation
@st.composite
def compile_case(draw, kind):
    n = draw(st.integers(2, 3))
    dims = [draw(st.sampled_from([2, 2, 2, 3])) for _ in range(n)]
    pair = list(draw(st.permutations(range(n))))[:2]
    target = draw(st.sampled_from(["ansatz", "csum", "local", "cx", "ls", "ms", "cu_two"]))
    out = {"dims": dims, "kind": kind, "layers": draw(st.integers(0, 2)), "tol": draw(st.sampled_from([0.2, 0.1, 0.3])), "s": draw(st.integers(0, 2**31 - 1)), "back": draw(st.booleans())}
    if target in ("local", "ansatz"):
        out["target"] = {"how": target, "t": sorted(pair), "s": draw(gen.seeds())}
    else:
        g = draw(gen.gate([dims[i] for i in pair], [target], controls=False))
        g["t"] = [pair[i] for i in g["t"]]
        if g["g"] == "cu_two":
            g["t"] = sorted(g["t"])
        out["target"] = {"how": "gate", "gate": g}
    if kind == "CU":
        g = draw(gen.gate([dims[i] for i in sorted(pair)], ["csum", "cx", "ls", "ms", "cu_two"], controls=False))
        g["t"] = [sorted(pair)[i] for i in g["t"]]
        out["prim"] = g
    return out


def check_compile(case):
    import random
    m, dims, kind = mods(), case["dims"], case["kind"]
    c = gen.new_circuit(dims)
    t = case["target"]
    prim = gen.add(gen.new_circuit(dims), case["prim"]) if kind == "CU" else None
    if t["how"] == "gate":
        g = gen.add(c, t["gate"])
        at = sorted(t["gate"]["t"])
    else:
        at = t["t"]
        local = [dims[i] for i in at]
        rng = np.random.default_rng([9, t["s"]])
        mat = np.kron(ref.haar(rng, local[0]), ref.haar(rng, local[1]))
        if t["how"] == "ansatz":
            m["util"].Primitive.set_class_variables(prim)
            mat = getattr(m["gen"], f"{kind.lower()}_ansatz")(rng.uniform(0, np.pi / 2, 2 * sum(d * d - 1 for d in local)), local)
        g = c.cu_two(at, np.asarray(mat))
    want = ref.objects_operator([g], dims)
    random.seed(case["s"])
    np.random.seed(case["s"])
    before = [id(x) for x in c.instructions]
    try:
        with soft_limit(4):
            out = m["top"].variational_compile(g, case["tol"], kind, case["layers"], prim)
    except Slow:
        m["opt"].Optimizer.timer_var = True
        return False, "undecided"
    except RuntimeError:
        return False, "no decomposition"
    finally:
        m["util"].Primitive.set_class_variables(None)
    require([id(x) for x in c.instructions] == before and gen.close(ref.objects_operator([g], dims), want, 0), "the circuit of the target was changed")
    require(list(out.dimensions) == list(dims), "the register was changed")
    ops = out.instructions
    require(all(set(lines(x)) <= set(at) for x in ops), "a gate acts on a qudit the target does not act on")
    got = ref.objects_operator(ops, dims)
    f = abs(np.vdot(want, got)) / got.shape[0]
    require(1 - f <= case["tol"] + 1e-9, f"the result has distance {1 - f:.4g}, the requested tolerance is {case['tol']}")
    ent = sum(len(lines(x)) == 2 for x in ops)
    require(ent <= case["layers"] + 1, f"{ent} entangling gates with at most {case['layers']} layers")
    return True, f"{kind} {t['how']}" + (" elsewhere" if at != [0, 1] else "")


# ---------------------------------------------------------------- searches that cannot succeed
@st.composite
def fail_case(draw):
    return {"how": draw(st.sampled_from(["limit", "primitive", "ansatz", "layers"])), "kind": draw(st.sampled_from(["LS", "MS"])), "s": draw(st.integers(0, 2**31 - 1)), "n": draw(st.integers(1, 2))}


def check_fail(case):
    """A hopeless compilation ends with an error, and the next one is not affected by it."""
    import random
    import threading
    m = mods()
    random.seed(case["s"])
    np.random.seed(case["s"])
    rng = np.random.default_rng([13, case["s"]])
    c = gen.new_circuit([2, 2])
    g = c.cu_two([0, 1], ref.haar(rng, 4))
    how = case["how"]
    args = {"limit": (g, 1e-13, case["kind"], 1), "primitive": (g, 0.1, "CU", 1), "ansatz": (g, 0.1, "XY", 1), "layers": (g, 0.1, case["kind"], -1)}[how]
    real, before, done, used = threading.Timer, set(threading.enumerate()), [], []
    places = [threading, *([m["search"]] if hasattr(m["search"], "Timer") else [])]

    def short(_d, f, *a, **k):     # the time limit of the search, shortened
        used.append(f)
        return real(0.25, f, *a, **k)

    def call():
        try:
            done.append(m["top"].variational_compile(*args))
        except Exception as e:
            done.append(e)
    if how == "limit":
        for t in places:
            t.Timer = short
    try:
        for _ in range(case["n"]):
            th = threading.Thread(target=call, daemon=True)
            th.start()
            th.join(60)
            if th.is_alive() and how == "limit" and not used:
                m["opt"].Optimizer.timer_var = True     # the limit is kept in some other way
                return False, "undecided"
            require(not th.is_alive(), "a compilation that cannot succeed does not end")
        require(all(isinstance(x, Exception) for x in done), "a compilation that cannot succeed delivered a circuit")
    finally:
        for t in places:
            t.Timer = real
    easy = c.cu_two([0, 1], np.kron(ref.haar(rng, 2), ref.haar(rng, 2)))
    done.clear()
    try:
        with soft_limit(20):
            out = m["top"].variational_compile(easy, 0.4, case["kind"], 0)
    except Slow:
        return False, "undecided"
    except RuntimeError:
        return False, "no decomposition"
    f = abs(np.vdot(easy.to_matrix(0), ref.objects_operator(out.instructions, [2, 2]))) / 4
    require(1 - f <= 0.4 + 1e-9, "the compilation after a failed one is not within its tolerance")
    left = [t for t in threading.enumerate() if t not in before and not t.daemon]
    require(not left, "a thread of the search outlives the call and keeps the program from ending")
    for t in [t for t in threading.enumerate() if t not in before and isinstance(t, threading.Timer) and not t.finished.is_set()]:
        flags = m["opt"].Optimizer
        flags.timer_var = False
        t.function(*t.args, **t.kwargs)          # what it will do when its time has come
        t.cancel()
        require(not flags.timer_var, "the time limit of a search that has ended interrupts a later search")
    return True, how


SUBS = [
    Sub("sud", sud_case(), check_sud, 200, 3000, "dimensions 2-6, generic, sparse and grid parameter vectors; non-trivial: not all parameters zero"),
    Sub("split", split_case(), check_split, 120, 800, "vectors of right and wrong lengths; non-trivial: at least one block, or refused"),
    Sub("ansatz", ansatz_case(), check_ansatz, 220, 3000, "MS, LS and custom entanglers, 0-2 layers, any two qudits of registers of 2-4 qudits; every case is non-trivial"),
    Sub("bounds", bounds_case(), check_bounds, 80, 300, "dimensions and layers; every case is non-trivial"),
    Sub("distance", distance_case(), check_distance, 150, 1500, "random unitaries, density operators and states; non-trivial: different operators"),
    Sub("rotations", rot_case(), check_rotations, 150, 2000, "two-qudit gates on any two qudits with random parameters; every case is non-trivial"),
    Sub("sparsify", sparsify_case(), check_sparsify, 25, 250, "sparsification with a short search; non-trivial: the search result was observed"),
    *[Sub(f"compile_{k.lower()}", compile_case(k), check_compile, 9, 120, f"targets with and without a decomposition into {k} layers on any two qudits; non-trivial: a decomposition was delivered") for k in ("MS", "LS", "CU")],
    Sub("fail", fail_case(), check_fail, 12, 60, "searches that run out of time or have invalid arguments, followed by an easy one; non-trivial: the easy one was delivered"),
]
