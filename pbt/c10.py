"""C10: decision-diagram package against dense shadows, under sanitizers."""
from __future__ import annotations
import math, os, select, struct, subprocess
import numpy as np
from hypothesis import strategies as st
from . import env, gen, ref
from .core import Sub, Violation, require

SRC = env.ROOT / "pbt" / "cpp" / "ddriver.cpp"
CMD = ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-w",
       f"-I{env.REPO}/include", str(SRC)]


def build():
    h = env._sources_hash([*env.REPO.glob("include/**/*.hpp"), SRC], " ".join(CMD))
    out = env.BUILD / f"dd-{h}" / "ddriver"
    if not out.exists():
        env.compile_cpp(out, CMD)
    return out


class Driver:
    proc = None

    @classmethod
    def start(cls):
        e = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77", UBSAN_OPTIONS="print_stacktrace=0")
        cls.proc = subprocess.Popen([str(build())], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, bufsize=0)

    @classmethod
    def stop(cls):
        if cls.proc is not None:
            cls.proc.kill()
            cls.proc.wait()
            cls.proc = None

    @classmethod
    def died(cls, why):
        p, cls.proc = cls.proc, None
        p.kill()
        _, err = p.communicate()
        lines = [x for x in err.decode(errors="replace").splitlines() if "ERROR:" in x or "runtime error" in x or "Assertion" in x or "terminate" in x or "what()" in x]
        raise Violation(f"{why}: {' / '.join(lines[:2])[:400] or f'exit status {p.returncode}'}")

    @classmethod
    def read(cls, k):
        buf = b""
        fd = cls.proc.stdout.fileno()
        while len(buf) < k:
            ready, _, _ = select.select([fd], [], [], 60)
            if not ready:
                cls.died("the operation did not finish within 60 s")
            part = os.read(fd, k - len(buf))
            if not part:
                cls.died("the process was ended during the operation")
            buf += part
        return buf

    @classmethod
    def call(cls, line):
        """-> (kind, node id, weight, data) or raises Violation on an error report"""
        if cls.proc is None or cls.proc.poll() is not None:
            cls.start()
        try:
            cls.proc.stdin.write((line + "\n").encode())
        except BrokenPipeError:
            cls.died("the process was ended")
        kind = cls.read(1).decode()
        if kind == "E":
            k, = struct.unpack("<I", cls.read(4))
            raise Violation(f"{line.split()[0]}: {cls.read(k).decode(errors='replace')[:300]}")
        node, wr, wi, k = struct.unpack("<QddI", cls.read(28))
        data = np.frombuffer(cls.read(16 * k), dtype=complex) if k else np.zeros(0, complex)
        return kind, node, complex(wr, wi), data


def num(x):
    x = complex(x)
    return f"{x.real!r} {x.imag!r}"


def nums(a):
    return " ".join(num(x) for x in np.asarray(a, complex).reshape(-1).tolist())


# ---------------------------------------------------------------- matrices and vectors from specs
def mat(spec, d):
    k = spec["k"]
    rng = np.random.default_rng([77, d, spec["s"]])
    if k == "rand":        # not unitary, sometimes singular or sparse
        m = (rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))) * (rng.random((d, d)) < rng.choice([0.3, 0.7, 1.0]))
        return m / max(1.0, np.linalg.norm(m, 2))
    if k == "small":       # close to the identity by an amount whose square is below the tolerance
        e = 10.0 ** rng.integers(-9, -3)
        h = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        w, v = np.linalg.eigh(h + h.conj().T)
        return (v * np.exp(1j * e * w)) @ v.conj().T
    if k == "zero":
        return np.zeros((d, d), complex)
    if k == "clifperm":
        return np.diag(1j ** rng.integers(0, 4, d)) @ np.eye(d)[:, rng.permutation(d)]
    if k == "proj":
        m = np.zeros((d, d), complex); m[int(rng.integers(d)), int(rng.integers(d))] = 1j ** int(rng.integers(4))
        return m
    if k == "x":
        return ref.xmat(d)
    if k == "z":
        return np.diag(np.exp(2j * np.pi * np.arange(d) / d))
    return ref.unitary(spec, d)


def vec(spec, n):
    rng = np.random.default_rng([78, n, spec["s"]])
    k = spec["k"]
    if k == "disc":
        v = 1j ** rng.integers(0, 4, n) * (rng.random(n) < 0.6)
    elif k == "small":
        v = (rng.normal(size=n) + 1j * rng.normal(size=n)) * 10.0 ** rng.integers(-8, 1, n) * (rng.random(n) < 0.8)
    else:
        v = (rng.normal(size=n) + 1j * rng.normal(size=n)) * (rng.random(n) < rng.choice([0.2, 0.6, 1.0]))
    if not np.any(v):
        v[int(rng.integers(n))] = 1
    return v / np.linalg.norm(v)


GEN = ["haar", "diag", "perm", "pperm", "block", "givens", "id", "fourier", "real", "rand", "rand", "small", "x", "z"]
DISC = ["perm", "clifperm", "clifperm", "id", "fourier", "x", "z", "proj", "clifdiag"]


@st.composite
def history(draw, disc=False, n_ops=(4, 24), dims=None, lo_max=2):
    if dims is None:
        lo = draw(st.sampled_from([0, 0, 0, 1, lo_max])) if lo_max else 0
        n = draw(st.integers(1, 4))
        dims, tot = [], 1
        for i in range(n):
            hi = max(2, min(7, 40 // (tot * 2 ** (n - i - 1))))
            d = draw(st.integers(2, hi)); dims.append(d); tot *= d
        dims = [draw(st.integers(2, 4)) for _ in range(lo)] + list(draw(st.permutations(dims)))
    else:
        lo, dims = 0, list(draw(dims))
    tot = len(dims)
    regs = list(range(lo, tot))
    spec = st.fixed_dictionaries({"k": st.sampled_from(DISC if disc else GEN), "s": gen.seeds()})
    big = st.fixed_dictionaries({"k": st.sampled_from(["clifperm", "proj", "id", "perm"] if disc else ["haar", "rand", "block", "perm", "small", "id"]), "s": gen.seeds()})
    vsp = st.fixed_dictionaries({"k": st.just("disc") if disc else st.sampled_from(["any", "any", "small", "disc"]), "s": gen.seeds()})
    h = st.integers(0, 400)
    ops = []

    @st.composite
    def op(draw):
        k = draw(st.sampled_from(["zero", "basis", "vec", "mat", "gate", "gate", "gate", "gate", "ident", "identrange", "cex", "csum",
                                  "addv", "addv", "addm", "addm", "mv", "mv", "mv", "mm", "mm", "mm", "dag", "dag", "tr", "inner", "fid", "readv", "readm", "atv", "atm", "countv", "countm"]))
        o = {"o": k}
        if k == "basis":
            o["s"] = [draw(st.integers(0, dims[r] - 1)) for r in regs]
        elif k == "vec":
            o["v"] = draw(vsp)
        elif k == "mat":
            o["m"] = draw(big)
        elif k == "gate":
            o["t"] = draw(st.sampled_from(regs)); o["m"] = draw(spec)
            others = [r for r in regs if r != o["t"]]
            cs = list(draw(st.permutations(others)))[:draw(st.integers(0, min(3, len(others))))]
            o["c"] = [[r, draw(st.integers(0, dims[r] - 1))] for r in cs]
        elif k == "identrange":
            o["a"] = draw(st.integers(0, tot - 1)); o["b"] = draw(st.integers(o["a"], tot - 1))
        elif k in ("cex", "csum"):
            if len(regs) < 2:
                return {"o": "zero"}
            o["c"], o["t"] = list(draw(st.permutations(regs)))[:2]
            o["dag"] = draw(st.booleans())
            if k == "cex":
                o["l"] = draw(st.integers(0, dims[o["c"]] - 1))
                o["ab"] = sorted(draw(gen.two_levels(dims[o["t"]])))
                o["phi"] = draw(st.sampled_from([0.0, math.pi / 2, math.pi, -math.pi / 2]) if disc else gen.angles())
        elif k in ("atv", "atm"):
            o["a"] = draw(h); o["i"] = [draw(st.integers(0, dims[r] - 1)) for r in regs]; o["j"] = [draw(st.integers(0, dims[r] - 1)) for r in regs]
        elif k not in ("zero", "ident"):
            o["a"] = draw(h)
            if k in ("addv", "addm", "mv", "mm", "inner", "fid"):
                o["b"] = draw(h)
        return o
    ops = draw(st.lists(op(), min_size=n_ops[0], max_size=n_ops[1]))
    return {"lo": lo, "dims": dims, "ops": ops}


EPS = 2e-12


class Item:
    __slots__ = ("a", "err", "node", "w")

    def __init__(self, a, err):
        self.a, self.err, self.node, self.w = a, err, None, None

    @property
    def size(self):
        return float(np.linalg.norm(self.a))


def classes(v, dims):
    """Number of nodes of the diagram of a vector: distinct non-zero parts up to a factor, per level, and the terminal."""
    total, level = 1, [v]
    for d in dims:     # most significant first
        reps = []
        for x in level:
            if np.max(np.abs(x)) < 1e-9:
                continue
            y = x / np.linalg.norm(x)
            if not any(abs(abs(np.vdot(r, y)) - 1) < 1e-9 for r in reps):
                reps.append(y)
        total += len(reps)
        level = [r[i * (len(r) // d):(i + 1) * (len(r) // d)] for r in reps for i in range(d)]
    return total


def mclasses(m, dims):
    """The same for a matrix (flattened so that every level has d*d parts)."""
    n = len(dims)
    t = m.reshape(dims + dims).transpose([x for k in range(n) for x in (k, n + k)]).reshape(-1)
    return classes(t, [d * d for d in dims])


def execute(case, canonical):
    lo, all_dims = case["lo"], case["dims"]
    dims = all_dims[lo:][::-1]                # most significant first
    n, N = len(dims), int(np.prod(dims))
    top = len(all_dims) - 1
    ax = lambda r: top - r                    # noqa: E731
    Driver.call(f"new {lo} {len(all_dims)} " + " ".join(map(str, all_dims)))
    V, M = [], []
    done, counts = 0, {}
    tot = int(np.prod(all_dims))

    def gate_op(m, t, cs):
        return ref.apply(np.eye(N, dtype=complex), dims, m, [ax(t)], [[ax(r) for r, _ in cs], [l for _, l in cs]] if cs else None)

    def take(store, item, got, what):
        data = got[3].reshape(item.a.shape) if got[3].size == item.a.size else None
        require(data is not None, f"{what}: result has {got[3].size} entries, expected {item.a.size}")
        err = float(np.max(np.abs(data - item.a)))
        require(np.all(np.isfinite(data)) and err <= 10 * item.err + 1e-11, f"{what}: result differs from dense algebra by {err:.3g}")
        item.node, item.w = got[1], got[2]
        if canonical and item.size > 1e-6:
            for o in store:
                if o.size > 1e-6:
                    ov = abs(np.vdot(o.a, item.a)) / (o.size * item.size)
                    if abs(ov - 1) < 1e-10:
                        require(o.node == item.node, f"{what}: the same object up to a factor is represented by two nodes")
                        if np.max(np.abs(o.a - item.a)) < 1e-10:
                            require(abs(o.w - item.w) < 1e-9, f"{what}: the same object has the weights {o.w} and {item.w}")
        store.append(item)

    for o in case["ops"]:
        k = o["o"]
        vs, ms = bool(V), bool(M)
        a = b = None
        if k in ("addv", "inner", "fid", "readv", "atv", "countv"):
            if not V:
                continue
            a = o["a"] % len(V); b = o.get("b", 0) % len(V)
        elif k in ("addm", "mm", "dag", "tr", "readm", "atm", "countm"):
            if not M:
                continue
            a = o["a"] % len(M); b = o.get("b", 0) % len(M)
        elif k == "mv":
            if not (V and M):
                continue
            a = o["a"] % len(M); b = o["b"] % len(V)
        if lo and k in ("inner", "fid", "readv", "readm", "cex", "csum", "identrange"):
            continue               # these have no notion of a first register
        item, line, store = None, None, None
        if k == "zero":
            v = np.zeros(N, complex); v[0] = 1
            item, line, store = Item(v, EPS), "zero", V
        elif k == "basis":
            v = np.zeros(dims, complex); v[tuple(o["s"][::-1])] = 1
            item, line, store = Item(v.reshape(-1), EPS), "basis " + " ".join(map(str, o["s"])), V
        elif k == "vec":
            v = vec(o["v"], N)
            item, line, store = Item(v, EPS), f"vec {N} {nums(v)}", V
        elif k == "mat":
            m = mat(o["m"], N)
            item, line, store = Item(m, EPS), f"mat {N} {nums(m)}", M
        elif k == "gate":
            m = mat(o["m"], all_dims[o["t"]])
            item, store = Item(gate_op(m, o["t"], o["c"]), EPS), M
            line = f"gate {o['t']} {len(o['c'])} " + " ".join(f"{r} {l}" for r, l in o["c"]) + " " + nums(m)
        elif k == "ident":
            item, line, store = Item(np.eye(N, dtype=complex), EPS), "ident", M
        elif k == "identrange":
            d = int(np.prod(all_dims[o["a"]:o["b"] + 1]))
            r = Driver.call(f"identrange {o['a']} {o['b']}")
            require(r[3].size == d * d and gen.close(r[3].reshape(d, d), np.eye(d), 1e-11), f"identity on registers {o['a']}..{o['b']} is not the identity there")
            done += 1
            continue
        elif k == "cex":
            dt = all_dims[o["t"]]
            blk = ref.matrix({"g": "cx", "t": [0, 1], "p": [*o["ab"], o["l"], o["phi"]], "dag": o["dag"]}, [all_dims[o["c"]], dt])[o["l"] * dt:(o["l"] + 1) * dt, o["l"] * dt:(o["l"] + 1) * dt]
            item, store = Item(gate_op(blk, o["t"], [[o["c"], o["l"]]]), EPS), M
            line = f"cex {o['l']} {o['ab'][0]} {o['ab'][1]} {o['c']} {o['t']} {int(o['dag'])} {o['phi']!r}"
        elif k == "csum":
            m = ref.matrix({"g": "csum", "t": [0, 1], "dag": o["dag"]}, [all_dims[o["c"]], all_dims[o["t"]]])
            item, store = Item(ref.apply(np.eye(N, dtype=complex), dims, m, [ax(o["c"]), ax(o["t"])]), EPS * 10), M
            line = f"csum {o['c']} {o['t']} {int(o['dag'])}"
        elif k in ("addv", "addm"):
            store = V if k == "addv" else M
            x, y = store[a], store[b]
            item, line = Item(x.a + y.a, x.err + y.err + EPS * (1 + x.size + y.size)), f"{k} {a} {b}"
        elif k in ("mv", "mm"):
            store = V if k == "mv" else M
            x, y = M[a], store[b]
            nx, ny = np.linalg.norm(x.a), y.size
            item, line = Item(x.a @ y.a, N * (x.err * ny + y.err * nx) + EPS * N * (1 + nx) * (1 + ny)), f"{k} {a} {b}"
        elif k in ("dag", "tr"):
            x = M[a]
            item, line, store = Item(x.a.conj().T if k == "dag" else x.a.T, x.err + EPS * (1 + x.size)), f"{k} {a}", M
        elif k in ("inner", "fid"):
            x, y = V[a], V[b]
            r = Driver.call(f"{k} {a} {b}")[2]
            w = np.vdot(y.a, x.a)
            tol = 10 * (N * (x.err * y.size + y.err * x.size) + EPS * N) + 1e-10
            if k == "inner":
                require(abs(r - w) <= tol, f"inner product is {r}, expected {w}")
            else:
                require(abs(r - abs(w) ** 2) <= tol * 3 * (1 + abs(w)), f"fidelity is {r.real}, expected {abs(w) ** 2}")
            done += 1
        elif k in ("readv", "readm"):
            x = (V if k == "readv" else M)[a]
            r = Driver.call(f"{k} {a}")[3]
            w = x.a
            if k == "readm":
                w = x.a.reshape(dims + dims).transpose([q for j in range(n) for q in (j, n + j)]).reshape(-1)
            require(r.size == w.size and gen.close(r, w, 10 * x.err + 1e-11), f"{k}: read-out differs from the object")
            done += 1
        elif k in ("atv", "atm"):
            x = (V if k == "atv" else M)[a]
            i, j = o["i"][::-1], o["j"][::-1]
            if k == "atv":
                r = Driver.call(f"atv {a} " + " ".join(map(str, i)))[2]
                w = x.a.reshape(dims)[tuple(i)]
            else:
                r = Driver.call(f"atm {a} " + " ".join(map(str, i)) + " " + " ".join(map(str, j)))[2]
                w = x.a.reshape(dims + dims)[tuple(i) + tuple(j)]
            require(abs(r - w) <= 10 * x.err + 1e-11, f"{k}: entry is {r}, expected {w}")
            done += 1
        elif k in ("countv", "countm"):
            x = (V if k == "countv" else M)[a]
            if canonical and x.size > 1e-6:
                r = int(Driver.call(f"{k} {a}")[2].real)
                w = (classes if k == "countv" else mclasses)(x.a.reshape(-1) if k == "countv" else x.a, dims)
                require(r == w, f"{k}: {r} nodes, the canonical diagram has {w}")
                done += 1
        if item is not None:
            if item.err > 1e-8 or item.size > 100:
                continue
            take(store, item, Driver.call(line), k)
            done += 1
        counts[k] = counts.get(k, 0) + 1
    return done, counts


def check_gen(case):
    done, c = execute(case, False)
    return done >= 6 and any(k in c for k in ("mv", "mm", "addv", "addm")), f"{len(case['dims']) - case['lo']} regs/{'sub' if case['lo'] else 'all'}"


def check_disc(case):
    done, c = execute(case, True)
    return done >= 6 and any(k in c for k in ("mv", "mm", "addv", "addm")), f"{len(case['dims']) - case['lo']} regs/{'sub' if case['lo'] else 'all'}"


@st.composite
def tensor(draw):
    d = draw(st.integers(2, 4))
    mx = {2: 5, 3: 3, 4: 2}[d]
    tot = draw(st.integers(2, mx))
    k = draw(st.integers(1, tot - 1))
    spec = st.fixed_dictionaries({"k": st.sampled_from(["haar", "rand", "id", "phase", "perm", "clifperm", "diag"]), "s": gen.seeds()})
    return {"d": d, "n": tot, "k": k, "x": draw(spec), "y": draw(spec), "how": draw(st.sampled_from(["kron", "extend"])), "h": draw(st.integers(0, tot - 1)), "repeat": draw(st.booleans())}


def check_tensor(case):
    d, n, k = case["d"], case["n"], case["k"]
    Driver.call(f"new 0 {n} " + " ".join([str(d)] * n))

    def m_(s, size):
        if s["k"] == "phase":
            return np.exp(1j * (s["s"] % 7 + 0.5)) * np.eye(size)
        return mat(s, size)
    for _ in range(2 if case["repeat"] else 1):
        if case["how"] == "kron":
            x, y = m_(case["x"], d ** k), m_(case["y"], d ** (n - k))
            got = Driver.call(f"kronm {d ** k} {d ** (n - k)} {nums(x)} {nums(y)}")[3]
            want = np.kron(x, y)
        else:
            h = min(case["h"], n - k); l = n - k - h
            x = m_(case["x"], d ** k)
            got = Driver.call(f"extend {h} {l} {d ** k} {nums(x)}")[3]
            want = np.kron(np.kron(np.eye(d ** h), x), np.eye(d ** l))
        require(got.size == want.size and gen.close(got.reshape(want.shape), want, 1e-9), f"{case['how']}: tensor product differs from dense algebra")
    return True, f"{case['how']}/{case['x']['k']}"


@st.composite
def spreading(draw):
    k = draw(st.sampled_from([2, 3, 3, 5]))
    line_dims = [draw(st.sampled_from([2, 3, 5])), k] + [k] * (k - 2)
    others = draw(st.lists(st.integers(2, 7 if k < 5 else 2), max_size=2 if k < 5 else 1))
    order = list(draw(st.permutations(range(k + len(others)))))     # register of each line, then of each other one
    dims = [0] * len(order)
    for r, d in zip(order, line_dims + others):
        dims[r] = d
    return {"dims": dims, "lines": order[:k], "s": [draw(st.integers(0, dims[r] - 1)) for r in order[k:]], "rest": order[k:], "i": draw(st.integers(0, 10 ** 6))}


def check_spread(case):
    dims, lines = case["dims"], case["lines"]
    tot = int(np.prod(dims))
    Driver.call(f"new 0 {len(dims)} " + " ".join(map(str, dims)))
    level = [0] * len(dims)
    for r, s in zip(case["rest"], case["s"]):
        level[r] = s
    level[lines[0]] = 1
    Driver.call("basis " + " ".join(map(str, level)))
    got = Driver.call(f"spread 0 {len(lines)} " + " ".join(map(str, lines)))[3]
    want = np.zeros(dims[::-1], complex)
    level[lines[0]] = 0
    for r in lines:
        want[tuple((level[:r] + [1] + level[r + 1:])[::-1])] = 1 / math.sqrt(len(lines))
    require(got.size == tot and gen.close(got, want.reshape(-1), 1e-10), "the excitation is not spread evenly over the lines")
    i = case["i"] % tot
    require([int(x.real) for x in Driver.call(f"repr {i} {tot}")[3]] == [int(x) for x in np.unravel_index(i, dims[::-1])], f"levels of the basis state {i} are wrong")
    return True, f"{len(lines)} of {len(dims)}"


# ---------------------------------------------------------------- two-register gates
@st.composite
def pairs(draw):
    dims = [draw(st.integers(2, 7)), draw(st.integers(2, 7))]
    if draw(st.booleans()):
        dims.insert(draw(st.integers(0, 2)), 2)
    c, t = list(draw(st.permutations(range(len(dims)))))[:2]
    k = draw(st.sampled_from(["csum", "cex", "gate"]))
    o = {"o": k, "c": c, "t": t, "dag": draw(st.booleans())}
    if k == "cex":
        o.update(l=draw(st.integers(0, dims[c] - 1)), ab=sorted(draw(gen.two_levels(dims[t]))), phi=draw(gen.angles()))
    elif k == "gate":
        o = {"o": "gate", "t": t, "m": {"k": draw(st.sampled_from(GEN)), "s": draw(gen.seeds())}, "c": [[c, draw(st.integers(0, dims[c] - 1))]]}
    more = [{"o": "vec", "v": {"k": "any", "s": draw(gen.seeds())}}, {"o": "mv", "a": 0, "b": 0}, {"o": "dag", "a": 0}, {"o": "mv", "a": 1, "b": 1}, {"o": "tr", "a": 0}, {"o": "readv", "a": 2}, {"o": "atm", "a": 0, "i": [0] * len(dims), "j": [d - 1 for d in dims]}]
    return {"lo": 0, "dims": dims, "ops": [o] + more}


def check_pairs(case):
    execute(case, False)
    return True, case["ops"][0]["o"]


# ---------------------------------------------------------------- numbers
TOL = np.finfo(float).eps * 1024
SPECIAL = (0.0, 1.0, math.sqrt(0.5))


@st.composite
def numbers(draw):
    centre = st.one_of(st.sampled_from([0.0, 1.0, math.sqrt(0.5), 0.5, 0.25, 1e-9, 1e-6]),
                       st.tuples(st.integers(0, 2 ** 14 - 1), st.sampled_from([2 ** 16, 2 ** 16, 2 ** 16, 2 ** 15, 2 ** 17, 2 ** 16 - 1])).map(lambda t: (t[0] + 0.5) / t[1]),   # where buckets meet
                       st.floats(0.01, 2.0), st.sampled_from([3.0, 10.0, 1e3]))
    cs = draw(st.lists(centre, min_size=1, max_size=4))
    real = st.tuples(st.sampled_from(cs), st.one_of(st.just(0), st.integers(-14, 14)), st.sampled_from([1, 1, -1])).map(lambda t: t[2] * (t[0] + t[1] * TOL * 0.23))
    h = st.integers(0, 200)
    op = st.one_of(
        st.tuples(st.just("num"), real, st.one_of(st.just(0.0), real)),
        st.tuples(st.just("num"), real, st.one_of(st.just(0.0), real)),
        st.tuples(st.just("op"), st.sampled_from(["add", "sub", "mul", "mul", "div", "div", "conj", "neg", "mag", "mag2", "arg", "eq"]), h, h, st.integers(0, 2)),
        st.tuples(st.just("numref"), h), st.tuples(st.just("numderef"), h),
        st.tuples(st.just("numgc"), st.sampled_from([1, 1, 0])),
        st.tuples(st.just("numfill"), st.sampled_from([10, 300, 3000]), st.floats(0.1, 0.9), st.floats(1e-7, 1e-4)))
    return {"ops": draw(st.lists(op, min_size=5, max_size=50))}


def check_numbers(case):
    Driver.call("new 0 1 2")
    known, refs, items, stats = {}, {}, [], {}     # address -> value, address -> references, (value, addresses)

    def look(v, at, got):
        """One real part: v was asked for, the number at `at` with the value `got` was given."""
        a, g = abs(v), abs(got)
        require(abs(v - got) <= TOL * (1 + 1e-9) + 1e-15, f"asking for {v!r} gave {got!r}")
        require(g == 0 or (v < 0) == (got < 0), f"asking for {v!r} gave {got!r}")
        for s in SPECIAL:
            if abs(a - s) <= TOL * 0.999:
                require(g == s, f"{v!r} is not represented by {s!r}")
                return
            if abs(a - s) <= TOL * 1.001:
                return
        near = sorted((abs(x - a), p) for p, x in known.items() if abs(x - a) <= TOL * 1.001)
        if at in known:
            require(known[at] == g, f"the number {known[at]!r} became {g!r}")
        if near and near[0][0] <= TOL * 0.999:
            require(at in known, f"{v!r} was stored a second time next to {known[near[0][1]]!r}")
            require(abs(known[at] - a) <= near[0][0] + 1e-15, f"{v!r} is represented by {g!r}, although {known[near[0][1]]!r} is nearer")
            stats["shared"] = stats.get("shared", 0) + 1
        known[at] = g

    for o in case["ops"]:
        if o[0] == "num":
            _, _, w, d = Driver.call(f"num {o[1]!r} {o[2]!r}")
            pr, pi = int(d[0].real), int(d[0].imag)
            look(o[1], pr, w.real)
            look(o[2], pi, w.imag)
            items.append([w, (pr, pi), 0])
        elif o[0] == "numfill":
            if o[1] * o[3] < 1.0:
                Driver.call(f"numfill {o[1]} {o[2]!r} {o[3]!r}")
                stats["fill"] = 1
        elif not items:
            continue
        elif o[0] == "op":
            i, j = o[2] % len(items), o[3] % len(items)
            a, b = items[i][0], items[j][0]
            if a is None or b is None:
                continue
            if o[1] == "div" and abs(b) < 1e-3:
                continue
            r = Driver.call(f"numop {o[1]} {i} {j} {o[4]}")[2]
            if o[1] == "eq":
                gap = max(abs(a.real - b.real), abs(a.imag - b.imag))
                if abs(gap - TOL) > 1e-3 * TOL:
                    require(bool(r.real) == (gap < TOL), f"{a} and {b} are {'' if r.real else 'not '}taken for equal")
                continue
            w = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a / b, "conj": lambda: a.conjugate(), "neg": lambda: -a,
                 "mag": lambda: abs(a), "mag2": lambda: abs(a) ** 2, "arg": lambda: math.atan2(a.imag, a.real)}[o[1]]()
            if o[1] == "arg" and (abs(a) < 1e-9 or a.real < 0 and abs(a.imag) < 1e-9):
                continue
            tol = 4 * TOL * (1 + abs(a)) * (1 + abs(b)) * (1 / abs(b) if o[1] == "div" else 1) + 1e-14 * abs(w)
            require(abs(r - w) <= tol, f"{o[1]} of {a} and {b} (place of the result: {o[4]}) is {r}, expected {w}")
            stats["op"] = stats.get("op", 0) + 1
        elif o[0] == "numref":
            k = o[1] % len(items)
            if items[k][0] is not None:
                Driver.call(f"numref {k}")
                items[k][2] += 1
        elif o[0] == "numderef":
            k = o[1] % len(items)
            if items[k][0] is not None and items[k][2]:
                Driver.call(f"numderef {k}")
                items[k][2] -= 1
        elif o[0] == "numgc":
            n = int(Driver.call(f"numgc {o[1]}")[2].real)
            require(o[1] or n == 0, "a small table was cleaned without being asked to")
            if not o[1]:
                continue
            live = {p for it in items if it[0] is not None and it[2] and it[0] not in (0, 1) for p in it[1]}
            dead = [p for p, v in known.items() if p not in live and v not in SPECIAL and abs(v - 0.5) > TOL]
            require(n >= len(dead), f"{n} numbers were released, at least {len(dead)} are unused")
            for p in dead:
                del known[p]
            for k, it in enumerate(items):
                if it[0] is None:
                    continue
                if all(p in live or v in SPECIAL for p, v in zip(it[1], (abs(it[0].real), abs(it[0].imag)))):
                    r = Driver.call(f"numval {k}")[2]
                    require(r == it[0], f"the number {it[0]} in use became {r}")
                    stats["kept"] = 1
                else:
                    it[0] = None         # no longer usable
            stats["gc"] = 1
    return len(items) >= 3 and bool({"shared", "op", "kept"} & set(stats)), "+".join(sorted(set(stats) - {"op"})) or "plain"


# ---------------------------------------------------------------- scratch numbers
@st.composite
def scratch(draw):
    k = st.one_of(st.integers(1, 6), st.sampled_from([100, 500, 1022, 1023, 1024, 1025, 1500, 2047, 2049]))
    val = st.floats(-2.0, 2.0)
    op = st.one_of(st.tuples(st.just("upto"), st.sampled_from([1023, 1024, 1024, 3072]), val, st.floats(1e-3, 1.0)), st.tuples(st.just("take"), k, val, st.floats(1e-3, 1.0)),
                   st.tuples(st.just("give"), k, st.sampled_from([0.0, 1.0, 0.5, 0.31])), st.tuples(st.just("temp"), val, val),
                   st.tuples(st.just("num"), val, val), st.tuples(st.just("op"), st.sampled_from(["add", "sub", "mul", "div"]), st.integers(0, 50), st.integers(0, 50), st.integers(0, 2)))
    return {"ops": draw(st.lists(op, min_size=4, max_size=25))}


def check_scratch(case):
    """Scratch numbers taken from the package keep their values, apart from each other, until they are returned."""
    Driver.call("new 0 1 2")
    held, items, most = [], [], 0
    for o in case["ops"]:
        if o[0] == "upto":
            o = ["take", max(0, o[1] - len(held)), o[2], o[3]]
        if o[0] == "take":
            if len(held) > 6000:
                continue
            r = Driver.call(f"ctake {o[1]} {o[2]!r} {o[3]!r}")[2]
            held += [o[2] + o[3] * i for i in range(o[1])]
        elif o[0] == "give":
            r = Driver.call(f"cgive {o[1]} {o[2]!r}")[2]
            for _ in range(min(o[1], len(held))):
                del held[int(o[2] * (len(held) - 1))]
        elif o[0] == "temp":
            _, _, r, d = Driver.call(f"ctemp {o[1]!r} {o[2]!r}")
            require(r == complex(o[1], o[2]), f"the number {o[1]!r}, {o[2]!r} for a moment is {r}")
            r = d[0]
        elif o[0] == "num":
            w = Driver.call(f"num {o[1]!r} {o[2]!r}")[2]
            items.append(w)
            continue
        elif items:
            a, b = o[2] % len(items), o[3] % len(items)
            x, y = items[a], items[b]
            if o[1] == "div" and abs(y) < 1e-3:
                continue
            got = Driver.call(f"numop {o[1]} {a} {b} {o[4]}")[2]
            want = x + y if o[1] == "add" else x - y if o[1] == "sub" else x * y if o[1] == "mul" else x / y
            require(abs(got - want) <= 1e-9 * (1 + abs(want)), f"{o[1]} of {x} and {y} is {got}")
            r = None
        else:
            continue
        most = max(most, len(held))
        require(r is None or r.real == 2 * len(held), f"{r and r.real} scratch parts are counted while {len(held)} numbers are in use")
        d = Driver.call("cvals")[3]
        v, at = d[::2], d[1::2]
        require(len(v) == len(held), "wrong number of held numbers")
        want = np.array(held) * (1 - 1j) if held else np.zeros(0, complex)
        require(np.array_equal(v.real, want.real) and np.array_equal(v.imag, want.imag), "a scratch number in use was overwritten")
        parts = np.concatenate([at.real, at.imag])
        require(len(np.unique(parts)) == len(parts), "two scratch numbers in use share memory")
    return most >= 2, "grown" if most >= 1024 else "small"


# ---------------------------------------------------------------- equal objects by different routes
@st.composite
def routes(draw):
    n = draw(st.integers(1, 3))
    dims = draw(st.lists(st.integers(2, {1: 7, 2: 5, 3: 3}[n]), min_size=n, max_size=n))
    regs = list(range(n))

    @st.composite
    def gate(draw):
        t = draw(st.sampled_from(regs))
        others = [r for r in regs if r != t]
        cs = list(draw(st.permutations(others)))[:draw(st.integers(0, min(2, len(others))))]
        return {"t": t, "m": {"k": draw(st.sampled_from(["fourier", "fourier", "clifperm", "x", "z", "clifdiag", "perm"])), "s": draw(gen.seeds())}, "c": [[r, draw(st.integers(0, dims[r] - 1))] for r in cs]}
    return {"dims": dims, "g": [draw(gate()) for _ in range(draw(st.integers(3, 5)))], "v": [draw(st.integers(0, d - 1)) for d in dims], "f": draw(st.integers(0, 3))}


def check_routes(case):
    dims = case["dims"]
    Driver.call(f"new 0 {len(dims)} " + " ".join(map(str, dims)))
    count = {"v": 0, "m": 0}

    def do(line):
        kind, node, w, data = Driver.call(line)
        count[kind] += 1
        return count[kind] - 1, node, w, data

    def same(x, y, what):
        scale = max(1.0, float(np.max(np.abs(x[3]))))
        require(gen.close(x[3], y[3], 1e-9 * scale), f"{what}: the two results differ")
        if np.max(np.abs(x[3])) > 1e-6:
            require(x[1] == y[1] and abs(x[2] - y[2]) < 1e-9 * scale, f"{what}: the same object is represented in two ways")
    gs = []
    for g in case["g"]:
        m = mat(g["m"], dims[g["t"]])
        gs.append(do(f"gate {g['t']} {len(g['c'])} " + " ".join(f"{r} {l}" for r, l in g["c"]) + " " + nums(m)))
    v = do("basis " + " ".join(map(str, case["v"])))
    one = do("ident")
    a, b, c = gs[0], gs[1], gs[2]
    mm = lambda x, y: do(f"mm {x[0]} {y[0]}")       # noqa: E731
    mv = lambda x, y: do(f"mv {x[0]} {y[0]}")       # noqa: E731
    addm = lambda x, y: do(f"addm {x[0]} {y[0]}")   # noqa: E731
    addv = lambda x, y: do(f"addv {x[0]} {y[0]}")   # noqa: E731
    dag = lambda x: do(f"dag {x[0]}")               # noqa: E731
    tr = lambda x: do(f"tr {x[0]}")                 # noqa: E731
    ab, bc = mm(a, b), mm(b, c)
    same(mm(ab, c), mm(a, bc), "(AB)C = A(BC)")
    same(mv(ab, v), mv(a, mv(b, v)), "(AB)v = A(Bv)")
    same(dag(ab), mm(dag(b), dag(a)), "(AB)* = B*A*")
    same(tr(ab), mm(tr(b), tr(a)), "(AB)^T = B^T A^T")
    same(dag(dag(ab)), ab, "A** = A")
    same(mm(a, dag(a)), one, "A A* = 1")
    same(mm(dag(ab), ab), one, "(AB)*(AB) = 1")
    s1 = addm(a, b)
    same(s1, addm(b, a), "A + B = B + A")
    same(addm(s1, c), addm(a, addm(b, c)), "(A+B)+C = A+(B+C)")
    same(mm(c, s1), addm(mm(c, a), mm(c, b)), "C(A+B) = CA+CB")
    same(mm(s1, c), addm(mm(a, c), bc), "(A+B)C = AC+BC")
    x, y = mv(a, v), mv(b, v)
    same(addv(x, y), mv(s1, v), "Av + Bv = (A+B)v")
    w = v
    for g in gs:
        w = mv(g, w)
    for g in reversed(gs):
        w = mv(dag(g), w)
    same(w, v, "undoing every gate")
    same(mm(a, one), a, "A 1 = A")
    same(mm(one, a), a, "1 A = A")
    same(addm(a, a), mm(addm(one, one), a), "A + A = (1+1)A")
    return True, f"{len(dims)} regs"


# ---------------------------------------------------------------- many entries in the tables
@st.composite
def crowd(draw):
    dims = draw(st.sampled_from([[2, 2], [3, 2], [2, 3], [4], [3, 3]]))
    return {"dims": dims, "seed": draw(gen.seeds()), "n": 500, "k": draw(st.sampled_from(["addv", "addm", "mv", "mm", "inner", "dag", "scalev", "scalev", "scalem"]))}


def check_crowd(case):
    """Many objects on one package, every pair of tables entries colliding sooner or later."""
    dims, rng, k = case["dims"], np.random.default_rng([79, case["seed"]]), case["k"]
    N = int(np.prod(dims))
    Driver.call(f"new 0 {len(dims)} " + " ".join(map(str, dims)))
    V, M = [], []

    def new_v(a):
        Driver.call(f"vec {N} {nums(a)}"); V.append(a)

    def new_m(a):
        Driver.call(f"mat {N} {nums(a)}"); M.append(a)
    base = [rng.normal(size=N) + 1j * rng.normal(size=N) for _ in range(6)]
    mats = [rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N)) for _ in range(6)]
    for a in base:
        new_v(a)
    for a in mats:
        new_m(a)
    for i in range(case["n"] * (3 if k.startswith("scale") else 1)):
        c = np.exp(2j * np.pi * rng.random()) * (0.5 + rng.random())
        if k == "scalev":        # one pair of diagrams, ever other weights
            new_v(c * base[0]); x, y = (len(V) - 1, 1) if case["seed"] % 2 else (1, len(V) - 1)
            got, want = Driver.call(f"addv {x} {y}")[3], V[x] + V[y]
            V.append(want)
        elif k == "scalem":
            new_m(c * mats[0]); x, y = (len(M) - 1, 1) if case["seed"] % 2 else (1, len(M) - 1)
            got, want = Driver.call(f"addm {x} {y}")[3].reshape(N, N), M[x] + M[y]
            M.append(want)
        elif k == "addv":
            a, b = (int(x) for x in rng.integers(0, 6, 2))
            new_v(c * base[a]); x, y = (len(V) - 1, b) if i % 2 else (b, len(V) - 1)
            got, want = Driver.call(f"addv {x} {y}")[3], V[x] + V[y]
            V.append(want)
        elif k == "addm":
            a, b = (int(x) for x in rng.integers(0, 6, 2))
            new_m(c * mats[a]); x, y = (len(M) - 1, b) if i % 2 else (b, len(M) - 1)
            got, want = Driver.call(f"addm {x} {y}")[3].reshape(N, N), M[x] + M[y]
            M.append(want)
        elif k in ("mv", "inner"):
            new_v(rng.normal(size=N) + 1j * rng.normal(size=N))
            x, y = int(rng.integers(0, 6)), len(V) - 1
            if k == "mv":
                got, want = Driver.call(f"mv {x} {y}")[3], M[x] @ V[y]
                V.append(want)
            else:
                got, want = Driver.call(f"inner {x} {y}")[2], np.vdot(V[y], V[x])
        elif k == "mm":
            new_m(rng.normal(size=(N, N)) + 1j * rng.normal(size=(N, N)))
            x, y = int(rng.integers(0, 6)), len(M) - 1
            got, want = Driver.call(f"mm {x} {y}")[3].reshape(N, N), M[x] @ M[y]
            M.append(want)
        else:
            new_m(c * mats[int(rng.integers(0, 6))] if rng.random() < 0.5 else rng.normal(size=(N, N)) + 0j)
            x = len(M) - 1
            got, want = Driver.call(f"dag {x}")[3].reshape(N, N), M[x].conj().T
            M.append(want)
        require(gen.close(np.asarray(got), np.asarray(want), 1e-9), f"{k} number {i} on one package differs from dense algebra")
    return True, k


SUBS = [
    Sub("dense", history(), check_gen, 800, 15000, "histories of 4..24 operations on one package; non-trivial: six executed operations and a product or sum among them"),
    Sub("canonical", history(disc=True), check_disc, 700, 15000, "the same with entries from a discrete set, so that equality of objects is decidable: equal objects must be one node, node counts minimal"),
    Sub("long", history(n_ops=(120, 200), dims=st.sampled_from([[2, 3, 2], [3, 3, 3], [2, 2, 2, 2], [3, 2, 4], [7, 3], [5, 5]]), lo_max=0), check_gen, 60, 600, "120..200 operations on one package, so that its tables grow and collide"),
    Sub("spread", spreading(), check_spread, 250, 3000, "an excitation on one of 2, 3 or 5 registers is spread evenly over them, whatever their places and the levels of the others; digits of basis states"),
    Sub("pairs", pairs(), check_pairs, 400, 5000, "controlled gates, sums and controlled exchanges on dimensions 2 to 7 each, applied, undone, transposed"),
    Sub("routes", routes(), check_routes, 350, 5000, "algebraic laws on products and sums of discrete gates: both sides must be the same node with the same weight"),
    Sub("crowd", crowd(), check_crowd, 20, 300, "500 to 1500 operations of one kind on one package"),
    Sub("numbers", numbers(), check_numbers, 600, 10000, "histories on the table of numbers (asking for values next to each other and to bucket borders, references, collection) and its arithmetic; non-trivial: a shared number, an operation or a collection"),
    Sub("scratch", scratch(), check_scratch, 150, 3000, "histories of taking scratch numbers (up to thousands at once) and returning them in various orders, with arithmetic between: each keeps its value and memory while in use; non-trivial: two in use at once"),
    Sub("tensor", tensor(), check_tensor, 300, 3000, "tensor products and identity padding on registers of equal dimension"),
]
