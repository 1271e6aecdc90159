"""C23: post-processing of results for presentation."""
from __future__ import annotations
import itertools
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require


def vmod():
    import mqt.qudits.visualisation as v
    from mqt.qudits.visualisation import plot_information as p
    return v, p


def digits(k, dims):
    out = []
    for d in reversed(dims):
        out.append(k % d)
        k //= d
    return tuple(reversed(out))


def index(levels, dims):
    k = 0
    for v, d in zip(levels, dims):
        k = k * d + v
    return k


# ---------------------------------------------------------------- partial trace
@st.composite
def trace_case(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 4, 2, 6, 60), gen.dims_list(4, 6, 2, 3, 72), gen.dims_list(7, 8, 2, 2, 256), gen.dims_list(1, 2, 7, 16, 200))))
    keep = [q for q in range(len(dims)) if draw(st.booleans())]
    return {"dims": dims, "keep": keep, "order": list(draw(st.permutations(keep))), "how": draw(st.sampled_from(["pure", "mixed", "any", "product"])), "s": draw(gen.seeds()), "opt": draw(st.booleans()), "arr": draw(st.booleans())}


def rho_of(case):
    dims, rng = case["dims"], np.random.default_rng([21, case["s"]])
    n = int(np.prod(dims))
    if case["how"] == "any":        # the partial trace is linear: any matrix will do
        return rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    if case["how"] == "product":
        out = np.eye(1)
        for d in dims:
            v = ref.haar(rng, d)
            p = rng.random(d)
            out = np.kron(out, v @ np.diag(p / p.sum()) @ v.conj().T)
        return out
    k = 1 if case["how"] == "pure" else n
    a = rng.normal(size=(n, k)) + 1j * rng.normal(size=(n, k))
    r = a @ a.conj().T
    return r / np.trace(r)


def reduced(rho, keep, dims):
    """Reduced operator from its definition, element by element."""
    kd = [dims[q] for q in keep]
    rest = [q for q in range(len(dims)) if q not in keep]
    rd = [dims[q] for q in rest]
    n = int(np.prod(kd or [1]))
    out = np.zeros((n, n), complex)
    rows = []
    for a in itertools.product(*[range(d) for d in kd]):
        row = []
        for e in itertools.product(*[range(d) for d in rd]):
            lev = dict(zip(keep, a)) | dict(zip(rest, e))
            row.append(index([lev[q] for q in range(len(dims))], dims))
        rows.append(row)
    for i, x in enumerate(rows):
        for j, y in enumerate(rows):
            out[i, j] = sum(rho[p, q] for p, q in zip(x, y))
    return out


def check_trace(case):
    v, _ = vmod()
    dims, keep = case["dims"], case["keep"]
    rho = rho_of(case)
    if case["how"] == "mixed":
        rho = np.ascontiguousarray(rho)
    before = rho.copy()
    arg = np.array(case["order"], dtype=int) if case["arr"] else list(case["order"])
    out = np.asarray(v.partial_trace(rho, arg, np.array(dims) if case["arr"] else list(dims), optimize=case["opt"]))
    require(np.array_equal(rho, before), "the state was changed")
    n = int(np.prod([dims[q] for q in keep] or [1]))
    require(out.shape == (n, n), f"the reduced state of {keep} has shape {out.shape}")
    require(abs(np.trace(out) - np.trace(rho)) < 1e-9 * len(rho), "the trace is not preserved")
    require(gen.close(out, reduced(rho, keep, dims), 1e-9 * len(rho)), "wrong reduced state")
    if case["how"] != "any" and keep:
        w = np.linalg.eigvalsh((out + out.conj().T) / 2)
        require(w.min() > -1e-9 and gen.close(out, out.conj().T), "the reduced state is not a state")
    # tracing out in two steps gives the same
    if len(keep) > 1:
        first = keep[:-1]
        sub = v.partial_trace(out, list(range(len(first))), [dims[q] for q in keep])
        require(gen.close(sub, reduced(rho, first, dims), 1e-9 * len(rho)), "tracing out in two steps differs")
    return 0 < len(keep) < len(dims), case["how"]


# ---------------------------------------------------------------- labels and counts
@st.composite
def label_case(draw):
    if draw(st.integers(0, 2)) == 2:     # levels of two digits
        dims = list(draw(st.permutations([draw(st.integers(10, 13)), draw(st.integers(2, 3)), draw(st.sampled_from([2, 3, 10, 11, 12]))])))
    else:
        dims = list(draw(gen.dims_list(1, 4, 2, 6, 300)))
    return {"dims": dims, "regs": draw(st.booleans())}


def check_labels(case):
    import re
    _, p = vmod()
    dims = case["dims"]
    c = gen.new_circuit(dims)
    lab = p.state_labels(c)
    require(len(lab) == int(np.prod(dims)), "not one label per basis state")
    require(len(set(lab)) == len(lab), "two basis states have the same label")
    for k, s in enumerate(lab):
        want = digits(k, dims)
        got = [int(x) for x in (re.findall(r"\d+", s) if max(dims) > 10 and re.search(r"\D", s) else s)] if max(dims) <= 10 or re.search(r"\D", s) else None
        if max(dims) <= 10:
            require(s == "".join(map(str, want)), f"basis state {want} is labelled {s}")
        elif got is not None:
            require(tuple(got) == want, f"basis state {want} is labelled {s}")
    return len(dims) > 1, "two digits" if max(dims) > 10 else ""


@st.composite
def counts_case(draw):
    big = draw(st.integers(0, 3)) == 0
    dims = list(draw(gen.dims_list(1, 3, 2, 12 if big else 5, 150)))
    return {"dims": dims, "shots": draw(st.integers(1, 200)), "s": draw(gen.seeds()), "arr": draw(st.sampled_from(["list", "array", "npint"])), "spread": draw(st.booleans())}


def samples(case, n):
    rng = np.random.default_rng([22, case["s"]])
    x = rng.integers(0, n, case["shots"]) if case["spread"] else rng.choice(n, size=min(n, 3), replace=False)[rng.integers(0, min(n, 3), case["shots"])]
    return {"list": [int(a) for a in x], "array": x, "npint": list(x)}[case["arr"]]


def check_density(case):
    v, _ = vmod()
    dims = case["dims"]
    n = int(np.prod(dims))
    c = gen.new_circuit(dims)
    x = samples(case, n)
    rho = np.asarray(v.get_density_matrix_from_counts(x, c))
    freq = np.array([sum(int(a) == k for a in x) / len(x) for k in range(n)])
    require(rho.shape == (n, n) and gen.close(rho, np.diag(freq), 1e-12), "the density matrix is not the mixture of the observed basis states")
    # single-qudit marginals of the counts are the diagonals of the reduced states
    for q in range(len(dims)):
        m = np.zeros(dims[q])
        for k in range(n):
            m[digits(k, dims)[q]] += freq[k]
        require(gen.close(np.diag(v.partial_trace(rho.astype(complex), [q], dims)), m, 1e-9), "wrong marginal of a qudit")
    return len(set(int(a) for a in x)) > 1, case["arr"]


# ---------------------------------------------------------------- placements and plots
@st.composite
def map_case(draw):
    dims = list(draw(st.one_of(gen.dims_list(1, 5, 2, 5, 80), gen.dims_list(1, 5, 2, 5, 80), gen.dims_list(6, 8, 2, 3, 300), gen.dims_list(1, 2, 6, 14, 150))))
    return {"dims": dims, "maps": [list(draw(st.permutations(range(d)))) for d in dims] if draw(st.integers(0, 5)) else None,
            "s": draw(gen.seeds()), "shots": draw(st.integers(1, 60)), "arr": draw(st.sampled_from(["list", "array", "npint"])), "spread": True, "row": draw(st.booleans())}


def expected(vec, maps, dims):
    """Logical level a of a qudit is found at its physical level maps[a]."""
    if maps is None:
        return np.array(vec)
    return np.array([vec[index([m[a] for m, a in zip(maps, digits(k, dims))], dims)] for k in range(len(vec))])


class Plots:
    """Records the bars instead of drawing them."""
    def __enter__(self):
        import matplotlib.pyplot as plt
        self.plt, self.bars, self.shown = plt, [], 0
        self.old = plt.bar, plt.show

        def bar(x, height, *a, **k):
            self.bars.append((list(x), [float(h) for h in height]))
            return self.old[0](x, height, *a, **k)

        def show(*_a, **_k):
            self.shown += 1
        plt.bar, plt.show = bar, show
        return self

    def __exit__(self, *_):
        self.plt.bar, self.plt.show = self.old
        self.plt.close("all")


def check_map(case):
    _, p = vmod()
    dims, maps = case["dims"], case["maps"]
    n = int(np.prod(dims))
    c = gen.new_circuit(dims)
    if maps is not None:
        c.set_mapping([list(m) for m in maps])
    rng = np.random.default_rng([23, case["s"]])
    state = rng.normal(size=n) + 1j * rng.normal(size=n)
    state /= np.linalg.norm(state)
    before = state.copy()
    out = np.asarray(p.remap_result(state, c))
    require(np.array_equal(state, before), "the state was changed")
    require(gen.close(out, expected(state, maps, dims), 1e-12), "the relabelled state is not the logical one")
    ints = [int(x) for x in rng.integers(0, 9, n)]
    keep = list(ints)
    require(np.allclose(p.remap_result(ints, c), expected(ints, maps, dims)) and ints == keep, "the relabelled counts are not the logical ones")
    return maps is not None and any(m != sorted(m) for m in maps), "placed" if maps else "no placement"


def check_plot(case):
    v, p = vmod()
    dims, maps = case["dims"], case["maps"]
    n = int(np.prod(dims))
    c = gen.new_circuit(dims)
    if maps is not None:
        c.set_mapping([list(m) for m in maps])
    rng = np.random.default_rng([24, case["s"]])
    state = rng.normal(size=n) + 1j * rng.normal(size=n)
    state /= np.linalg.norm(state)
    x = samples(case, n)
    raw = [sum(int(a) == k for a in x) for k in range(n)]
    with Plots() as rec:
        a = v.plot_state(state.reshape(1, -1) if case["row"] else state, c)
        b = v.plot_counts(x, c)
    for got, want, bars, what in ((a, expected(abs(state), maps, dims), rec.bars[0], "state"), (b, expected(raw, maps, dims), rec.bars[1], "counts")):
        require(np.allclose(np.asarray(got, float).ravel(), want), f"the {what} returned for the plot are not the logical ones")
        require(bars[0] == p.state_labels(c) and np.allclose(bars[1], want), f"the bars of the {what} do not belong to their labels")
    return maps is not None and any(m != sorted(m) for m in maps), case["arr"]


SUBS = [
    Sub("trace", trace_case(), check_trace, 400, 5000, "pure, mixed, product states and arbitrary matrices, any kept subset in any order; non-trivial: some qudits kept and some traced out"),
    Sub("labels", label_case(), check_labels, 150, 1500, "registers with up to 12 levels; non-trivial: several qudits"),
    Sub("density", counts_case(), check_density, 200, 2500, "lists and arrays of outcomes; non-trivial: several different outcomes"),
    Sub("map", map_case(), check_map, 250, 3000, "random placements; non-trivial: not the trivial one"),
    Sub("plot", map_case(), check_plot, 40, 250, "what the plots show and return; non-trivial: not the trivial placement"),
]
