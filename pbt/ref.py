"""Reference model, written from the mathematical definitions only.

A *gate spec* is a JSON dict
  {"g": kind, "t": [target lines], "p": params, "c": [[lines],[levels]] or None, "dag": bool}
A *circuit spec* is {"regs": [[name, [dims]], ...], "gates": [gate spec, ...]}.
"""
from __future__ import annotations
import cmath, math
import numpy as np


# ---------------------------------------------------------------- custom matrices
def unitary(spec, d: int) -> np.ndarray:
    """Deterministic unitary of size d from a JSON spec {"k": kind, "s": seed}."""
    rng = np.random.default_rng([d, spec["s"]])
    k = spec["k"]
    if k == "id":
        return np.eye(d, dtype=complex)
    if k == "haar":
        return haar(rng, d)
    if k == "diag":
        return np.diag(np.exp(1j * rng.uniform(-np.pi, np.pi, d)))
    if k == "clifdiag":
        return np.diag(np.exp(1j * np.pi / 2 * rng.integers(0, 4, d)))
    if k == "perm":
        return np.eye(d, dtype=complex)[:, rng.permutation(d)]
    if k == "pperm":
        return np.diag(np.exp(1j * rng.uniform(-np.pi, np.pi, d))) @ np.eye(d)[:, rng.permutation(d)]
    if k == "block":       # haar on a random subset of levels
        m = np.eye(d, dtype=complex)
        n = int(rng.integers(1, d + 1))
        idx = rng.permutation(d)[:n]
        m[np.ix_(idx, idx)] = haar(rng, n)
        return m
    if k == "givens":      # one two-level rotation
        m = np.eye(d, dtype=complex)
        if d > 1:
            i, j = sorted(rng.permutation(d)[:2])
            m[np.ix_([i, j], [i, j])] = haar(rng, 2)
        return m
    if k == "fourier":
        return np.array([[cmath.exp(2j * math.pi * a * b / d) for b in range(d)] for a in range(d)]) / math.sqrt(d)
    if k == "real":
        q, r = np.linalg.qr(rng.normal(size=(d, d)))
        return (q * np.sign(np.diag(r))).astype(complex)
    if k == "near_id":
        h = rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))
        w, v = np.linalg.eigh((h + h.conj().T) / 2)
        return (v * np.exp(1j * 0.05 * w)) @ v.conj().T
    if k == "tiny":        # a few two-level rotations by small angles, with or without phases
        m = np.eye(d, dtype=complex)
        size = (0.003, 0.008, 0.02)[int(rng.integers(3))]
        for _ in range(int(rng.integers(1, 3)) if d > 1 else 0):
            i, j = sorted(rng.permutation(d)[:2])
            m = rmat(d, int(i), int(j), size * rng.uniform(0.7, 1.3) * 2, rng.uniform(0, 2 * np.pi)) @ m
        return np.diag(np.exp(1j * rng.uniform(-np.pi, np.pi, d))) @ m if rng.integers(2) else m
    raise ValueError(k)


def haar(rng, d: int) -> np.ndarray:
    z = (rng.normal(size=(d, d)) + 1j * rng.normal(size=(d, d))) / math.sqrt(2)
    q, r = np.linalg.qr(z)
    ph = np.diag(r) / np.abs(np.diag(r))
    return q * ph


# ---------------------------------------------------------------- gate definitions
def expi(h: np.ndarray, t: float) -> np.ndarray:
    """exp(-i t h) for Hermitian h."""
    w, v = np.linalg.eigh(h)
    return (v * np.exp(-1j * t * w)) @ v.conj().T


def xmat(d):
    m = np.zeros((d, d), complex)
    for i in range(d):
        m[(i + 1) % d, i] = 1
    return m


def two_level(d, la, lb, m2):
    """2x2 block on (lower, higher) level."""
    a, b = min(la, lb), max(la, lb)
    m = np.eye(d, dtype=complex)
    m[a, a], m[a, b], m[b, a], m[b, b] = m2[0][0], m2[0][1], m2[1][0], m2[1][1]
    return m


def rmat(d, la, lb, theta, phi):
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    return two_level(d, la, lb, [[c, -1j * s * cmath.exp(-1j * phi)], [-1j * s * cmath.exp(1j * phi), c]])


def gellmann(d, la, lb, kind):
    m = np.zeros((d, d), complex)
    if kind == "s":
        m[la, lb] = m[lb, la] = 1
    elif kind == "a":
        m[la, lb], m[lb, la] = -1j, 1j
    else:
        for j in range(lb):
            m[j, j] = 1
        m[lb, lb] = -lb
        m *= math.sqrt(2 / (lb * (lb + 1)))
    return m


def matrix(spec, dims) -> np.ndarray:
    """Matrix of the gate on its targets, in the order the targets are listed
    (custom multi-qudit matrices: over the targets in increasing order). No controls; adjoint applied."""
    g, t, p = spec["g"], spec["t"], spec.get("p")
    d = dims[t[0]]
    if g == "x":
        m = xmat(d)
    elif g == "z":
        m = np.diag([cmath.exp(2j * math.pi * k / d) for k in range(d)])
    elif g == "h":
        m = np.array([[cmath.exp(2j * math.pi * ((a * b) % d) / d) for b in range(d)] for a in range(d)]) / math.sqrt(d)
    elif g == "s":
        m = np.diag([1, 1j]) if d == 2 else np.diag([cmath.exp(2j * math.pi * ((k * (k + 1) // 2) % d) / d) for k in range(d)])
    elif g == "r":
        m = rmat(d, *p)
    elif g == "rz":
        la, lb, phi = p
        m = two_level(d, la, lb, [[cmath.exp(-0.5j * phi), 0], [0, cmath.exp(0.5j * phi)]])
    elif g == "rh":
        m = two_level(d, *p, np.array([[1, 1], [1, -1]]) * 1j / math.sqrt(2))
    elif g == "virtrz":
        m = np.eye(d, dtype=complex); m[p[0], p[0]] = cmath.exp(-1j * p[1])
    elif g == "noisez":
        m = np.eye(d, dtype=complex); m[p[0], p[0]] = -1
    elif g == "noisex":
        m = two_level(d, *p, [[0, 1], [1, 0]])
    elif g == "noisey":
        m = two_level(d, *p, [[0, -1j], [1j, 0]])
    elif g == "pm":
        m = np.zeros((d, d), complex)
        for col, row in enumerate(p):
            m[row, col] = 1
    elif g == "cu_one":
        m = unitary(p, d)
    elif g in ("cu_two", "cu_multi"):
        n = 1
        for q in t:
            n *= dims[q]
        m = unitary(p, n)
    elif g == "csum":
        dc, dt = dims[t[0]], dims[t[1]]
        m = np.zeros((dc * dt, dc * dt), complex)
        for c in range(dc):
            for j in range(dt):
                m[c * dt + (j + c) % dt, c * dt + j] = 1
    elif g == "cx":
        dc, dt = dims[t[0]], dims[t[1]]
        la, lb, lev, phi = p if p is not None else [0, 1, 1, 0.0]
        blk = two_level(dt, la, lb, [[0, -1j * math.cos(phi) - math.sin(phi)], [-1j * math.cos(phi) + math.sin(phi), 0]])
        m = np.eye(dc * dt, dtype=complex)
        m[lev * dt:(lev + 1) * dt, lev * dt:(lev + 1) * dt] = blk
    elif g == "ls":
        da, db = dims[t[0]], dims[t[1]]
        v = np.ones(da * db, complex)
        for i in range(min(da, db)):
            v[i * db + i] = cmath.exp(-1j * p[0])
        m = np.diag(v)
    elif g == "ms":
        da, db = dims[t[0]], dims[t[1]]
        s = np.kron(gellmann(da, 0, 1, "s"), np.eye(db)) + np.kron(np.eye(da), gellmann(db, 0, 1, "s"))
        m = expi(s @ s, p[0] / 4)
    else:
        raise ValueError(g)
    m = np.asarray(m, complex)
    return m.conj().T if spec.get("dag") else m


def order(spec) -> list[int]:
    """Lines in the order in which matrix(spec) indexes them."""
    return sorted(spec["t"]) if spec["g"] in ("cu_two", "cu_multi") else list(spec["t"])


def apply(state: np.ndarray, dims, m: np.ndarray, lines, ctl=None) -> np.ndarray:
    """Apply m on lines (optionally controlled) to a state of shape (prod dims, k)."""
    k = state.shape[1]
    psi = state.reshape([*dims, k])
    idx: list = [slice(None)] * (len(dims) + 1)
    axes = list(lines)
    if ctl:
        for q, lev in zip(*ctl):
            idx[q] = lev
        axes = [q - sum(1 for c in ctl[0] if c < q) for q in lines]
    out = psi.copy()
    sub = psi[tuple(idx)]
    ds = [dims[q] for q in lines]
    mt = m.reshape(ds + ds)
    n = len(lines)
    r = np.tensordot(mt, sub, axes=(list(range(n, 2 * n)), axes))
    r = np.moveaxis(r, list(range(n)), axes)
    out[tuple(idx)] = r
    return out.reshape(-1, k)


def apply_object(state, dims, g):
    """Apply a library gate from its bare matrix, adjoint flag, targets and controls only."""
    m = np.asarray(g.__array__(), dtype=complex)
    if g.dagger:
        m = m.conj().T
    data = g.control_info["controls"]
    ctl = [list(data.indices), list(data.ctrl_states)] if data is not None and len(data.indices) else None
    t = g.target_qudits
    lines = [int(t)] if isinstance(t, (int, np.integer)) else [int(q) for q in t]
    return apply(state, dims, m, sorted(lines), ctl)    # the library's matrices index the lines in increasing order (C01)


def objects_operator(gs, dims):
    u = np.eye(int(np.prod(dims)), dtype=complex)
    for g in gs:
        u = apply_object(u, dims, g)
    return u


def operator(spec, dims) -> np.ndarray:
    n = int(np.prod(dims))
    return apply(np.eye(n, dtype=complex), dims, matrix(spec, dims), order(spec), spec.get("c"))


def span_operator(spec, dims) -> np.ndarray:
    """Operator on the span of lines min..max of the gate."""
    lines = list(spec["t"]) + (list(spec["c"][0]) if spec.get("c") else [])
    lo, hi = min(lines), max(lines)
    s = dict(spec, t=[q - lo for q in spec["t"]])
    if spec.get("c"):
        s["c"] = [[q - lo for q in spec["c"][0]], spec["c"][1]]
    return operator(s, dims[lo:hi + 1])


def circuit_state(gates, dims, start=None) -> np.ndarray:
    n = int(np.prod(dims))
    psi = np.zeros((n, 1), complex)
    psi[0] = 1
    if start is not None:
        psi = np.array(start, complex).reshape(n, 1)
    for s in gates:
        psi = apply(psi, dims, matrix(s, dims), order(s), s.get("c"))
    return psi[:, 0]


def circuit_operator(gates, dims) -> np.ndarray:
    n = int(np.prod(dims))
    u = np.eye(n, dtype=complex)
    for s in gates:
        u = apply(u, dims, matrix(s, dims), order(s), s.get("c"))
    return u


def probe(dims) -> np.ndarray:
    """Columns on which operators are compared: all basis states, or for wide registers the ground state and four random ones."""
    n = int(np.prod(dims))
    if n <= 160:
        return np.eye(n, dtype=complex)
    rng = np.random.default_rng(7)
    x = rng.standard_normal((n, 5)) + 1j * rng.standard_normal((n, 5))
    x /= np.linalg.norm(x, axis=0)
    x[:, 0] = np.eye(1, n)
    return x


def action(gates, dims) -> np.ndarray:
    """The circuit, given by specs or by gate objects, applied to the probe."""
    u = probe(dims)
    for s in gates:
        u = apply(u, dims, matrix(s, dims), order(s), s.get("c")) if isinstance(s, dict) else apply_object(u, dims, s)
    return u


def phase_distance(a: np.ndarray, b: np.ndarray) -> float:
    """max |a - e^{i phi} b| minimised over the phase (both same shape)."""
    a, b = np.asarray(a, complex), np.asarray(b, complex)
    if a.shape != b.shape:
        return math.inf
    ov = np.vdot(b, a)
    ph = ov / abs(ov) if abs(ov) > 1e-14 else 1.0
    return float(np.max(np.abs(a - ph * b))) if a.size else 0.0
