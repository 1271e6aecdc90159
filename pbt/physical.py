"""Level graphs: generation, construction and the operators they stand for."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from .core import require


@st.composite
def graph_spec(draw, d, phases=False):
    """A connected graph on d levels (random tree plus extra edges), a placement and initial levels."""
    relabel = draw(st.permutations(range(d)))
    shape = draw(st.sampled_from(["tree", "path", "star", "tree"]))
    edges = []
    for i in range(1, d):
        j = i - 1 if shape == "path" else 0 if shape == "star" else draw(st.integers(0, i - 1))
        edges.append(sorted([relabel[j], relabel[i]]))
    for _ in range(draw(st.integers(0, 2)) if d > 2 else 0):
        a = draw(st.integers(0, d - 1)); b = draw(st.integers(0, d - 1))
        if a != b and sorted([a, b]) not in edges:
            edges.append(sorted([a, b]))
    edges = [e if draw(st.booleans()) else e[::-1] for e in edges]
    spec = {"d": d, "edges": [[*e, draw(st.integers(0, 1)), draw(st.integers(1, 5))] for e in edges],
            "map": list(draw(st.permutations(range(d)))),
            "init": sorted(draw(st.sets(st.integers(0, d - 1), min_size=1, max_size=max(1, d - 1)))), "phases": None}
    if phases and draw(st.booleans()):
        spec["phases"] = [draw(st.one_of(st.sampled_from([0.0, np.pi, -np.pi, np.pi / 2, -0.5]), st.floats(-6, 6))) for _ in range(d)]
    return spec


def make(spec, qudit=0, circuit=None):
    from mqt.qudits.core import LevelGraph
    g = LevelGraph([(a, b, {"delta_m": dm, "sensitivity": s}) for a, b, dm, s in spec["edges"]], list(range(spec["d"])),
                   list(spec["map"]), list(spec["init"]), qudit, circuit)
    if spec["phases"] is not None:
        g.phase_storing_setup()
        for i, p in enumerate(spec["phases"]):
            g.nodes[i]["phase_storage"] = p
    return g


def placement(g) -> list[int]:
    return [int(g.nodes[i]["lpmap"]) for i in sorted(g.nodes)]


def phases(g) -> np.ndarray:
    return np.array([float(g.nodes[i].get("phase_storage", 0.0)) for i in sorted(g.nodes)])


def perm(m) -> np.ndarray:
    p = np.zeros((len(m), len(m)))
    for i, j in enumerate(m):
        p[j, i] = 1
    return p


def physical_edges(g) -> set:
    return {frozenset((int(g.nodes[a]["lpmap"]), int(g.nodes[b]["lpmap"]))) for a, b in g.edges}


def log_to_phys(g) -> np.ndarray:
    """Operator that turns a logical state into the physical one: placement, minus the phases still owed.
    A stored phase f stands for a virtual rotation exp(-i f) that has not been applied yet."""
    return perm(placement(g)) @ np.diag(np.exp(1j * phases(g)))


def check_pulses(seq, qudit, edges, label=""):
    """Only two-level rotations on existing transitions and virtual phase gates, all on the given qudit."""
    for op in seq:
        require(op.target_qudits == qudit, f"{label}the sequence acts on qudit {op.target_qudits} instead of {qudit}")
        require(op.control_info["controls"] is None, f"{label}the sequence contains a controlled gate")
        if op.qasm_tag == "rxy":
            require(frozenset((op.lev_a, op.lev_b)) in edges, f"{label}rotation between levels {op.lev_a} and {op.lev_b}, which is no transition of the structure")
        else:
            require(op.qasm_tag == "virtrz", f"{label}the sequence contains {op.qasm_tag}, which is no physical operation")


def product(seq, d) -> np.ndarray:
    u = np.eye(d, dtype=complex)
    for g in seq:
        m = np.asarray(g.__array__(), dtype=complex)
        u = (m.conj().T if g.dagger else m) @ u
    return u


def structure_unchanged(g, spec, qudit):
    """Routing may move the levels, but the transitions between physical levels are those of the device."""
    want = {frozenset((spec["map"][a], spec["map"][b])) for a, b, *_ in spec["edges"]}
    require(sorted(placement(g)) == list(range(spec["d"])), f"placement {placement(g)} is no permutation of the levels")
    require(physical_edges(g) == want, "the transitions of the structure changed")
    return want
