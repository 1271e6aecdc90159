"""C20: level structures and routing."""
from __future__ import annotations
import collections
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph
from .core import Sub, require


@st.composite
def graph(draw, dmin=2, dmax=8, phases=True):
    d = draw(st.integers(dmin, dmax))
    spec = draw(ph.graph_spec(d, phases=phases))
    spec["order"] = list(draw(st.permutations(range(d)))) if draw(st.integers(0, 2)) == 0 else list(range(d))
    return spec


def make(spec, circuit=None):
    from mqt.qudits.core import LevelGraph
    g = LevelGraph([(a, b, {"delta_m": dm, "sensitivity": s}) for a, b, dm, s in spec["edges"]], list(spec["order"]),
                   [spec["map"][i] for i in spec["order"]], list(spec["init"]), 0, circuit)
    if spec["phases"] is not None:
        g.phase_storing_setup()
        for i, p in enumerate(spec["phases"]):
            g.nodes[i]["phase_storage"] = p
    return g


class Model:
    """The structure as plain dictionaries over logic levels."""

    def __init__(self, spec):
        d = spec["d"]
        self.d, self.order = d, list(spec["order"])
        self.at = {i: spec["map"][i] for i in range(d)}
        self.init = set(spec["init"])
        self.f = None if spec["phases"] is None else {i: spec["phases"][i] for i in range(d)}
        self.edges = {frozenset((a, b)): (dm, s) for a, b, dm, s in spec["edges"]}

    def swap(self, a, b):
        """Exchange the places of two logic levels: everything but their names moves."""
        r = {a: b, b: a}
        self.at[a], self.at[b] = self.at[b], self.at[a]
        if self.f is not None:
            self.f[a], self.f[b] = self.f[b], self.f[a]
        self.init = {r.get(i, i) for i in self.init}
        self.edges = {frozenset(r.get(i, i) for i in e): v for e, v in self.edges.items()}

    def distances(self, a):
        dist, queue = {a: 0}, collections.deque([a])
        while queue:
            i = queue.popleft()
            for e in self.edges:
                if i in e:
                    (j,) = e - {i}
                    if j not in dist:
                        dist[j] = dist[i] + 1
                        queue.append(j)
        return dist

    @property
    def first_init(self):
        return next(i for i in self.order if i in self.init)

    def transitions(self):
        return {frozenset(self.at[i] for i in e): v for e, v in self.edges.items()}

    def state(self):
        return (self.at, self.f, sorted(self.init), self.edges)


def theta_cost(theta):
    x = abs(theta / np.pi)
    return (4 * x + abs((x + 0.25) % 0.5 - 0.25)) * 1e-4


def rotation_cost(model, a, b, gate_cost, theta):
    if a in model.init and b in model.init:
        return gate_cost
    dist = model.distances(model.first_init)
    return (min(dist[a], dist[b]) + 1) * theta_cost(theta)


def read(g):
    d = len(g.nodes)
    f = {i: float(g.nodes[i]["phase_storage"]) for i in range(d)} if any("phase_storage" in g.nodes[i] for i in range(d)) else None
    return ({i: g.nodes[i]["lpmap"] for i in range(d)}, f, sorted(i for i in range(d) if g.nodes[i]["level"] == "i"),
            {frozenset(e): (g.edges[e]["delta_m"], g.edges[e]["sensitivity"]) for e in g.edges})


def agree(g, m, what):
    require(sorted(g.nodes) == list(range(m.d)), f"{what}: the levels are {sorted(g.nodes)}")
    got, want = read(g), m.state()
    for x, y, name in zip(got, want, ("placement", "stored phases", "initial levels", "transitions")):
        require(x == y, f"{what}: {name} {x}, expected {y}")


@st.composite
def queries_case(draw):
    spec = draw(graph(2, 9))
    d = spec["d"]
    swaps = [draw(gen.two_levels(d)) if d > 1 else [0, 0] for _ in range(draw(st.integers(0, 6)))]
    swaps = [x if draw(st.booleans()) else x[::-1] for x in swaps]
    return {"graph": spec, "swaps": [list(s) for s in swaps], "simple": [list(draw(gen.two_levels(d))) for _ in range(draw(st.integers(0, 2)))]}


def check_queries(case):
    spec = case["graph"]
    c = gen.new_circuit([spec["d"]])
    g, m = make(spec, c), Model(spec)
    agree(g, m, "new structure")
    hist = [g]
    for a, b in case["swaps"]:
        before = read(g)
        h = g.swap_nodes(a, b)
        require(read(g) == before, "exchanging levels changed the structure it started from")
        m.swap(a, b)
        g = h
        hist.append(g)
        agree(g, m, f"after exchanging {a} and {b}")
    require(g.og_circuit is c and g.qudit_index == 0, "the structure lost its circuit or qudit")
    for a, b in case["simple"]:
        g.swap_node_attr_simple(a, b)
        if m.f is not None:
            m.f[a], m.f[b] = m.f[b], m.f[a]
        agree(g, m, f"after exchanging the phases of {a} and {b}")
    d = m.d
    require([g.nodes[n]["lpmap"] for n in g.nodes] == list(g.log_phy_map) and sorted(g.log_phy_map) == list(range(d)), f"log_phy_map is {g.log_phy_map}")
    for a in range(d):
        dist = m.distances(a)
        for b in range(d):
            require(g.distance_nodes(a, b) == dist[b], f"distance of {a} and {b} is {g.distance_nodes(a, b)}, expected {dist[b]}")
            if a != b:
                require(g.distance_nodes_pi_pulses_fixed_ancilla(a, b) == dist[b] - 1, f"pulses between {a} and {b}: {g.distance_nodes_pi_pulses_fixed_ancilla(a, b)}, expected {dist[b] - 1}")
        near = [v[1] for e, v in m.edges.items() if a in e]
        require(g.get_node_sensitivity_cost(a) == sum(near), f"sensitivity of {a} is {g.get_node_sensitivity_cost(a)}, expected {sum(near)}")
        require(g.is_inode(a) == (a in m.init) and g.is_irnode(a) == (a not in m.init), f"level {a} is in the wrong class")
    for e, v in m.edges.items():
        a, b = sorted(e)
        require(g.get_edge_sensitivity(a, b) == v[1] == g.get_edge_sensitivity(b, a), "sensitivity of a transition is wrong")
    require(g.fst_inode == m.first_init, f"the first initial level is {g.fst_inode}")
    rest = [i for i in m.order if i not in m.init]
    require(not rest or g.fst_rnode == rest[0], "the first other level is wrong")
    # phases still owed, as virtual rotations on the levels
    if m.f is not None:
        z = ph.product(g.get_vrz_gates(), d)
        want = np.zeros(d, complex)
        for i in range(d):
            want[m.at[i]] = np.exp(-1j * m.f[i])
        require(np.max(np.abs(z - np.diag(want))) < 2.1e-3, "the virtual rotations of the structure do not apply its stored phases")
    return len(case["swaps"]) > 1, f"d{d}/{'phases' if m.f is not None else 'clean'}"


@st.composite
def route_case(draw):
    spec = draw(graph(2, 8))
    d = spec["d"]
    a, b = draw(gen.two_levels(d))
    if draw(st.booleans()):
        a, b = b, a
    return {"graph": spec, "a": int(a), "b": int(b), "theta": draw(st.floats(-12, 12)), "phi": draw(st.floats(-7, 7)), "non_zeros": draw(st.integers(1, 30))}


def check_route(case):
    from mqt.qudits.compiler.onedit.local_operation_swap import cost_calculator, route_states2rotate_basic
    from mqt.qudits.quantum_circuit.gates import R
    spec, a, b = case["graph"], case["a"], case["b"]
    d = spec["d"]
    c = gen.new_circuit([d])
    g, m = make(spec, c), Model(spec)
    gate = R(c, "R", 0, [a, b, case["theta"], case["phi"]], d)
    u = np.array(gate.to_matrix(0))
    before = read(g)
    edges, dist = m.transitions(), m.distances(a)[b]
    cost, pulses, new = route_states2rotate_basic(gate, g)
    require(read(g) == before and gen.close(np.array(gate.to_matrix(0)), u, 1e-12) and c.number_gates == 0, "routing changed its inputs")
    require(len(pulses) == dist - 1, f"{len(pulses)} pulses route levels at distance {dist}")
    ph.check_pulses(pulses, 0, set(edges))
    require(all(p.qasm_tag == "rxy" and abs(abs(abs(p.theta) % (2 * np.pi)) - np.pi) < 1e-9 for p in pulses), "routing uses pulses other than pi pulses")
    # replay the pulses on the model: every pulse exchanges two neighbouring levels
    want_cost, moved = 0.0, set()
    for p in pulses:
        where = {v: k for k, v in m.at.items()}
        x, y = where[p.lev_a], where[p.lev_b]
        want_cost += rotation_cost(m, x, y, theta_cost(np.pi), np.pi)
        m.swap(x, y)
        moved |= {x, y}
    agree(new, m, "after routing")
    require(m.transitions() == edges, "routing changed the transitions")
    require(new.has_edge(a, b), "the levels are no neighbours after routing")
    require(abs(cost - want_cost) < 1e-9, f"routing reports a cost of {cost}, the pulses cost {want_cost}")
    # the pulses move every level to its new place; phases are the change of the stored ones, up to the sign of a pi pulse
    w = ph.product(pulses, d)
    f0, f1 = ph.phases(g), ph.phases(new)
    moves = ph.perm(ph.placement(new)).T @ w @ ph.perm(ph.placement(g))
    amp = np.diag(moves) * np.exp(1j * (f0 - f1))
    require(np.max(np.abs(moves - np.diag(np.diag(moves)))) < 1e-7, "the pulses move the levels to other places than the placement records")
    for i in range(d):
        sign = amp[i].real
        require(abs(amp[i].imag) < 1e-6 and abs(abs(sign) - 1) < 1e-6, f"the phase {np.angle(moves[i, i]):.4g} of level {i} is not the change of its stored phase")
        require(i in moved or sign > 0, f"level {i} is not moved but changes its sign")
    # the same through the cost calculator
    total, pulses2, new2, pi_cost, gate_cost = cost_calculator(gate, g, case["non_zeros"])
    require(read(new2) == read(new) and gen.close(ph.product(pulses2, d), w, 1e-9) and abs(pi_cost - cost) < 1e-12, "the cost calculator routes differently")
    want = rotation_cost(m, a, b, gate.cost, gate.theta)
    require(abs(gate_cost - want) < 1e-9, f"the rotation costs {gate_cost} after routing, expected {want}")
    require(abs(total - (want + want_cost) * case["non_zeros"]) < 1e-9, f"total cost {total}, expected {(want + want_cost) * case['non_zeros']}")
    return len(pulses) > 0, f"d{d}/{min(len(pulses), 3)} pulses/{'phases' if m.f is not None else 'clean'}"


@st.composite
def cost_case(draw):
    spec = draw(graph(2, 8, phases=False))
    a, b = draw(gen.two_levels(spec["d"]))
    if draw(st.booleans()):
        a, b = b, a
    return {"graph": spec, "a": int(a), "b": int(b), "theta": draw(gen.angles()), "phi": draw(gen.angles())}


def check_cost(case):
    from mqt.qudits.compiler.compilation_minitools import rotation_cost_calc
    from mqt.qudits.quantum_circuit.gates import R
    spec, a, b = case["graph"], case["a"], case["b"]
    c = gen.new_circuit([spec["d"]])
    g, m = make(spec, c), Model(spec)
    gate = R(c, "R", 0, [a, b, float(case["theta"]), float(case["phi"])], spec["d"])
    got, want = rotation_cost_calc(gate, g), rotation_cost(m, a, b, gate.cost, gate.theta)
    require(abs(got - want) < 1e-12, f"a rotation between {a} and {b} costs {got}, expected {want}")
    require(abs(gate.cost - theta_cost(gate.theta)) < 1e-12 and gate.cost >= 0, "the cost of the gate is wrong")
    return a not in m.init or b not in m.init, "outside" if a not in m.init or b not in m.init else "initial levels"


@st.composite
def ancilla_case(draw):
    """A tree of levels, some of them ancillas (negative labels)."""
    n = draw(st.integers(2, 8))
    labels = draw(st.permutations(range(-4, 8)))[:n]
    return {"labels": list(labels), "parents": [draw(st.integers(0, i - 1)) for i in range(1, n)]}


def check_ancilla(case):
    """Crossing an ancilla takes two pulses, crossing another level one."""
    from mqt.qudits.core import LevelGraph
    labels, parents = case["labels"], case["parents"]
    g = LevelGraph([(labels[i + 1], labels[p], {"delta_m": 1, "sensitivity": 1}) for i, p in enumerate(parents)], list(labels))
    up = {labels[i + 1]: labels[p] for i, p in enumerate(parents)}

    def chain(a):
        out = [a]
        while out[-1] in up:
            out.append(up[out[-1]])
        return out

    for a in labels:
        for b in labels:
            if a != b:
                ca, cb = chain(a), chain(b)
                meet = next(x for x in ca if x in cb)
                path = ca[:ca.index(meet)] + cb[:cb.index(meet) + 1][::-1]
                require(g.distance_nodes(a, b) == len(path) - 1, f"distance of {a} and {b} is {g.distance_nodes(a, b)}, expected {len(path) - 1}")
                neg = sum(x < 0 for x in path)
                want = 2 * neg - 1 + len(path) - neg - 1
                got = g.distance_nodes_pi_pulses_fixed_ancilla(a, b)
                require(got == want, f"pulses between {a} and {b}: {got}, expected {want}")
    return any(x < 0 for x in labels) and len(labels) > 2, f"n{len(labels)}"


SUBS = [
    Sub("ancilla", ancilla_case(), check_ancilla, 150, 2000, "trees of levels with ancillas; non-trivial: at least three levels and an ancilla"),
    Sub("queries", queries_case(), check_queries, 300, 20000, "histories of level exchanges and all queries; non-trivial: several exchanges"),
    Sub("route", route_case(), check_route, 400, 20000, "routing two levels; non-trivial: pulses were needed"),
    Sub("cost", cost_case(), check_cost, 300, 10000, "cost of a rotation; non-trivial: a level outside the initial ones"),
]
