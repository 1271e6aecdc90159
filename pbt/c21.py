"""C21: the search tree of the adaptive decomposition."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .core import Slow, Sub, require, soft_limit


@st.composite
def tree_case(draw, n_max=25):
    """A history of calls: add nodes under any node, mark leaves as successful, ask questions in between."""
    n = draw(st.integers(1, n_max))
    shape = draw(st.sampled_from(["any", "any", "deep", "wide"]))
    keys = list(draw(st.permutations(range(n)))) if draw(st.booleans()) else list(range(n))
    costs = st.one_of(st.sampled_from([0.0, 0.5, 1.0]), st.floats(0, 10))
    ops, done, parents, kids = [], set(), {}, {}
    for k, key in enumerate(keys):
        if k == 0:
            par = None
        else:
            cand = [x for x in keys[:k] if x not in done]
            if not cand:
                break
            par = cand[-1] if shape == "deep" and draw(st.integers(0, 5)) else cand[0] if shape == "wide" and draw(st.integers(0, 3)) else draw(st.sampled_from(cand))
        ops.append(["add", key, par, draw(costs), draw(costs)])
        kids.setdefault(par, []).append(key)
        parents[key] = par
        r = draw(st.integers(0, 11))
        if r == 0:
            ops.append(["ask"])
        elif r == 1:
            ops.append(["bad", n + draw(st.integers(0, 3))])
        if draw(st.integers(0, 3)) == 0:
            leaves = [x for x in parents if x not in kids and x not in done]
            if leaves:
                leaf = draw(st.sampled_from(leaves))
                done.add(leaf)
                ops.append(["finish", leaf])
    ops.append(["ask"])
    return {"ops": ops}


class Ref:
    def __init__(self):
        self.parent, self.kids, self.cost, self.done = {}, {}, {}, set()

    def under(self, k):
        return [k] + [y for x in self.kids[k] for y in self.under(x)]

    def depth(self, k):
        return max((1 + self.depth(x) for x in self.kids[k]), default=0)

    def path(self, k, top):
        out = [k]
        while out[0] != top:
            out.insert(0, self.parent[out[0]])
        return out


def ask(t, m, full):
    from mqt.qudits.exceptions import NodeNotFoundError
    n = len(m.cost)
    require(t.is_empty() == (n == 0), f"a tree of {n} nodes says it is {'empty' if t.is_empty() else 'not empty'}")
    require(t.size == n, f"a tree of {n} nodes has size {t.size}")
    if n == 0:
        return
    require(t.total_size == n and t.total_size == n, f"the total size of a tree of {n} nodes is {t.total_size}")
    require(t.size == n and not t.is_empty(), "asking for the total size changed the size")
    for k in m.cost:
        node = t.find_node(t.root, k)
        require(node is not None and node.key == k and node.parent_key == m.parent[k], f"looking up node {k} gives {node}")
        require((node.current_cost, node.current_decomp_cost) == m.cost[k], f"node {k} has other costs than it was added with")
        require([c.key for c in node.children] == m.kids[k] and node.size == len(m.kids[k]), f"node {k} has children {[c.key for c in node.children]}, expected {m.kids[k]}")
        require(t.depth(k) == m.depth(k) == t.max_depth(node), f"depth below node {k} is {t.depth(k)}, expected {m.depth(k)}")
        require(t.size_refresh(node) == len(m.under(k)) - 1, f"{t.size_refresh(node)} nodes below node {k}, expected {len(m.under(k)) - 1}")
        for x in list(m.cost)[:6]:      # lookups below a node find exactly its descendants
            hit = t.find_node(node, x)
            require((hit is not None and hit.key == x) == (x in m.under(k)), f"node {x} is {'not ' if hit is None else ''}found below node {k}")
    missing = max(m.cost) + 1
    require(t.find_node(t.root, missing) is None, "a node that was never added is found")
    try:
        t.depth(missing)
        require(False, "the depth of a node that was never added is reported")
    except NodeNotFoundError:
        pass
    tops = list(m.cost) if full else [t.root.key]
    for top in tops:
        node = t.find_node(t.root, top)
        leaves = [k for k in m.under(top) if k in m.done]
        seq, cost, graph = t.retrieve_decomposition(node)
        require(t.found_checker(node) == bool(leaves), f"success below node {top} is reported as {t.found_checker(node)}")
        if not leaves:
            require(list(seq) == [] and all(np.isinf(c) for c in cost), "a decomposition is reported although no branch succeeded")
            continue
        path = [x.key for x in seq]
        require(path and path[-1] in leaves and path == m.path(path[-1], top), f"the decomposition {path} is no path from node {top} to a success")
        require(tuple(cost) == m.cost[path[-1]], f"cost {cost} is not that of the last node {m.cost[path[-1]]}")
        best = min(m.cost[k][0] for k in leaves)
        require(cost[0] == best, f"the decomposition costs {cost[0]}, a branch of cost {best} succeeded")
        require(graph == f"graph{path[-1]}", "the level graph is not that of the last node")
    str(t)
    for k in m.cost:    # success marks are kept at the nodes of successful branches only
        require(t.find_node(t.root, k).finished is (k in m.done) or m.kids[k], f"asking changed the success of leaf {k}")


def check_tree(case):
    from mqt.qudits.core import NAryTree
    from mqt.qudits.exceptions import NodeNotFoundError
    t, m = NAryTree(), Ref()
    ask(t, m, False)
    for op in case["ops"]:
        if op[0] == "add":
            _, k, par, c, dc = op
            t.add(k, f"rot{k}", f"u{k}", f"graph{k}", c, dc, (9.0, 9.0), [f"pi{k}"], par)
            m.parent[k], m.kids[k], m.cost[k] = par, [], (c, dc)
            if par is not None:
                m.kids[par].append(k)
            node = t.find_node(t.root, k)
            require((node.rotation, node.u_of_level, node.graph, node.PI_PULSES, node.max_cost, node.finished) == (f"rot{k}", f"u{k}", f"graph{k}", [f"pi{k}"], (9.0, 9.0), False), "a node holds other data than it was added with")
        elif op[0] == "finish":
            t.find_node(t.root, op[1]).finished = True
            m.done.add(op[1])
        elif op[0] == "bad":
            before = str(t), t.size
            try:
                t.add(99, "r", "u", "g", 0.0, 0.0, (0, 0), [], op[1] + 100)
                require(False, "a node was added below one that does not exist")
            except NodeNotFoundError:
                pass
            require((str(t), t.size) == before, "a refused addition changed the tree")
        else:
            ask(t, m, True)
    return len(m.done) > 1, f"{min(len(m.done), 3)} successes"


@st.composite
def search_case(draw):
    d = draw(st.integers(2, 4))
    return {"u": draw(gen.unitary_spec(["block", "givens", "perm", "pperm", "diag", "haar", "fourier"] if d < 4 else ["block", "givens", "perm", "pperm", "diag"])),
            "graph": draw(ph.graph_spec(d)), "slack": draw(st.sampled_from([1.0, 1.0, 1.2, 2.0]))}


def check_search(case):
    """The tree left behind by a real search, walked independently of the queries of the tree."""
    from mqt.qudits.compiler.onedit.mapping_aware_transpilation import PhyAdaptiveDecomposition, PhyQrDecomp
    d = case["graph"]["d"]
    c = gen.new_circuit([d])
    u = ref.unitary(case["u"], d)
    gate = c.cu_one(0, u)
    g = ph.make(case["graph"], 0, c)
    try:
        with soft_limit(4):
            _, a, b = PhyQrDecomp(gate, g).execute()
            limit = (a * case["slack"], b * case["slack"])
            search = PhyAdaptiveDecomposition(gate, g, limit, d, z_prop=True)
            _, cost, _ = search.execute()
    except Slow:
        return False, "undecided"
    t = search.TREE
    nodes, todo = [], [(t.root, None)]
    while todo:
        x, parent = todo.pop()
        nodes.append((x, parent))
        todo += [(y, x) for y in x.children]
    require(len({x.key for x, _ in nodes}) == len(nodes), "two nodes of a search share their key")
    require(t.total_size == len(nodes) == t.size, f"the tree has {len(nodes)} nodes, it reports {t.total_size}")
    leaves = []
    for x, parent in nodes:
        if parent is not None:
            require(x.parent_key == parent.key, "a node names another parent")
            require(x.current_cost >= parent.current_cost - 1e-15 and x.current_decomp_cost >= parent.current_decomp_cost - 1e-15, "costs fall along a branch")
            require(x.current_decomp_cost <= limit[1] + 1e-9, "a branch exceeds the cost limit")
        if not x.children and x.finished:
            off = np.abs(x.u_of_level - np.diag(np.diag(x.u_of_level)))
            require(np.max(off) < 2e-4, "a branch counts as successful although its matrix is not diagonal")
            leaves.append(x)
    require(bool(leaves), "the search found nothing although the QR sequence is within the limit")
    best = min(x.current_cost for x in leaves)
    require(abs(cost[0] - best) < 1e-15, f"the search reports cost {cost[0]}, the cheapest successful branch costs {best}")
    seq, _, graph = t.retrieve_decomposition(t.root)
    require(seq[0] is t.root and all(y in x.children for x, y in zip(seq, seq[1:])) and seq[-1] in leaves and graph is seq[-1].graph, "the decomposition is no successful branch of the tree")
    return len(nodes) > 2, f"d{d}"


SUBS = [
    Sub("history", tree_case(), check_tree, 600, 20000, "histories of additions, successes and queries; non-trivial: several successful branches"),
    Sub("large", tree_case(120), check_tree, 20, 500, "the same with up to 120 nodes; non-trivial: several successful branches"),
    Sub("search", search_case(), check_search, 400, 3000, "trees of real searches; non-trivial: more than two nodes"),
]
