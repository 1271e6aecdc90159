"""C15: compiling circuits for the provided devices."""
from __future__ import annotations
import itertools
import numpy as np
from hypothesis import strategies as st
from . import gen, physical as ph, ref
from .c16 import lines
from .c17 import phase_distance, same_snapshot, snapshot
from .core import Slow, Sub, require, soft_limit

DEVICES = {"faketraps2trits": [3, 3], "innsbruck01": [3, 3], "faketraps2six": [6, 6], "faketraps3six": [6, 6, 6]}
LOCAL = ["r", "rz", "virtrz", "x", "z", "h", "rh", "s", "pm", "cu_one"]
PHYS_LISTS = [["PhyLocQRPass", "PhyEntQRCEXPass"], ["LocQRPass", "PhyEntQRCEXPass"], ["PhyEntQRCEXPass", "PhyLocQRPass"]]
ADA_LISTS = [["PhyLocAdaPass", "PhyEntQRCEXPass"], ["LocAdaPass", "PhyEntQRCEXPass"]]
LOG_LISTS = [["LogLocQRPass"], ["LogEntQRCEXPass"], ["LogLocQRPass", "LogEntQRCEXPass"], ["NaiveLocResynthOptPass"], ["ZPropagationOptPass"], [],
             ["LogEntQRCEXPass", "NaiveLocResynthOptPass"], ["LogLocQRPass", "NaiveLocResynthOptPass"], ["LogLocQRPass", "LogEntQRCEXPass", "ZPropagationOptPass"], ["LogLocQRPass", "ZPropagationOptPass"], ["NaiveLocResynthOptPass", "LogLocQRPass"]]


def device(name):
    from mqt.qudits.simulation import MQTQuditProvider
    return MQTQuditProvider().get_backend(name)


def own_device(specs):
    """A device that is described by its level structures only, as users define theirs."""
    from mqt.qudits.simulation import MQTQuditProvider
    base = type(device("faketraps2trits"))

    class Own(base):
        def __init__(self, provider):
            super().__init__(provider)
            self._energy_level_graphs = [ph.make(s, i) for i, s in enumerate(specs)]

        @property
        def energy_level_graphs(self):
            return self._energy_level_graphs

    return Own(MQTQuditProvider())


def backend_of(case):
    return own_device(case["graphs"]) if "graphs" in case else device(case["device"])


@st.composite
def case_(draw, levels, names=("faketraps2trits", "innsbruck01"), two=True, local=tuple(LOCAL), nmax=6, dense=True):
    name = draw(st.sampled_from(list(names)))
    full = DEVICES[name]
    n = draw(st.sampled_from([len(full), len(full), len(full), 1]))
    dims = full[:n]
    gs = []
    for _ in range(draw(st.sampled_from([*range(nmax + 1), 3, 4]))):
        if two and n > 1 and draw(st.integers(0, 4)) < 2:
            kinds = draw(st.sampled_from([["cx"], ["csum", "ls", "ms"], ["cu_two"]] if dense else [["cx"]]))
            gs.append(draw(gen.gate(dims, kinds)))
        else:
            gs.append(draw(gen.gate(dims, list(local), max_ctl=1, p_ctl=0.15 if two and dense else 0)))
    return {"device": name, "dims": dims, "gates": gs, "level": draw(st.sampled_from(levels)), "same": draw(st.booleans()), "method": draw(st.booleans())}


def compile_(case, backend, c):
    from mqt.qudits.compiler import QuditCompiler
    level = case["level"]
    if level == "direct":
        from mqt.qudits.compiler.onedit import PhyLocQRPass
        from mqt.qudits.compiler.twodit.entanglement_qr.phy_ent_qr_cex_decomp import PhyEntQRCEXPass
        mid = PhyLocQRPass(backend).transpile(c)
        out = PhyEntQRCEXPass(backend).transpile(mid)
        out.set_mapping([ph.placement(g) for g in backend.energy_level_graphs])
        return out
    if isinstance(level, list):
        return QuditCompiler().compile(backend, c, level)
    if case["method"] and level in ("O0", "O1") and not case["same"]:
        return getattr(c, "compile" + level)(case["device"])
    return getattr(QuditCompiler(), "compile_" + level)(backend, c)


def logical(state, dims, mappings):
    """Undo the reported placement: the logical amplitude of j sits at the physical level mappings[j]."""
    t = state.reshape(dims)
    for q, m in enumerate(mappings or []):
        require(sorted(m) == list(range(dims[q])), f"the reported placement {m} of qudit {q} is no permutation of its levels")
        t = np.take(t, m, axis=q)
    return t.reshape(-1)


def check_native(out, edges):
    for op in out.instructions:
        ls = lines(op)
        if len(ls) == 1:
            ph.check_pulses([op], ls[0], edges[ls[0]])
        else:
            require(op.qasm_tag == "cx" and op.control_info["controls"] is None, f"the compiled circuit contains {op.qasm_tag} on {ls}, which the device does not offer")


def check_applied(names, out):
    """Every pass that is named does its part: what it removes does not reach the result."""
    ops = [(lines(op), op) for op in out.instructions]
    if any("Ent" in n for n in names):
        for ls, op in ops:
            require(len(ls) != 2 or op.qasm_tag == "cx" and op.control_info["controls"] is None, f"{op.qasm_tag} on {ls} is left by the pass list {names}")
    loc = [k for k, n in enumerate(names) if "LocQR" in n or "LocAda" in n]
    if loc and not any(n in ("LogEntQRCEXPass", "NaiveLocResynthOptPass") for n in names[loc[-1] + 1:]):
        for ls, op in ops:
            require(len(ls) != 1 or op.qasm_tag in ("rxy", "virtrz") or "LogEntQRCEXPass" in names, f"{op.qasm_tag} on {ls} is left by the pass list {names}")
    if names and names[-1] == "NaiveLocResynthOptPass":
        last = {}
        for ls, op in ops:
            for q in ls:
                require(not (len(ls) == 1 and last.get(q) == 1), f"two neighbouring local gates on qudit {q} are left by the pass list {names}")
                last[q] = len(ls)


def graph_facts(g):
    return ph.placement(g), ph.physical_edges(g), ph.phases(g).tolist()


def check(case):
    dims, level = case["dims"], case["level"]
    phys = level in ("O0", "O1", "O2", "direct") or any(p.startswith(("Phy", "LocQR", "LocAda")) for p in level)
    c = gen.build(dims, case["gates"])
    before = snapshot(c)
    want = ref.circuit_state(case["gates"], dims).reshape(-1)
    backend = backend_of(case)
    facts = [graph_facts(g) for g in backend_of(case).energy_level_graphs]
    tol = 1e-3 * max(1, len(case["gates"]))
    for turn in ("compiled", "compiled again"):
        if turn == "compiled again" and not case["same"]:
            backend = backend_of(case)
        try:
            with soft_limit(12):
                out = compile_(case, backend, c)
        except Slow:
            return False, "undecided"
        require(same_snapshot(before, snapshot(c)) and c.mappings is None, f"{turn}: the circuit that was given changed")
        require(list(out.dimensions) == dims and out.number_gates == len(out.instructions), f"{turn}: bookkeeping of the new circuit is wrong")
        if phys:
            require(out.mappings is not None and len(out.mappings) == len(dims), f"{turn}: reported placement is {out.mappings}")
            check_native(out, [f[1] for f in facts])
        state = np.zeros((int(np.prod(dims)), 1), dtype=complex)
        # the ground state of the device's levels: where its placement puts the logical ones at the beginning
        at = [f[0][0] for f in facts[:len(dims)]] if "graphs" in case else [0] * len(dims)
        state[np.ravel_multi_index(at, dims)] = 1
        for g in out.instructions:
            state = ref.apply_object(state, dims, g)
        if isinstance(level, list):
            check_applied(level, out)
        got = logical(state.reshape(-1), dims, out.mappings)
        dist = phase_distance(got, want)
        require(dist < tol, f"{turn}: the state differs by {dist:.3g}")
        if len(out.instructions) <= 60 and not any(at):
            from mqt.qudits.visualisation.plot_information import remap_result
            sim = np.array(out.simulate()).reshape(-1)
            require(gen.close(sim, state.reshape(-1), 1e-7), f"{turn}: simulating the compiled circuit gives another state than its gates")
            require(gen.close(np.array(remap_result(sim, out)).reshape(-1), got, 1e-7), f"{turn}: remap_result does not undo the reported placement")
    ent = any(len(lines(g)) > 1 for g in c.instructions)
    return len(case["gates"]) > 1, f"{case['device']}/{level if isinstance(level, str) else 'list'}/{'ent' if ent else 'local'}"


@st.composite
def smaller_case(draw):
    """Registers with fewer levels than the device: they may be refused, but never compiled into something else."""
    case = draw(case_(["O0", "O1"], tuple(DEVICES), two=False))
    full = DEVICES[case["device"]]
    dims = [draw(st.integers(2, d)) for d in full]
    case["dims"] = dims
    case["gates"] = [draw(gen.gate(dims, [*LOCAL, "cx", "csum"] if max(dims) < 4 else [*LOCAL, "cx"], controls=False)) for _ in range(draw(st.integers(1, 4)))]
    return case


def check_smaller(case):
    from .core import Violation
    try:
        interesting, label = check(case)
    except Violation:
        raise
    except Exception as e:      # noqa: BLE001  refused
        return False, f"refused ({type(e).__name__})"
    return interesting and case["dims"] != DEVICES[case["device"]], label


@st.composite
def cex_case(draw):
    """Superpositions on every qudit, then controlled exchanges of all levels and phases with local gates between them."""
    name = draw(st.sampled_from([*DEVICES, "faketraps2trits"]))
    dims = DEVICES[name]
    loc = ["h", "cu_one"] if max(dims) < 6 else ["h"]
    gs = [dict(draw(gen.gate([d], loc, controls=False)), t=[q]) for q, d in enumerate(dims)]
    for _ in range(draw(st.integers(1, 3))):
        gs.append(draw(gen.gate(dims, ["cx"])))
        gs += [draw(gen.gate(dims, ["r", "rz", "virtrz"], controls=False)) for _ in range(draw(st.integers(0, 1)))]
    gs.append(dict(draw(gen.gate(dims, ["h"], controls=False))))
    levels = ["O0", "O1", *PHYS_LISTS]
    return {"device": name, "dims": dims, "gates": gs, "level": draw(st.sampled_from(levels + (["O2", "O2"] if max(dims) < 6 else []))), "same": draw(st.booleans()), "method": draw(st.booleans())}




@st.composite
def structure_case(draw):
    """Devices with arbitrary connected level structures and placements."""
    dims = draw(gen.dims_list(1, 3, 2, 4, 27))
    level = draw(st.sampled_from(["O0", "O1", "O2", "direct", *PHYS_LISTS, *ADA_LISTS, *LOCAL_LISTS]))
    two = len(dims) > 1 and level not in LOCAL_LISTS
    ada = level == "O2" or level in ADA_LISTS
    gs = []
    for _ in range(draw(st.integers(1, 5))):
        if two and draw(st.integers(0, 2)) == 0:
            gs.append(draw(gen.gate(dims, draw(st.sampled_from([["cx"], ["cx"], ["csum", "ls", "ms"], ["cu_two"]] if max(dims) < 4 else [["cx"]])), controls=False)))
        else:
            gs.append(draw(gen.gate(dims, ["r", "rz", "virtrz", "x", "z", "pm"] if ada and max(dims) > 3 else LOCAL, controls=False)))
    return {"device": "own", "dims": dims, "gates": gs, "level": level, "same": draw(st.booleans()), "method": False,
            "graphs": [draw(ph.graph_spec(d)) for d in dims]}


LOCAL_LISTS = [["PhyLocQRPass"], ["LocQRPass"], ["PhyLocAdaPass"], ["LocAdaPass"], ["NaiveLocResynthOptPass", "PhyLocQRPass"]]


SUBS = [
    Sub("local_lists", case_(LOCAL_LISTS, ("faketraps2trits", "faketraps2trits", "innsbruck01"), two=False), check, 100, 1500, "circuits of local gates and lists with one local pass"),
    Sub("cex", cex_case(), check, 150, 2500, "controlled exchanges of any levels with any phase on superpositions; non-trivial: at least two gates"),
    Sub("levels", case_(["O0", "O1", *PHYS_LISTS]), check, 60, 1500, "circuits with entangling and local gates on three-level devices; non-trivial: at least two gates"),
    Sub("adaptive", case_(["O2", "O2", *ADA_LISTS], nmax=5), check, 60, 1500, "as before, with adaptive local compilation"),
    Sub("six", case_(["O0", "O1", *PHYS_LISTS], ("faketraps2six", "faketraps3six"), dense=False), check, 120, 2000, "local gates and controlled exchanges on six-level devices"),
    Sub("six_ada", case_(["O2", *ADA_LISTS], ("faketraps2six", "faketraps3six"), local=("r", "r", "rz", "virtrz"), nmax=4, dense=False), check, 150, 2000, "rotations and controlled exchanges on six-level devices, adaptive"),
    Sub("structures", structure_case(), check, 200, 4000, "devices with any connected level structure of up to four levels and any placement; non-trivial: at least two gates"),
    Sub("lists", case_(LOG_LISTS, nmax=5), check, 60, 1500, "pass lists without placement"),
    Sub("smaller", smaller_case(), check_smaller, 120, 2000, "registers with fewer levels than the device; non-trivial: not refused, at least two gates"),
]
