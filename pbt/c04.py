"""C04: circuit bookkeeping under random call histories, against a small model."""
from __future__ import annotations
import copy as pycopy
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require


def norm_params(p):
    if p is None:
        return None
    if isinstance(p, np.ndarray):
        return ("array", p.shape, np.round(p, 12).tobytes())
    return tuple(float(x) if not isinstance(x, str) else x for x in p)


def describe(g):
    """What a gate of the library is, as seen through its public attributes."""
    t = g.target_qudits
    ctl = g.control_info["controls"]
    return (g.qasm_tag, tuple(t) if isinstance(t, (list, tuple)) else (t,),
            None if ctl is None else (tuple(ctl.indices), tuple(ctl.ctrl_states)), bool(g.dagger))


TAG = {"r": "rxy", "cu_one": "cuone", "cu_two": "cutwo", "cu_multi": "cumulti", "noisez": "virtrz"}


def expected(spec):
    c = spec.get("c")
    return (TAG.get(spec["g"], spec["g"]), tuple(spec["t"]), None if not c else (tuple(c[0]), tuple(c[1])), bool(spec.get("dag")))


class Model:
    def __init__(self):
        self.regs, self.cregs, self.gates, self.mappings = [], [], [], None

    @property
    def dims(self):
        return [d for _, ds in self.regs for d in ds]

    def clone(self):
        return pycopy.deepcopy(self)


def make_sequence(circ, specs):
    """Gate objects that are not part of any live circuit."""
    scratch = circ.copy()
    scratch.set_instructions([])
    return [gen.add(scratch, s) for s in specs]


@st.composite
def history(draw):
    ops = []
    m = [Model()]
    kind = draw(st.sampled_from(["empty", "dims", "none", "reg"]))
    ds = list(draw(gen.dims_list(1, 3, 2, 5, 60)))
    ops.append(["new", kind, ds])
    if kind == "dims":
        m[0].regs.append(("q", ds))
    elif kind == "none":
        m[0].regs.append(("q", [2] * len(ds)))
    elif kind == "reg":
        m[0].regs.append(("r0", ds))
    fresh = 0
    n = draw(st.integers(1, 16))
    for _ in range(n):
        i = draw(st.integers(0, len(m) - 1))
        mi = m[i]
        ks = ["reg", "creg", "copy", "dup", "cdup", "map"]
        if mi.dims:
            ks += ["gate"] * 6 + ["replace", "set", "dagctl"]
        if draw(st.integers(0, 12)) == 0:
            ks = ["reset"]
        k = draw(st.sampled_from(ks))
        small = dict(max_multi=2)
        if k == "reg":
            if len(mi.dims) >= 6:
                continue
            fresh += 1
            ds = list(draw(gen.dims_list(1, 2, 2, 5, 20)))
            default = draw(st.integers(0, 3)) == 0
            ds = [2] * len(ds) if default else ds
            ops.append(["reg", i, f"n{fresh}", ds, default]); mi.regs.append((f"n{fresh}", ds))
        elif k == "creg":
            fresh += 1
            sz = draw(st.integers(1, 3) if draw(st.integers(0, 2)) else st.integers(4, 70))
            ops.append(["creg", i, f"c{fresh}", sz]); mi.cregs.append((f"c{fresh}", sz))
        elif k == "dup":
            if not mi.regs:
                continue
            ops.append(["dup", i, draw(st.sampled_from([r[0] for r in mi.regs]))])
        elif k == "cdup":
            if not mi.cregs:
                continue
            ops.append(["cdup", i, draw(st.sampled_from([r[0] for r in mi.cregs]))])
        elif k == "gate":
            s = draw(gen.gate(mi.dims, **small))
            ops.append(["gate", i, s]); mi.gates.append(s)
        elif k == "dagctl":
            if not mi.gates:
                continue
            j = draw(st.integers(0, len(mi.gates) - 1))
            ops.append(["dag", i, j]); mi.gates[j] = dict(mi.gates[j], dag=not mi.gates[j].get("dag"))
        elif k == "replace":
            if not mi.gates:
                continue
            j = draw(st.integers(-len(mi.gates), len(mi.gates) - 1))
            seq = draw(gen.gates(mi.dims, 0, 3, **small))
            ops.append(["replace", i, j, seq])
            j %= len(mi.gates)
            mi.gates[j:j + 1] = seq
        elif k == "set":
            seq = draw(gen.gates(mi.dims, 0, 3, **small))
            ops.append(["set", i, seq]); mi.gates = list(seq)
        elif k == "copy":
            if len(m) >= 4:
                continue
            ops.append(["copy", i]); m.append(mi.clone())
        elif k == "map":
            mp = [list(draw(st.permutations(range(d)))) for d in mi.dims]
            ops.append(["map", i, mp]); mi.mappings = mp
        elif k == "reset":
            ops.append(["reset", i]); m[i] = Model()
    return {"ops": ops}


def compare(circ, m, what):
    dims = m.dims
    require(circ.num_qudits == len(dims), f"{what}: num_qudits is {circ.num_qudits}, expected {len(dims)}")
    require(list(circ.dimensions) == dims, f"{what}: dimensions are {circ.dimensions}, expected {dims}")
    sm, inv, line = {}, {}, 0
    for name, ds in m.regs:
        for j, d in enumerate(ds):
            sm[name, j] = (line, d); inv[line] = (name, j); line += 1
    require(dict(circ.sitemap) == sm, f"{what}: sitemap is {circ.sitemap}, expected {sm}")
    require(dict(circ.inverse_sitemap) == inv, f"{what}: inverse sitemap is {circ.inverse_sitemap}")
    csm, cinv, line = {}, {}, 0
    for name, n in m.cregs:
        for j in range(n):
            csm[name, j] = (line,); cinv[line] = (name, j); line += 1
    require({k: tuple(v) for k, v in circ.classic_site_map.items()} == csm, f"{what}: classic site map is {circ.classic_site_map}")
    require(dict(circ.cl_inverse_sitemap) == cinv and circ.num_cl == line, f"{what}: classical lines wrong ({circ.num_cl})")
    require([(r.label, list(r.dimensions), r.size) for r in circ.quantum_registers] == [(a, list(b), len(b)) for a, b in m.regs], f"{what}: quantum registers wrong")
    require([(r.label, r.size) for r in circ.classic_registers] == list(m.cregs), f"{what}: classic registers wrong")
    for r in circ.quantum_registers:
        n = r.size
        lines = [sm[r.label, j][0] for j in range(n)]
        require([r[j] for j in range(n)] == lines, f"{what}: register {r.label} indexes lines {[r[j] for j in range(n)]}, expected {lines}")
        require(list(r[0:n]) == lines and list(r[:]) == lines and list(r[1:n]) == lines[1:] and list(r[1:]) == lines[1:] and list(r[:1]) == lines[:1] and list(r[::-1]) == lines[::-1], f"{what}: slices of register {r.label} wrong")
    for r in circ.classic_registers:
        lines = [csm[r.label, j][0] for j in range(r.size)]
        require([r[j] for j in range(r.size)] == lines and list(r[:]) == lines and list(r[0:r.size]) == lines and list(r[1:]) == lines[1:] and list(r[::-1]) == lines[::-1], f"{what}: classic register {r.label} wrong")
    require(circ.number_gates == len(m.gates), f"{what}: number_gates is {circ.number_gates}, expected {len(m.gates)}")
    got, want = [describe(g) for g in circ.instructions], [expected(s) for s in m.gates]
    require(got == want, f"{what}: instructions are {got}, expected {want}")
    require(circ.mappings == m.mappings, f"{what}: mappings are {circ.mappings}")


def check(case):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    from mqt.qudits.quantum_circuit.components import ClassicRegister
    circs, models = [], []
    kinds = []
    for op in case["ops"]:
        k = op[0]
        kinds.append(k)
        if k == "new":
            m, ds = Model(), list(op[2])
            given = list(ds)
            if op[1] == "empty":
                c = QuantumCircuit()
            elif op[1] == "dims":
                c = QuantumCircuit(len(ds), given, 0); m.regs.append(("q", ds))
            elif op[1] == "none":
                c = QuantumCircuit(len(ds), None, 0); m.regs.append(("q", [2] * len(ds)))
            else:
                c = QuantumCircuit(QuantumRegister("r0", len(ds), given)); m.regs.append(("r0", ds))
            given.append(7); given[0] = 9     # the caller's own list is the caller's business
            circs.append(c); models.append(m)
        else:
            i = op[1]
            c, m = circs[i], models[i]
            if k == "reg":
                given = None if op[4] else list(op[3])
                q = QuantumRegister(op[2], len(op[3]), given)
                m.regs.append((op[2], op[3])); c.append(q)
                base = len(m.dims) - len(op[3])
                require([q[j] for j in range(q.size)] == [base + j for j in range(q.size)], "the register handed in does not know its lines")
            elif k == "creg":
                c.append_classic(ClassicRegister(op[2], op[3])); m.cregs.append((op[2], op[3]))
            elif k == "dup":
                try:
                    c.append(QuantumRegister(op[2], 1, [3]))
                except Exception:  # noqa: BLE001
                    pass
                else:
                    require(False, "a second register of the same name was accepted")
            elif k == "cdup":
                try:
                    c.append_classic(ClassicRegister(op[2], 2))
                except Exception:  # noqa: BLE001
                    pass
                else:
                    require(False, "a second classic register of the same name was accepted")
            elif k == "gate":
                before = len(c.instructions)
                g = gen.add(c, op[2]); m.gates.append(op[2])
                require(len(c.instructions) == before + 1 and c.instructions[-1] is g, "the gate returned is not the one appended")
            elif k == "dag":
                c.instructions[op[2]].dag(); m.gates[op[2]] = dict(m.gates[op[2]], dag=not m.gates[op[2]].get("dag"))
            elif k == "replace":
                c.replace_gate(op[2], make_sequence(c, op[3]))
                j = op[2] % len(m.gates)
                m.gates[j:j + 1] = op[3]
            elif k == "set":
                seq = make_sequence(c, op[2])
                r = c.set_instructions(seq); m.gates = list(op[2])
                require(r is c, "set_instructions must return the circuit")
                seq.append("not a gate")      # the circuit keeps its own list
            elif k == "copy":
                circs.append(c.copy()); models.append(m.clone())
                a, b = circs[-1], c
                require(all(x is not y for x, y in zip(a.instructions, b.instructions)), "copied circuit shares its gates")
                require(all(x.parent_circuit is a for x, y in zip(a.instructions, b.instructions) if y.parent_circuit is b), "gates of a copy still belong to the original circuit")
            elif k == "map":
                r = c.set_mapping([list(x) for x in op[2]]); m.mappings = op[2]
                require(r is c, "set_mapping must return the circuit")
            elif k == "reset":
                c.reset(); models[i] = Model()
        for n, (c, m) in enumerate(zip(circs, models)):
            compare(c, m, f"after {op[:2]} (circuit {n})")
    # the gates still act as requested
    for c, m in zip(circs, models):
        if m.gates and int(np.prod(m.dims)) <= 150 and c.instructions[-1].parent_circuit is c:
            g, s = c.instructions[-1], m.gates[-1]
            if max(s["t"] + (s["c"][0] if s["c"] else [])) < len(m.dims):
                require(gen.close(np.array(g.to_matrix(identities=2)), ref.operator(s, m.dims), 1e-9), "last gate does not act on the register as requested")
    nt = len(case["ops"]) >= 4 and len(set(kinds)) >= 3
    return nt, f"{len(circs)} circuits, {min(len(case['ops']) // 4 * 4, 16)}+ ops"


@st.composite
def wrong_index(draw):
    dims = list(draw(gen.dims_list(1, 2, 2, 3, 9)))
    gs = draw(gen.gates(dims, 0, 4, max_multi=2))
    k = draw(st.integers(0, 3))
    return {"dims": dims, "gates": gs, "idx": draw(st.sampled_from([len(gs) + k, -len(gs) - 1 - k])), "seq": draw(gen.gates(dims, 0, 2, max_multi=2))}


def check_wrong_index(case):
    c = gen.build(case["dims"], case["gates"])
    seq = make_sequence(c, case["seq"])
    try:
        c.replace_gate(case["idx"], seq)
    except Exception:  # noqa: BLE001
        pass
    require(c.number_gates == len(c.instructions), f"gate count {c.number_gates} differs from the {len(c.instructions)} gates of the circuit")
    require([describe(g) for g in c.instructions] == [expected(s) for s in case["gates"]], "replacing a gate that does not exist changed the circuit")
    return True, "idx"


SUBS = [
    Sub("history", history(), check, 500, 8000, "call histories on up to four circuits, compared with the model after every call; non-trivial: at least 4 calls of 3 kinds"),
    Sub("wrong_index", wrong_index(), check_wrong_index, 60, 400, "replacement at an index that does not exist"),
]
