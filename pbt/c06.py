"""C06: export to program text and import again."""
from __future__ import annotations
import os, re, tempfile, pathlib
import numpy as np
from hypothesis import strategies as st
from . import env, gen, ref
from .c04 import describe, expected
from .core import Sub, require

TEXT_KINDS = ["x", "z", "h", "s", "r", "rz", "rh", "virtrz", "noisez", "pm", "csum", "cx", "ls", "ms"]
FILE_KINDS = TEXT_KINDS + ["cu_one", "cu_two", "cu_multi", "cu_one", "cu_two", "cu_multi"]
NAMES = ["q", "reg", "a", "b1", "ctl", "x", "pi", "rz", "creg", "meas", "_f", "Field", "cx", "r2d2", "qreg", "s", "e1", "matter"]


@st.composite
def registers(draw, max_q=5, max_total=150):
    shape = draw(st.integers(0, 7))
    if shape == 7:      # levels of two digits
        dims = list(draw(st.permutations([draw(st.integers(11, 14)), *draw(gen.dims_list(1, 2, 2, 3, 9))])))
    elif shape == 6:    # qudit indices of two digits
        dims = [2] * draw(st.integers(10, 13)) + draw(st.sampled_from([[], [3]]))
    else:
        dims = list(draw(gen.dims_list(1, max_q, 2, 6, max_total)))
    k = draw(st.integers(0, min(3, len(dims) - 1)))
    cuts = sorted(draw(st.permutations(range(1, len(dims))))[:k])
    parts = [dims[a:b] for a, b in zip([0, *cuts], [*cuts, len(dims)])]
    names = list(draw(st.permutations(NAMES)))[:len(parts)]
    return [[n, p] for n, p in zip(names, parts)]


def flat(regs):
    return [d for _, ds in regs for d in ds]


@st.composite
def mem_case(draw, kinds=tuple(TEXT_KINDS), dag=False):
    regs = draw(registers())
    gs = draw(gen.gates(flat(regs), 0, 8, kinds=list(kinds), dag=dag, p_ctl=0.5, max_multi=3))
    return {"regs": regs, "gates": gs, "stale": draw(st.booleans())}


def build(regs, gates):
    from mqt.qudits.quantum_circuit import QuantumCircuit, QuantumRegister
    c = QuantumCircuit()
    for n, ds in regs:
        c.append(QuantumRegister(n, len(ds), list(ds)))
    for s in gates:
        gen.add(c, s)
    return c


def fresh(stale):
    from mqt.qudits.quantum_circuit import QuantumCircuit
    if not stale:
        return QuantumCircuit()
    c = QuantumCircuit(2, [3, 2], 0)
    from mqt.qudits.quantum_circuit.components import ClassicRegister
    c.h(0); c.csum([0, 1])
    c.append_classic(ClassicRegister("meas", 2))
    c.set_mapping([[2, 1, 0], [1, 0]])
    return c


def same(c, regs, gates, what):
    dims = flat(regs)
    require([(r.label, list(r.dimensions)) for r in c.quantum_registers] == [(n, list(d)) for n, d in regs],
            f"{what}: registers are {[(r.label, r.dimensions) for r in c.quantum_registers]}, expected {regs}")
    require(list(c.dimensions) == dims and c.num_qudits == len(dims), f"{what}: dimensions {c.dimensions}, expected {dims}")
    require(c.mappings is None, f"{what}: has level mappings {c.mappings} nobody gave it")
    line = 0
    for r in c.quantum_registers:
        for j in range(r.size):
            require(r[j] == line, f"{what}: register {r.label}[{j}] is line {r[j]}, expected {line}")
            line += 1
    got, want = [describe(g) for g in c.instructions], [expected(s) for s in gates]
    require(got == want and c.number_gates == len(gates), f"{what}: gates are {got}, expected {want}")
    for g, s in zip(c.instructions, gates):
        if np.prod(dims) > 300:
            ls = sorted(s["t"])     # the library's matrices index the lines in increasing order (C01)
            m, w = np.asarray(g.__array__()), ref.operator({**s, "t": [ls.index(q) for q in s["t"]], "c": None, "dag": False}, [dims[q] for q in ls])
        else:
            m = np.array(g.to_matrix(identities=2))
            w = ref.operator(s, dims)
        require(gen.close(m, w, 1e-9), f"{what}: {s['g']} acts differently (by {np.max(np.abs(m - w)) if m.shape == w.shape else m.shape})")


def measured(text, regs):
    """The program measures every qudit once, each into a classical bit of its own."""
    found = re.findall(r"measure\s+(\w+)\s*\[(\d+)\]\s*->\s*(\w+)\s*\[(\d+)\]\s*;", text)
    want = sorted((n, j) for n, ds in regs for j in range(len(ds)))
    require(sorted((n, int(j)) for n, j, _, _ in found) == want, f"the program measures {found}, the circuit has the qudits {want}")
    require(len({(a, int(k)) for _, _, a, k in found}) == len(want), f"two qudits are measured into the same classical bit: {found}")


def check_mem(case):
    regs, gates = case["regs"], case["gates"]
    c = build(regs, gates)
    text = c.to_qasm()
    measured(text, regs)
    require(c.to_qasm() == text, "exporting twice gives different text")
    same(c, regs, gates, "exported circuit")
    b = fresh(case["stale"])
    b.from_qasm(text)
    same(b, regs, gates, "imported circuit")
    require(b.to_qasm() == text, "the imported circuit exports to different text")
    return len(gates) > 0 and any(s["p"] or s["c"] or len(s["t"]) > 1 for s in gates), f"{len(regs)} regs, {'ctl' if any(s['c'] for s in gates) else 'noctl'}"


@st.composite
def file_case(draw):
    case = draw(mem_case(tuple(FILE_KINDS)))
    case["dir"] = draw(st.sampled_from(["plain", "with space", "dots.in.name", "deep/er/dir", "-dash", "comma,dir", "[bracket]", "."]))
    case["name"] = draw(st.sampled_from(["prog", "my prog", "a.b", "prog.qasm"]))
    case["twice"] = draw(st.booleans())
    return case


def check_file(case):
    regs, gates = case["regs"], case["gates"]
    c = build(regs, gates)
    cwd = os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        try:
            os.chdir(tmp)
            d = "." if case["dir"] == "." else str(pathlib.Path(tmp) / case["dir"])
            pathlib.Path(d).mkdir(parents=True, exist_ok=True)
            plain = c.to_qasm()
            path = c.save_to_file(case["name"], d) if case["dir"] != "." else c.save_to_file(case["name"])
            if case["twice"]:      # a second export beside the first must not disturb it
                other = build(regs, [dict(s, p={"k": "haar", "s": 17}) if s["g"].startswith("cu_") else s for s in gates])
                other.save_to_file("other", d)
            require(pathlib.Path(path).resolve() == (pathlib.Path(d) / (case["name"] + ".qasm")).resolve() and pathlib.Path(path).is_file(), f"reported path {path} is not the file written")
            same(c, regs, gates, "saved circuit")
            files = sorted(os.listdir(d))
            require(c.to_qasm() == plain and sorted(os.listdir(d)) == files, "after saving, asking for the program text gives another text or writes files")
            b = fresh(case["stale"])
            b.load_from_file(path)
        finally:
            os.chdir(cwd)
    same(b, regs, gates, "loaded circuit")
    return any(s["g"].startswith("cu_") for s in gates), "custom" if any(s["g"].startswith("cu_") for s in gates) else "plain"


@st.composite
def dag_case(draw):
    return draw(mem_case(tuple(TEXT_KINDS), True))


def known_dag(case):
    return "adjoint-dropped" if any(s.get("dag") for s in case["gates"]) else None


SUBS = [
    Sub("memory", mem_case(), check_mem, 350, 8000, "export/import in memory; non-trivial: at least one gate with parameters, controls or two targets"),
    Sub("files", file_case(), check_file, 250, 4000, "save/load; non-trivial: at least one custom matrix stored beside the program"),
    Sub("adjoint", dag_case(), check_mem, 60, 300, "circuits with adjoint gates (those that contain one are a recorded finding)", known_dag),
]
