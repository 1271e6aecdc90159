"""C02: adjoints."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require


@st.composite
def case_(draw, large=False):
    dims = draw(st.one_of(gen.dims_list(1, 2, 5, 13, 120), gen.dims_list(5, 6, 2, 3, 150)) if large else gen.dims_list(1, 4, 2, 5, 80))
    spec = draw(gen.gate(dims, p_ctl=0.5, dag=False))
    return {"dims": list(dims), "gate": spec, "post": draw(st.booleans()), "early": draw(st.booleans())}


def check(case):
    dims, spec = case["dims"], case["gate"]
    g = gen.add(gen.new_circuit(dims), spec, post_control=case["post"])
    h = gen.add(gen.new_circuit(dims), spec, post_control=case["post"])
    if case["early"]:
        h.to_matrix(identities=2)  # a cached matrix must not survive taking the adjoint
    d = h.dag()
    require(d.dagger, "adjoint not recorded on the gate")
    for ids in (0, 1, 2):
        a, b = np.array(g.to_matrix(identities=ids)), np.array(d.to_matrix(identities=ids))
        require(a.shape == b.shape and gen.close(b, a.conj().T, 1e-9), f"{spec['g']}: adjoint matrix (identities={ids}) is not the conjugate transpose")
        require(gen.close(a @ b, np.eye(len(a)), 1e-8), f"{spec['g']}: gate times adjoint is not the identity")
    require(sorted(d.reference_lines) == sorted(g.reference_lines), "adjoint acts on other lines")
    e = d.dag()
    require(not e.dagger and gen.close(np.array(e.to_matrix(identities=2)), np.array(g.to_matrix(identities=2)), 1e-9), f"{spec['g']}: the adjoint of the adjoint is not the gate")
    return not gen.close(a, b, 1e-6), spec["g"] + ("/ctl" if spec["c"] else "")


@st.composite
def randu_case(draw):
    dims = draw(gen.dims_list(1, 3, 2, 4, 30))
    t = draw(st.permutations(range(len(dims))))[: draw(st.integers(1, len(dims)))]
    return {"dims": list(dims), "t": list(t)}


def check_randu(case):
    g = gen.new_circuit(case["dims"]).randu(list(case["t"]))
    a = np.array(g.to_matrix())
    b = np.array(g.dag().to_matrix())
    require(gen.close(b, a.conj().T, 1e-9), "adjoint of a random gate is not its inverse")
    return True, "randu"


MISIM = ["csum", "cx", "h", "r", "rz", "rh", "virtrz", "s", "x", "z"]


@st.composite
def echo_case(draw, large=False):
    dims = draw(st.one_of(gen.dims_list(5, 7, 2, 4, 250), gen.dims_list(1, 3, 2, 7, 150)) if large else gen.dims_list(1, 4, 2, 5, 60))
    dd = draw(st.booleans())
    kw = dict(kinds=MISIM, controls=False) if dd else {}
    prep = draw(gen.gates(dims, 1, 4, **kw))
    body = draw(gen.gates(dims, 1, 20 if large else 5, **kw))
    return {"dims": list(dims), "prep": prep, "body": body, "dd": dd}


def check_echo(case):
    """prep, body, adjoint(body) reversed == prep on both engines."""
    from mqt.qudits.simulation import MQTQuditProvider
    dims = case["dims"]
    c = gen.new_circuit(dims)
    for s in case["prep"] + case["body"]:
        gen.add(c, s)
    for s in reversed(case["body"]):
        if s["dag"]:
            gen.add(c, dict(s, dag=False))
        else:
            gen.add(c, dict(s, dag=True))
    be = MQTQuditProvider().get_backend("misim" if case["dd"] else "tnsim")
    sv = np.array(be.run(c).result().get_state_vector()).reshape(-1)
    want = ref.circuit_state(case["prep"], dims)
    require(gen.close(sv, want, 1e-7), f"gates followed by their adjoints do not cancel on {'misim' if case['dd'] else 'tnsim'}: error {np.max(np.abs(sv - want)):.3g}")
    moved = not gen.close(ref.circuit_state(case["prep"] + case["body"], dims), want, 1e-6)
    return moved, "misim" if case["dd"] else "tnsim"


SUBS = [
    Sub("matrix", case_(), check, 700, 8000, "gate with optional controls; non-trivial when the gate is not self-adjoint"),
    Sub("large", case_(True), check, 150, 2000, "dimensions up to 13, or five and six qudits"),
    Sub("long", echo_case(True), check_echo, 150, 2500, "the echo on wide registers, large dimensions, and with up to twenty gates"),
    Sub("randu", randu_case(), check_randu, 30, 200, "random unitary gate"),
    Sub("echo", echo_case(), check_echo, 250, 3000, "prep, body, inverse body on a simulator; non-trivial when the body moves the state"),
]
