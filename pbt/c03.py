"""C03: embedding of gates into the register."""
from __future__ import annotations
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .core import Sub, require


@st.composite
def case_(draw):
    dims = draw(gen.dims_list(1, 5, 2, 5, 100))
    spec = draw(gen.gate(dims, p_ctl=0.6, max_ctl=4))
    return {"dims": list(dims), "gate": spec, "post": draw(st.booleans())}


def check(case):
    dims, spec = case["dims"], case["gate"]
    g = gen.add(gen.new_circuit(dims), spec, post_control=case["post"])
    lines = list(spec["t"]) + (spec["c"][0] if spec["c"] else [])
    require(sorted(g.reference_lines) == sorted(lines), f"reference lines {g.reference_lines} are not those of the gate {lines}")
    full = np.array(g.to_matrix(identities=2))
    want = ref.operator(spec, dims)
    require(gen.close(full, want, 1e-9), f"{spec['g']}: operator on the whole register is wrong (shape {full.shape}, expected {want.shape})")
    span = np.array(g.to_matrix(identities=1))
    want = ref.span_operator(spec, dims)
    require(gen.close(span, want, 1e-9), f"{spec['g']}: operator on the span of its lines is wrong (shape {span.shape}, expected {want.shape})")
    own = np.array(g.to_matrix(identities=0))
    if spec["c"]:
        require(gen.close(own, want, 1e-9), f"{spec['g']}: controlled matrix without identities differs from the one on its span")
    # asking for embeddings must not change the gate
    require(sorted(g.reference_lines) == sorted(lines) and gen.close(np.array(g.to_matrix(identities=2)), full, 0.0), "embedding changed the gate")
    gaps = max(lines) - min(lines) + 1 > len(lines)
    lab = f"{'ctl%d' % len(spec['c'][0]) if spec['c'] else 'noctl'}{'/gap' if gaps else ''}{'/single' if len(spec['t']) == 1 else '/multi'}"
    return len(dims) > 1, lab


@st.composite
def wide(draw):
    """Six to eight qudits with up to five controls; or large dimensions."""
    if draw(st.integers(0, 2)) < 2:
        dims = draw(gen.dims_list(6, 8, 2, 4, 400))
    else:
        dims = draw(gen.dims_list(1, 3, 2, 13, 300))
    spec = draw(gen.gate(dims, p_ctl=0.7, max_ctl=5))
    return {"dims": list(dims), "gate": spec, "post": draw(st.booleans())}


SUBS = [Sub("wide", wide(), check, 150, 3000, "six to eight qudits, up to five controls, or dimensions up to 13"),
        Sub("embed", case_(), check, 900, 8000, "gate on a mixed register with controls; non-trivial when there is at least one other qudit")]
