"""C07: program text denotes one circuit; malformed text is refused."""
from __future__ import annotations
import math
import numpy as np
from hypothesis import strategies as st
from . import gen, ref
from .c06 import registers, flat, same, fresh, TEXT_KINDS
from .core import Sub, require

TAG = {"r": "rxy", "noisez": "virtrz"}


@st.composite
def expression(draw, lo, hi):
    """(text, value): arithmetic without parentheses whose value lies in [lo, hi]."""
    for _ in range(6):
        n = draw(st.integers(1, 3))
        txt, val = "", None
        terms = []
        for _k in range(n):
            atom = draw(st.sampled_from(["pi", "2", "0.5", "3", "1e-2", "4", "1.25", ".5", "2.", "7e0"]))
            terms.append(atom)
        ops = [draw(st.sampled_from("+-*/")) for _ in range(n - 1)]
        sign = draw(st.sampled_from(["", "", "-", "+"]))
        sp = draw(st.sampled_from(["", " "]))
        txt = sign + terms[0]
        for o, t in zip(ops, terms[1:]):
            txt += sp + o + sp + t
        val = evaluate(txt)
        if lo <= val <= hi:
            return txt, val
    v = draw(st.floats(max(lo, -10), min(hi, 10), allow_nan=False)) if draw(st.booleans()) else (lo + hi) / 2
    return repr(float(v)), float(v)


def evaluate(txt):
    """Independent left-to-right evaluator with the usual precedence."""
    import re
    toks = re.findall(r"pi|\d+\.?\d*(?:e-?\d+)?|\.\d+|[-+*/]", txt)
    pos = 0

    def factor():
        nonlocal pos
        t = toks[pos]; pos += 1
        if t == "-":
            return -factor()
        if t == "+":
            return factor()
        return math.pi if t == "pi" else float(t)

    def term():
        nonlocal pos
        v = factor()
        while pos < len(toks) and toks[pos] in "*/":
            o = toks[pos]; pos += 1
            w = factor()
            v = v * w if o == "*" else v / w
        return v

    v = term()
    while pos < len(toks):
        o = toks[pos]; pos += 1
        w = term()
        v = v + w if o == "+" else v - w
    return v


def loc(regs, line):
    for n, ds in regs:
        if line < len(ds):
            return f"{n}[{line}]"
        line -= len(ds)
    raise AssertionError


@st.composite
def gate_line(draw, regs, spec):
    """Text of one gate; returns (text, spec with the values the text denotes)."""
    g = spec["g"]
    ws = lambda m=0: draw(st.sampled_from([" ", "  "] if m else ["", " ", "  "]))  # noqa: E731
    spec = dict(spec, dag=False)
    ptxt = ""
    if g == "noisez":
        spec["p"] = list(spec["p"])
        params = [str(spec["p"][0]), "pi"]
    elif spec["p"] is not None:
        p = list(spec["p"])
        params = []
        nlev = {"r": 2, "rz": 2, "rh": 2, "virtrz": 1, "cx": 3, "pm": len(p)}.get(g, 0)
        for i, v in enumerate(p):
            if i < nlev:
                params.append(str(v))
            else:
                lo, hi = (0, 2 * math.pi) if g in ("cx", "ls", "ms") else (-20, 20)
                t, val = draw(expression(lo, hi))
                params.append(t); p[i] = val
        spec["p"] = p
    else:
        params = None
    if params is not None:
        sep = ws() + "," + ws()
        body = sep.join(params)
        if g == "pm" and draw(st.booleans()):
            body = "[" + body + "]"
        ptxt = ws() + "(" + ws() + body + ws() + ")"
    elif g in ("x", "z", "h", "s", "csum") and draw(st.integers(0, 5)) == 0:
        ptxt = " ()"
    tag = TAG.get(g, g)
    targets = (draw(st.sampled_from([",", ", ", " , ", " ,"]))).join(loc(regs, q) for q in spec["t"])
    txt = tag + ptxt + (ws() if ptxt else ws(1)) + targets
    if spec["c"]:
        txt += ws(1) + "ctl" + ws(1) + ws(1).join(loc(regs, q) for q in spec["c"][0]) + ws() + "[" + draw(st.sampled_from([",", ", "])).join(map(str, spec["c"][1])) + "]"
    return txt + ws() + ";", spec


@st.composite
def program(draw):
    regs = draw(registers(4, 100))
    dims = flat(regs)
    lines = []
    lines.append(draw(st.sampled_from(["DITQASM 2.0;", "DITQASM  2.0;"])))
    specs = draw(gen.gates(dims, 0, 6, kinds=TEXT_KINDS, dag=False, p_ctl=0.5))
    noise = [lambda: "", lambda: "   ", lambda: "// a comment; x q[0];", lambda: "/* one line */", lambda: "/* first\n x q[0];\n last */",
             lambda: "\t", lambda: "include \"qelib1.inc\";", lambda: "//", lambda: "/**/", lambda: "/* // */", lambda: "// /* not a start"]

    def maybe_noise():
        while draw(st.integers(0, 3)) == 0:
            lines.append(draw(st.sampled_from(noise))())
    for n, ds in regs:
        maybe_noise()
        sp = draw(st.sampled_from([" ", "  "]))
        size = draw(st.sampled_from(["[%d]", "[ %d ]"])) % len(ds)
        sizes = "" if all(d == 2 for d in ds) and draw(st.booleans()) else draw(st.sampled_from(["", " "])) + "[" + draw(st.sampled_from([",", ", "])).join(map(str, ds)) + "]"
        lines.append(f"qreg{sp}{n}{sp}{size}{sizes};")
    if draw(st.booleans()):
        maybe_noise()
        lines.append(draw(st.sampled_from(["creg c[2];", "creg meas [ 3 ] ;"])))
    out = []
    for s in specs:
        maybe_noise()
        t, s2 = draw(gate_line(regs, s))
        t = draw(st.sampled_from(["", "", "  ", "\t"])) + t + draw(st.sampled_from(["", "", " ", " // tail", "  /* tail */", "\r"]))
        lines.append(t); out.append(s2)
        if draw(st.integers(0, 9)) == 0:
            lines.append(f"barrier {loc(regs, 0)};")
    maybe_noise()
    if draw(st.booleans()):
        lines.append(f"measure {loc(regs, 0)} -> c[0];")
    return {"regs": regs, "gates": out, "text": "\n".join(lines) + draw(st.sampled_from(["", "\n", "\n\n"])), "stale": draw(st.booleans())}


def through_file(text):
    """Reading a program from a file gives what reading its text gives."""
    import tempfile
    from mqt.qudits.quantum_circuit.qasm import QASM
    with tempfile.NamedTemporaryFile("w", suffix=".qasm", newline="") as f:
        f.write(text)
        f.flush()
        a, b = QASM().parse_ditqasm2_file(f.name), QASM().parse_ditqasm2_str(text)
    require(set(a) == set(b) and all(repr(a[k]) == repr(b[k]) for k in a if k != "instructions") and [repr(vars(x) if hasattr(x, "__dict__") else x) for x in a["instructions"]]
            == [repr(vars(x) if hasattr(x, "__dict__") else x) for x in b["instructions"]], "a program read from a file differs from the same program read as text")


def check_program(case):
    c = fresh(case["stale"])
    c.from_qasm(case["text"])
    same(c, case["regs"], case["gates"], "program")
    if case["stale"]:
        through_file(case["text"])
    noisy = any(k in case["text"] for k in ("//", "/*"))
    return len(case["gates"]) > 0, "with comments" if noisy else "plain"


CORR = ["semicolon", "unknown_reg", "index", "gate", "ctl_index", "ctl_reg", "missing_bracket", "extra_param", "missing_param", "level", "float_level", "2pi",
        "trailing", "leading", "unterminated", "ctl_target", "ctl_count", "qreg_size", "qreg_dup", "two_targets", "ctl_dup", "angle_word", "undeclared", "ctl_level", "negindex", "line", "line"]
FOREIGN = ['include "other.inc";', "gate foo a { x a; }", "if (c==1) x %s;", "opaque u q;", "reset %s;", "DITQASM 3.0;", "OPENQASM 2.0;", "creg c[];", "creg c[2]",
           "qreg zz [0][];", "qreg zz [1][1.5];", "qreg zz 2;", "qreg zz [-1];", "U(0,0,0) %s;", "%s;", "x;", "creg c [2]; x %s;", "x %s h %s;", "include other;", "qreg [2];", "creg [2];",
           "qreg zz [2][2,3,];", "qreg zz [2](2,3);", "creg c {2};"]


@st.composite
def corrupt(draw):
    regs = draw(registers(4, 80))
    dims = flat(regs)
    n = len(dims)
    kind = draw(st.sampled_from(CORR))
    specs = draw(gen.gates(dims, 0, 3, kinds=TEXT_KINDS, dag=False))
    kinds = TEXT_KINDS
    if kind.startswith("ctl"):
        kinds = [k for k in TEXT_KINDS if k in gen.CONTROLLABLE]
    elif kind in ("extra_param", "missing_param"):
        kinds = ["r", "rz", "rh", "virtrz", "cx", "ls", "ms", "pm"]
    elif kind in ("level", "float_level"):
        kinds = ["r", "rz", "rh", "virtrz", "pm"]
    elif kind in ("2pi", "angle_word"):
        kinds = ["r", "rz", "virtrz", "ls", "ms"]
    elif kind == "two_targets":
        kinds = ["x", "z", "h", "r", "rz", "rh", "virtrz", "pm"] if n > 1 else []
    if kind.startswith("ctl") and n < 2 and kind not in ("ctl_index", "ctl_reg", "ctl_target"):
        return None
    if kind == "two_targets" and n < 2:
        return None
    spec = draw(gen.gate(dims, kinds=list(kinds), dag=False, controls=kind != "two_targets", p_ctl=1.0 if kind in ("ctl_count", "ctl_dup", "ctl_level") else 0.3))
    if kind in ("ctl_count", "ctl_dup", "ctl_level") and not spec["c"]:
        return None
    tag = TAG.get(spec["g"], spec["g"])
    pars = [str(spec["p"][0]), "pi"] if spec["g"] == "noisez" else (None if spec["p"] is None else [repr(v) for v in spec["p"]])
    if spec["g"] == "cx" and spec["p"] is None:
        pars = ["0", "1", "1", "0.0"]
    ts = [loc(regs, q) for q in spec["t"]]
    cs = [loc(regs, q) for q in spec["c"][0]] if spec["c"] else []
    ls = [str(v) for v in spec["c"][1]] if spec["c"] else []
    end, pre, head = ";", "", [f"qreg {a} [{len(ds)}][{','.join(map(str, ds))}];" for a, ds in regs]
    if kind == "semicolon":
        end = draw(st.sampled_from(["", ",", ":", ".;;", ";;"]))
    elif kind == "unknown_reg":
        ts[-1] = draw(st.sampled_from(["nope[0]", "Q[0]", ts[-1].split("[")[0] + "z[0]"]))
    elif kind == "index":
        r = draw(st.sampled_from(regs)); ts[0] = f"{r[0]}[{len(r[1]) + draw(st.integers(0, 3))}]"
    elif kind == "negindex":
        r = draw(st.sampled_from(regs)); ts[0] = f"{r[0]}[-1]"
    elif kind == "gate":
        tag = draw(st.sampled_from(["foo", "X", "cnot", "rxyz", "u3", "rx", "noise", "x2", "swap"]))
    elif kind == "ctl_index":
        r = draw(st.sampled_from(regs)); cs.append(f"{r[0]}[{len(r[1]) + draw(st.integers(0, 2))}]"); ls.append("0")
    elif kind == "ctl_reg":
        cs.append("nope[0]"); ls.append("0")
    elif kind == "ctl_target":
        cs.append(ts[0]); ls.append("0")
    elif kind == "ctl_count":
        ls.append("0")
    elif kind == "ctl_dup":
        cs.append(cs[0]); ls.append(ls[0])
    elif kind == "ctl_level":
        ls[0] = str(dims[spec["c"][0][0]] + draw(st.integers(0, 2)))
    elif kind == "missing_bracket":
        ts[0] = draw(st.sampled_from([ts[0][:-1], ts[0].replace("[", ""), ts[0].split("[")[0]]))
    elif kind == "extra_param":
        pars.append(draw(st.sampled_from(["0", "1", "pi"])))
    elif kind == "missing_param":
        pars.pop(draw(st.integers(0, len(pars) - 1)) if spec["g"] == "pm" else -1)
    elif kind == "level":
        pars[0] = str(dims[spec["t"][0]] + draw(st.integers(0, 3)))
    elif kind == "float_level":
        pars[0] = draw(st.sampled_from(["0.5", "pi", "1.000001", "1/2"]))
    elif kind == "2pi":
        pars[-1] = draw(st.sampled_from(["2pi", "pipi", "pi2", "0.5pi", "2 pi", "pi pi"]))
    elif kind == "angle_word":
        pars[-1] = draw(st.sampled_from(["theta", "1,,2", "", "1+", "*2", "pi/", "1..2", "inf_"]))
    elif kind == "trailing":
        end = "; " + draw(st.sampled_from(["garbage", "x " + ts[0], "]", "/ comment", "0"]))
    elif kind == "leading":
        pre = draw(st.sampled_from(["garbage ", "; ", "- ", "1 ", "* / "]))
    elif kind == "unterminated":
        end = "; /* never closed"
    elif kind == "two_targets":
        other = [i for i in range(n) if i not in spec["t"]][0]
        ts.append(loc(regs, other))
    elif kind == "qreg_size":
        a, ds = draw(st.sampled_from(regs))
        i = [r[0] for r in regs].index(a)
        k = draw(st.sampled_from([1, -1])) if len(ds) > 1 else 1
        head[i] = f"qreg {a} [{len(ds) + k}][{','.join(map(str, ds))}];"
    elif kind == "qreg_dup":
        a = draw(st.sampled_from(regs))[0]
        head.append(f"qreg {a} [1][{draw(st.integers(2, 4))}];")
    line = tag + (" (" + ", ".join(pars) + ")" if pars is not None else "") + " " + ", ".join(ts) + (" ctl " + " ".join(cs) + " [" + ",".join(ls) + "]" if cs else "") + end
    body = [_plain(regs, s) for s in specs]
    k = draw(st.integers(0, len(body)))
    body.insert(k, pre + line if kind != "line" else draw(st.sampled_from(FOREIGN)).replace("%s", ts[0]))
    if kind == "unterminated":
        body = body[:k + 1] + body[k + 1:]
    if kind == "undeclared":          # the gate comes before its register exists, and nothing declares it
        head = [h for h in head if h.split()[1] != ts[0].split("[")[0]]
    return {"text": "\n".join(["DITQASM 2.0;", *head, *body]), "kind": kind}


def _plain(regs, spec):
    pars = [str(spec["p"][0]), "pi"] if spec["g"] == "noisez" else spec["p"]
    t = TAG.get(spec["g"], spec["g"]) + (" (" + ", ".join(x if isinstance(x, str) else repr(x) for x in pars) + ")" if pars is not None else "") + " " + ", ".join(loc(regs, q) for q in spec["t"])
    if spec["c"]:
        t += " ctl " + " ".join(loc(regs, q) for q in spec["c"][0]) + " [" + ",".join(map(str, spec["c"][1])) + "]"
    return t + ";"


def check_corrupt(case):
    if case is None:
        return False, "not applicable"
    c = fresh(False)
    try:
        c.from_qasm(case["text"])
    except Exception as e:  # noqa: BLE001
        return True, f"{case['kind']}"
    require(False, f"malformed program accepted ({case['kind']}) as {[(g.qasm_tag, g.target_qudits, g._params) for g in c.instructions]}")


SUBS = [
    Sub("program", program(), check_program, 500, 12000, "grammar-generated programs with layout noise; non-trivial: at least one gate"),
    Sub("malformed", corrupt(), check_corrupt, 700, 12000, "programs with exactly one defect; non-trivial: the defect could be planted"),
]
