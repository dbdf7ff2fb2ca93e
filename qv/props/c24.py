"""Shipped benchmark programs compute what they spell out, for every input."""
import glob
import os
import re
import tempfile
import warnings

from hypothesis import strategies as st

from .. import env, gen, qasm, ref, sutil
from ..core import quiet, require, sut

ID = "C24"
RULE = ("a shipped program (or a stretch of it) behind generated X, H and CX statements that prepare an input, loaded from text or file and run on a "
        "generated backend: the result compared with integer arithmetic on the levels for every basis state of the prepared input, combined "
        "linearly; or the program followed by its inverse, which must restore the prepared state; non-trivial: a controlled gate "
        "of the program fires on the input")
ASSUMPTIONS = ["shipped programs of up to 1,100 states in full (22 of testbench/tof_qutrit, two of tof_large, three of tof_full, test.qasm); stretches of those of up to 40,000 states",
               "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 260, 4000
SMALL, CAP = 1100, 40000  # states: every program up to SMALL in full, stretches of those up to CAP


def corpus():
    """[(name, declared dims, operations)], read independently of the code under test."""
    found = []
    paths = [os.path.join(env.REPO, "test.qasm")]
    for kind in ("txt", "qasm"):
        paths += glob.glob(os.path.join(env.REPO, "testbench", "*", "*", "*." + kind))
    for path in sorted(paths):
        with open(path) as f:
            lines = [l.split("#")[0].strip() for l in f]
        lines = lines[: lines.index(".end") + 1] if ".end" in lines else lines
        size = [i for i, l in enumerate(lines) if re.match(r"\.qu(dit|bit|trit)\s", l)]
        if len(size) != 1 or lines.count(".begin") != 1 or lines.count(".end") != 1:
            continue
        begin, end = lines.index(".begin"), lines.index(".end")
        dims = {}
        for l in filter(None, lines[size[0] + 1 : begin]):
            q = int(re.search(r"\d+", l).group())
            d = re.search(r"\(\s*(\d+)\s*\)", l)
            dims[q] = int(d.group(1)) if d else {"qubit": 2, "qutrit": 3}[l.split()[0]]
        ops = [qasm.read(l) if " " in l else None for l in filter(None, lines[begin + 1 : end])]
        if None in ops or sorted(dims) != list(range(len(dims))):
            continue
        dims = [dims[q] for q in sorted(dims)]
        body = [l for l in lines[begin + 1 : end] if l]
        if any(r >= len(dims) for o in ops for r in ref.registers(qasm.plain(o))):
            continue  # e.g. a statement about a register that is not declared: refused, see C15
        if ref.size(dims) <= CAP:
            found.append((os.path.relpath(path, env.REPO), dims, ops, body))
    return found


CORPUS = corpus()
LARGE = [c for c in CORPUS if ref.size(qasm.promoted({"dims": c[1], "ops": c[2]})) > SMALL]
SMALLER = [c for c in CORPUS if c not in LARGE]


def span(dims, op):
    """States of the registers from the first to the last one of the gate: it builds a matrix of that size."""
    regs = ref.registers(qasm.plain(op))
    return ref.size(qasm.promoted({"dims": dims, "ops": [op]})[min(regs) : max(regs) + 1])


def stretch(dims, ops, lo, most):
    """An affordable stretch from lo (or shortly after it) on."""
    while span(dims, ops[lo]) > 2500:
        lo = (lo + 1) % len(ops)
    hi, rows = lo, 0
    while hi < len(ops) and hi - lo < most:
        full = qasm.promoted({"dims": dims, "ops": ops[lo : hi + 1]})
        regs = ref.registers(qasm.plain(ops[hi]))
        width = ref.size(full[min(regs) : max(regs) + 1])
        rows += width
        spread = {o[1] for o in ops[lo : hi + 1] if o[0] == "h"}
        if hi > lo and (rows > 12000 or width > 2500 or ref.size(full) > CAP or ref.size(full) > SMALL and len(spread) > 3):
            break
        hi += 1
    return lo, hi


def strategy(tier):
    @st.composite
    def cases(draw):
        pool = LARGE if draw(st.integers(0, 11)) == 0 else SMALLER
        name, dims, ops, body = pool[draw(st.integers(0, len(pool) - 1))]
        full = qasm.promoted({"dims": dims, "ops": ops})
        lo, hi = 0, len(ops)
        large = ref.size(full) > SMALL
        if large or draw(st.integers(0, 3)) == 0:
            lo = draw(st.integers(0, len(ops) - 1))
            lo, hi = stretch(dims, ops, lo, draw(st.integers(1, 60)))
            full = qasm.promoted({"dims": dims, "ops": ops[lo:hi]})
        pre = []
        for q, d in enumerate(full):
            level = draw(st.integers(0, d - 1)) if draw(st.booleans()) else d - 1
            if level:
                pre.append(["x", q, level])
        for _ in range(draw(st.sampled_from([0, 0, 0, 1] if large else [0, 0, 1, 2]))):
            pre.append(["h", draw(st.integers(0, len(full) - 1))])
        if draw(st.integers(0, 2)) == 0:
            pre.append(draw(gen.op(full, ["cx"])))
        return {"file": name, "part": [lo, hi], "pre": pre, "backend": "sparse" if large else draw(st.sampled_from(["numpy", "sparse", None])),
                "from": draw(st.sampled_from(["text", "file"])), "back": draw(st.integers(0, 3)) == 0}

    return cases()


def word(op):
    if op[0] in ("h", "z"):
        return "%s x%d" % (op[0].upper(), op[1])
    if op[0] == "x":
        return "X x%d %d" % (op[1], op[2])
    if op[0] == "cx":
        return "CX x%d x%d %d" % (op[1], op[2], op[3])
    return "TOFFOLI x%d x%d x%d" % tuple(op[1:4])


def move(vector, dims, op):
    """A permutation gate on {levels: amplitude}, one basis state at a time."""
    return {tuple(ref.classical(dims, list(s), [op])): a for s, a in vector.items()}


def check(case):
    from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

    name, declared, ops, body = next(c for c in CORPUS if c[0] == case["file"])
    lo, hi = case["part"]
    total = len(ops)
    ops, body = ops[lo:hi], body[lo:hi]
    back = case["back"] and all(o[0] in ("x", "rx", "cx") for o in ops)
    undo = []
    for o in reversed(ops) if back else []:
        p = qasm.plain(o)
        undo.append(p[:-1] + [-p[-1]])
    dims = qasm.promoted({"dims": declared, "ops": ops})
    pre = [o for o in case["pre"] if o[0] != "x" or o[2] < dims[o[1]]]
    program = "\n".join(["# " + name, ".qudit %d" % len(declared)] + ["qudit x%d (%d)" % p for p in enumerate(declared)]
                        + [".begin"] + [word(o) for o in pre] + body + [word(o) for o in undo] + [".end", ""])
    kw = {} if case["backend"] is None else {"backend": sutil.backend(case["backend"])}
    with sut("loading %s behind %s" % (name, pre)), warnings.catch_warnings(), quiet():
        warnings.simplefilter("ignore")
        if case["from"] == "text":
            qc = circuit_from_qasm(program, **kw)
        else:
            with tempfile.TemporaryDirectory(prefix="qv-bench-") as tmp:
                path = os.path.join(tmp, "program.txt")
                with open(path, "w") as f:
                    f.write(program)
                qc = parse_qasm(path, **kw)
    got = sutil.vector(sutil.run(qc, "running %s behind %s" % (name, pre)), dims)

    start = ref.simulate(dims, None, pre)
    state = {s: start[s] for s in ref.basis(dims) if abs(start[s]) > 1e-13}
    fired = 0
    for o in ops:
        p = qasm.plain(o)
        if p[0] in ("h", "z"):  # not classical: through the reference simulator
            t = ref.simulate(dims, None, []) * 0
            for s, a in state.items():
                t[s] = a
            t = ref.apply(t, p)
            state = {s: t[s] for s in ref.basis(dims) if abs(t[s]) > 1e-13}
            continue
        new = move(state, dims, p)
        fired += p[0] != "x" and new.keys() != state.keys()
        state = new
    want = ref.simulate(dims, None, []) * 0
    if back:
        want = start
    else:
        for s, a in state.items():
            want[s] += a
    sutil.same(got, want.ravel(), dims, "%s%s behind %s" % (name, " and its inverse" if back else "", pre))
    return {"nontrivial": fired > 0, "classes": [os.path.basename(name), "inverse" if back else "forward",
                                                 "whole" if (lo, hi) == (0, total) else "part",
                                                 "superposed" if any(o[0] == "h" for o in pre) else "basis-state"]}


FIXED = [{"file": c[0], "part": [0, len(c[2])], "pre": [["x", q, d - 1] for q, d in enumerate(c[1])], "backend": ["numpy", None][i % 2],
          "from": "text", "back": False} for i, c in enumerate(SMALLER)]
