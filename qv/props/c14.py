"""A QASM program is the circuit it spells out."""
import glob
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import env, gen, qasm, ref, sutil
from ..core import require, sut

ID = "C14"
RULE = ("random QASM program in a random layout (or a slice of a shipped testbench program), loaded from a string and from a "
        "file and compared with the same circuit built through the API: drawing, reports and result, the result also with the "
        "reference simulator; non-trivial: at least two statements and a layout with comments, blank lines, "
        "indentation, reordered declarations or an unusual case, or a CX/Toffoli")
ASSUMPTIONS = ["registers are called x0, x1, ... as in the documentation", "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 1300, 9000


def shipped():
    """[(dims, [(line, op)])] of the programs under testbench, as far as statements are documented."""
    found = []
    for path in sorted(glob.glob(os.path.join(env.REPO, "testbench", "**", "*.qasm"), recursive=True)):
        with open(path) as f:
            lines = [l.split("#")[0].strip() for l in f]
        body = [l for l in lines if l]
        if ".begin" not in body:
            continue
        ops = [(l, qasm.read(l)) for l in body[body.index(".begin") + 1 :] if not l.startswith(".")]
        found.append([(l, o) for l, o in ops if o is not None])
    return [f for f in found if f]


def strategy(tier):
    corpus = shipped()

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["small", "small", "wide", "small", "wide", "many", "corpus"]))
        if kind == "corpus" and corpus:
            lines = draw(st.sampled_from(corpus))
            n = draw(st.integers(3, 6))
            lo = draw(st.integers(0, max(0, len(lines) - 1)))
            part = [(l, o) for l, o in lines[lo : lo + 30] if all(r < n for r in (o[1:] if o[0] == "tof2" else o[1:2] if o[0] != "cx" else o[1:3]))]
            c = {"dims": [draw(st.integers(2, 3)) if n < 5 else 2 for _ in range(n)],
                 "ops": [o for _, o in part[:14]], "raw": [l for l, _ in part[:14]],
                 "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=24))}
            while ref.size(qasm.promoted(c)) > 260:
                c["ops"].pop()
                c["raw"].pop()
        elif kind == "wide":
            c = draw(qasm.program(cap=128, max_regs=7, max_ops=10, min_regs=4, max_dim=3))
        elif kind == "many":  # ten and more registers: two-digit names
            n = draw(st.integers(8, 12 if tier == "thorough" else 11))
            ds = [2] * n
            ops = []
            for _ in range(draw(st.integers(1, 8))):
                k = draw(st.sampled_from(["x", "x", "rx", "h", "z", "cx"]))
                if k == "cx":
                    a = draw(st.integers(0, n - 2))
                    b = min(n - 1, a + draw(st.integers(1, 4)))
                    ops.append(["cx", a, b, 1] if draw(st.booleans()) else ["cx", b, a, 1])
                else:
                    ops.append(draw(qasm.operations(ds, [k])))
            c = {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=24))}
        else:
            c = draw(qasm.program(cap=40, max_dim=7))
        if draw(st.integers(0, 14)) == 0:  # long ones
            return dict(draw(qasm.lengthy()), backend=draw(st.sampled_from(["sparse", None])), file=draw(st.booleans()), run=False)
        if draw(st.integers(0, 11)) == 0:  # three-digit names: too large to run, compared with the circuit built through the API
            n = draw(st.integers(101, 125))
            ds = [2] * n
            ops = []
            for _ in range(draw(st.integers(1, 8))):
                k = draw(st.sampled_from(["x", "h", "z", "cx", "cx", "tof2"]))
                a = draw(st.one_of(st.integers(0, n - 3), st.integers(95, n - 3)))
                if k == "tof2":
                    ops.append(["tof2"] + list(draw(st.permutations([a, a + 1, a + 2]))))
                elif k == "cx":
                    b = draw(st.integers(0, n - 2))
                    ops.append(["cx", a, b + (b >= a), draw(st.integers(-3, 3))])
                else:
                    ops.append([k, a] + ([draw(st.integers(-3, 3))] if k == "x" else []))
            return {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=24)),
                    "backend": draw(st.sampled_from(["sparse", None])), "file": draw(st.booleans()), "run": False}
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if ref.size(qasm.promoted(c)) < 600 else draw(st.sampled_from(["sparse", None]))
        c["file"] = draw(st.booleans())
        c["letters"] = draw(st.integers(0, 5)) == 0
        if draw(st.integers(0, 7)) == 0:  # long lines, long files
            c["pad"] = [draw(st.sampled_from([0, 1, 30, 100, 300, 5000, 70000])), draw(st.sampled_from([0, 50, 100, 1000, 9000, 70000])),
                        draw(st.sampled_from([0, 1, 30, 1000, 12000]))]
        return c

    return cases()


def padded(program, pad):
    """The same program with longer lines, and more of them."""
    blanks, letters, lines = pad
    out = []
    for i, line in enumerate(program.split("\n")):
        if line.strip() and i % 3 != 1:
            line = (" " if i % 2 else "\t") * blanks + line
        if i:
            out += ["# " + "H x0 " * (letters // 5)] * (letters > 0 and i % 4 == 1) + ["" if i % 2 else "  # X x0"] * (lines if i % 5 == 1 else 0)
        out.append(line)
    return "\n".join(out)


def load(case, program):
    from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

    kw = {} if case["backend"] is None else {"backend": sutil.backend(case["backend"])}
    with sut("loading the program\n%s\n" % program[:2000]), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if not case["file"]:
            return circuit_from_qasm(program, **kw)
        with tempfile.TemporaryDirectory(prefix="qv-qasm-") as tmp:
            path = os.path.join(tmp, "program.qasm")
            with open(path, "w", newline="", encoding="utf-8") as f:
                f.write(program)
            return parse_qasm(path, **kw)


def compare(qc, api, program):
    with sut("reports"), warnings.catch_warnings():
        warnings.simplefilter("error")  # the loaded circuit is measured: no warning about that
        require(str(qc) == str(api), "the program\n%s\nis loaded as\n%s\ninstead of\n%s", program[:2000], qc, api)
        for rep in ("get_circuit_info", "get_circuit_config"):
            a, b = getattr(qc, rep)(), getattr(api, rep)()
            require(a == b, "%s of the loaded circuit is %s, should be %s", rep, a, b)


def check(case):
    program = qasm.text(case, case.get("letters"))
    if case.get("pad"):
        program = padded(program, case["pad"])
    dims = qasm.promoted(case)
    ops = [qasm.plain(o) for o in case["ops"]]
    qc = load(case, program)
    api = sutil.build(dims, None, ops, case["backend"])
    compare(qc, api, program)
    if case.get("run", True):
        ran(qc, program, dims, ops)
    name = type(qc.backend).__name__ if not isinstance(qc.backend, type) else qc.backend.__name__
    want = {"numpy": "NumpyBackend", "sparse": "SparseBackend", None: "SparseBackend"}[case["backend"]]
    require(name == want, "the circuit runs on %s instead of %s", name, want)
    return {"nontrivial": len(ops) >= 2 and (len(case["lay"]) > 2 or gen.key_ops({"ops": ops}) > 0),
            "classes": gen.classify({"dims": dims, "ops": ops})[0 if len(dims) < 100 else 1 :] + ["file" if case["file"] else "string"]
            + (["shipped"] if "raw" in case else []) + (["ten-registers"] if len(dims) > 9 else [])
            + (["hundred-registers"] if len(dims) > 99 else [])
            + (["long-lines"] if case.get("pad") else []) + (["crlf"] if "\r" in program else []) + (["comments"] if program.count("#") > 2 else []) + ([] if program.isascii() else ["beyond-ASCII"])}


def ran(qc, program, dims, ops):
    got = sutil.vector(sutil.run(qc, "run() of the loaded program"), dims)
    sutil.same(got, ref.simulate(dims, None, ops).ravel(), dims, "the program\n%s\n" % program[:2000])


FIXED = [
    {"dims": [2, 3], "ops": [["rx", 1], ["cx", 0, 1, -1], ["x", 0, 1]], "lay": [0], "backend": None, "file": False},
    {"dims": [2, 3, 3], "ops": [["x", 0, 1], ["x", 1, 2], ["tof2", 0, 1, 2]], "lay": [1, 2, 3, 5, 7, 11], "backend": "numpy", "file": True},
    {"dims": [2] * 11, "ops": [["x", 10, 1], ["cx", 10, 9, 1]], "lay": [3], "backend": None, "file": False},
    {"dims": [2], "ops": [["x", 0, 1]], "lay": [3], "backend": None, "file": True, "letters": True},
]
