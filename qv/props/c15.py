"""No QASM statement is skipped or misread."""
import os
import re
import tempfile
import warnings

from hypothesis import strategies as st

from .. import gen, qasm, ref, sutil
from ..core import Skip, Violation, quiet, require, sut

ID = "C15"
RULE = ("random valid program in a random layout, either with one fault put into a statement, declaration or section mark (see "
        "FAULTS), where loading it must raise while the unspoiled program must load; or with one to three random edits of characters, "
        "words and lines, where an independent strict reading of the text decides: malformed text must raise, well-formed text must load "
        "as exactly the circuit it spells out, text the documentation does not settle may do either; non-trivial: a fault, "
        "or edited text the strict reading settles")
ASSUMPTIONS = ["the documented statements are X, RX .. 180, H, Z, CX, CNOT, Toffoli; anything else is malformed"]
QUICK, THOROUGH = 3600, 15000

KNOWN = {"X", "RX", "H", "Z", "CX", "CNOT", "TOFFOLI"}
WORDS = ["Y", "S", "T", "SWAP", "CZ", "I", "U", "RY", "RZ", "MEASURE", "BARRIER", "CCX", "CNOTZ", "XX", "XY", "HX", "HH",
         "ZZ", "CXX", "CX1", "CNOT2", "TOFFOLIX", "TOFOLI", "TOF", "RXX", "R", "C", "NOT", "QUBIT", "QUDIT", "ID", "X1",
         "_X", "HADAMARD", "ZGATE", "CY", "CH", "FREDKIN", "RESET", "IF"]
FAULTS = ["word", "word", "word-any", "missing", "surplus", "garbled", "outside", "repeated", "angle", "increment",
          "two-on-a-line", "tof-count", "no-begin", "no-end", "no-size", "twice", "gap", "declared-twice", "declaration",
          "dimension", "undeclared", "bare-number", "end-twice", "mark-moved", "mark-replaced", "mark-replaced", "no-header"]


def strategy(tier):
    @st.composite
    def cases(draw):
        if draw(st.integers(0, 9)) < 4:
            c = draw(qasm.program(cap=48, max_regs=4, max_ops=5, min_ops=1))
            c["edits"] = draw(st.lists(st.tuples(st.integers(0, 8), st.integers(0, 400), st.integers(0, 60), st.integers(0, 60)).map(list),
                                       min_size=1, max_size=3))
            return c
        if draw(st.integers(0, 9)):
            c = draw(qasm.program(cap=48, max_regs=5, max_ops=6, min_ops=1))
        else:
            c = draw(qasm.lengthy(2, 14, 150))
        c["fault"] = draw(st.sampled_from(FAULTS))
        c["at"] = draw(st.integers(0, 99 if len(c["ops"]) < 10 else 399))
        c["word"] = draw(st.one_of(st.sampled_from(WORDS), st.text("ABCDHNORTXZ", min_size=1, max_size=7)))
        c["case"] = draw(st.integers(0, 2))
        c["k"] = draw(st.integers(0, 30))
        c["file"] = draw(st.integers(0, 3)) == 0
        return c

    return cases()


def spoil(case):
    """The faulty program's lines, or None where the fault does not fit the program."""
    header, size, decls, gates, tail, lay = qasm.parts(case)
    n, dims, at, k, fault = len(case["dims"]), case["dims"], case["at"], case["k"], case["fault"]
    gates, decls = list(gates), list(decls)
    i = at % max(1, len(gates))
    begin, end = ".begin", ".end"
    ops = case["ops"]
    pick = lambda xs: xs[k % len(xs)]
    words = gates[i].replace(",", " , ").split() if gates else ["X", "x0"]
    if fault in ("word", "word-any"):
        w = case["word"] if fault == "word" else case["word"] + "Q"
        w = [w, w.lower(), w.capitalize()][case["case"]]
        if w.upper() in KNOWN:
            w += "Q"
        bad = [w, *gates[i].split()[1:]] if k % 2 else [w, "x%d" % (k % n)]
        if k % 3 == 0:
            bad = [w]
        bad = " ".join(bad)
        if k % 5 < 2 or not gates:
            gates.insert(i, bad)
        else:
            gates[i] = bad
    elif fault == "missing":
        op = ops[i]
        if op[0] == "x":
            gates[i] = "X"
        elif op[0] == "cx":
            gates[i] = pick(["CX x%d" % op[1], "CNOT x%d" % op[2], "CX"])
        elif op[0] == "tof2":
            gates[i] = pick(["TOFFOLI x%d x%d" % (op[1], op[2]), "Toffoli x%d, x%d" % (op[1], op[2]), "TOFFOLI x%d" % op[1], "Toffoli"])
        elif op[0] == "rx":
            gates[i] = pick(["RX x%d" % op[1], "RX 180", "RX"])
        else:
            gates[i] = pick([op[0].upper(), op[0]])
    elif fault == "surplus":
        more = {"h": ["x%d" % (k % n), "1", "junk"], "z": ["x%d" % (k % n), "2", "junk"], "x": ["1 1", "1 junk", "x0 x0"],
                "cx": ["1 1", "1 x0", "1 2 3"], "rx": ["1", "x%d" % (k % n)], "tof2": ["junk", "1 1", "x0 x0"]}[ops[i][0]]
        base = {"h": "H x%d", "z": "Z x%d", "x": "X x%d", "rx": "RX x%d 180"}.get(ops[i][0])
        base = base % ops[i][1] if base else ("CX x%d x%d" if ops[i][0] == "cx" else "TOFFOLI x%d x%d x%d") % tuple(ops[i][1 : 3 if ops[i][0] == "cx" else 4])
        gates[i] = base + " " + pick(more)
    elif fault in ("garbled", "bare-number"):
        junk = pick(["x", "xx", "x-1", "x1.5", "x0x1", "(0)", "x?", "-1", "x 0 y", "x_", "0x", "one"]) if fault == "garbled" else "x%d%s" % (k % n, pick(["a", "?", ";", "/", "x"]))
        op = ops[i]
        if op[0] in ("h", "z", "x"):
            gates[i] = op[0].upper() + " " + junk
        elif op[0] == "rx":
            gates[i] = "RX %s 180" % junk
        elif op[0] == "cx":
            gates[i] = pick(["CX %s x%d" % (junk, op[2]), "CNOT x%d %s" % (op[1], junk)])
        else:
            gates[i] = pick(["TOFFOLI %s x%d x%d" % (junk, op[2], op[3]), "TOFFOLI x%d x%d %s" % (op[1], op[2], junk)])
    elif fault in ("outside", "undeclared"):
        out = n + (k % 4) if fault == "outside" else n + 7 + 10 * (k % 3)
        op = [ops[i][0]] + list(ops[i][1:])
        slots = {"h": 1, "z": 1, "x": 1, "rx": 1, "cx": 2, "tof2": 3}[op[0]]
        op[1 + at % slots] = out
        gates[i] = qasm.statement(op, lay, dims)
    elif fault == "repeated":
        r = k % n
        other = (r + 1) % n
        gates[i] = pick(["CX x%d x%d" % (r, r), "CNOT x%d x%d 1" % (r, r), "TOFFOLI x%d x%d x%d" % (r, r, other),
                         "Toffoli x%d, x%d, x%d" % (other, r, r), "Toffoli x%d, x%d, x%d" % (r, other, r)])
    elif fault == "angle":
        gates[i] = "RX x%d %s" % (k % n, pick(["90", "18", "1180", "180.5", "270", "x180", "0180x", "pi", "0"]))
    elif fault == "increment":
        bad = pick(["1.5", "two", "x", "1e1", "--1", "+", "1/2"])
        r = k % n
        gates[i] = "X x%d %s" % (r, bad) if n < 2 or at % 2 else "CX x%d x%d %s" % (r, (r + 1) % n, bad)
    elif fault == "two-on-a-line":
        gates[i] = gates[i] + pick([" ", " ; ", "; "]) + pick(["X x0", "H x0", "Z x%d" % (n - 1)])
    elif fault == "tof-count":
        r = ["x%d" % (j % n) for j in range(k, k + 2)]
        gates[i] = "Toffoli " + ", ".join(r)
    elif fault == "no-begin":
        begin = None
    elif fault == "no-end":
        end = None
    elif fault == "no-size":
        size = None
    elif fault == "twice":
        what = pick(["begin", "size", "end-begin"])
        if what == "begin":
            gates.insert(i, ".begin")
        elif what == "size":
            decls.insert(at % (len(decls) + 1), ".qudit %d" % n)
        else:
            gates[i:i] = [".end", ".begin"]
    elif fault == "gap":
        j = at % n
        if n == 1 or j == n - 1:
            decls = [qasm.declaration(m + 1, d, lay) for m, d in enumerate(dims)]
        else:
            decls = [qasm.declaration(m if m <= j else m + 1, d, lay) for m, d in enumerate(dims)]
        gates = ["X x0"] if k % 2 else ["X x1"]
    elif fault == "declared-twice":
        decls.insert(at % (len(decls) + 1), "qudit x%d (%d)" % (k % n, dims[k % n] + k % 2))
    elif fault == "declaration":
        decls.insert(at % (len(decls) + 1), pick(["qudit x%d" % n, "qudit", "qubit", "ququad x%d" % n, "foo", "qudit x%d (two)" % n,
                                                  "qudit x%d ()" % n, "X x0", "qudit x (3)", "qubit y"]))
    elif fault == "dimension":
        decls = [qasm.declaration(m, d, lay) if m != at % n else "qudit x%d (%s)" % (m, pick(["0", "1" if not any(o[0] == "tof2" for o in ops) else "0", "-2", "2.5", "x"]))
                 for m, d in enumerate(dims)]
    elif fault == "end-twice":
        tail = [gates[i]] * (at % 2) + [".end"] + tail
    elif fault == "no-header":
        header = []
    elif fault == "mark-replaced":
        marks = [[size, begin, end][m] for m in ((at + k) // 9 % 3, (at + k) // 3 % 3, (at + k) % 3)]
        if marks == [size, begin, end]:
            marks[k % 3] = marks[(k + 1) % 3]
        if at % 2:
            marks = [size, begin, end]
            others = [".begin", ".end", ".qudit %d" % n, ".start", ".close", ".qubit %d" % n, ".qudits %d" % n, ".finish"]
            others = [o for o in others if o != marks[k % 3] and (k % 3 or not o.startswith((".qudit ", ".qubit ")))]
            marks[k % 3] = pick(others)
        return header + [marks[0]] + decls + [marks[1]] + gates + [marks[2]] + tail
    elif fault == "mark-moved":
        how = k % 4
        if how == 0:
            return header + [begin, size] + decls + gates + [end] + tail
        if how == 1:
            return header + [size] + decls + [end] + gates + [begin] + tail
        if how == 2:
            return header + [begin] + gates + [end, size] + decls + tail
        return header + [size, end] + decls + [begin] + gates + tail
    return [l for l in header + [size] + decls + [begin] + gates + [end] + tail if l is not None]


def edited(case):
    from qudiet.qasm.qasm_parser import circuit_from_qasm

    program = qasm.edit(qasm.text(case), case["edits"])
    verdict, *meaning = qasm.strict(program)
    if any(int(n) > 60 for n in re.findall(r"\d{1,9}", program) if n != "180") or re.search(r"\d{4,}", program):
        raise Skip
    dims = sorted(int(d) for d in re.findall(r"\((\d+)\)", program))
    if gen.prod(dims) * 3 ** len(re.findall("qutrit", program)) > 20000:
        raise Skip
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            qc = circuit_from_qasm(program)
    except Exception as e:
        require(verdict != "ok", "the well-formed program\n%s\nis refused with %s: %s", program, type(e).__name__, e)
        return {"nontrivial": verdict == "bad", "classes": ["edited=" + verdict, "refused"]}
    require(verdict != "bad", "the malformed program (%s)\n%s\nwas loaded as\n%s", meaning[0], program, qc)
    if verdict == "ok":
        dims, ops = meaning
        up = qasm.promoted({"dims": dims, "ops": ops})
        api = sutil.build(up, None, [qasm.plain(o) for o in ops])
        require(str(qc) == str(api), "the program\n%s\nis loaded as\n%s\ninstead of\n%s", program, qc, api)
        if ref.size(up) <= 200:
            vec = sutil.vector(sutil.run(qc), up) if max(up) <= 10 else None
            if vec is not None:
                sutil.same(vec, ref.simulate(up, None, [qasm.plain(o) for o in ops]).ravel(), up, "the program\n%s\n" % program)
    return {"nontrivial": verdict == "ok", "classes": ["edited=" + verdict, "loaded"]}


def check(case):
    from qudiet.qasm.qasm_parser import circuit_from_qasm, parse_qasm

    if "edits" in case:
        return edited(case)
    good = qasm.text(case)
    with sut("loading the valid program\n%s\n" % good), quiet():
        circuit_from_qasm(good)
    lines = spoil(case)
    lay = qasm.Layout(case["lay"][::-1])
    if case["k"] % 2:
        lines = lines[:1] + qasm.decorate(lines[1:], lay)
    program = "\n".join(lines) + "\n"
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            if case["file"]:
                with tempfile.TemporaryDirectory(prefix="qv-qasm-") as tmp:
                    path = os.path.join(tmp, "program.qasm")
                    with open(path, "w") as f:
                        f.write(program)
                    qc = parse_qasm(path)
            else:
                qc = circuit_from_qasm(program)
    except Exception:
        return {"nontrivial": True, "classes": ["fault=" + case["fault"]]}
    try:
        shown = str(qc)
    except Exception:
        shown = repr(qc)
    raise Violation("the malformed program (%s)\n%s\nwas loaded as\n%s" % (case["fault"], program, shown))


FIXED = [
    {"dims": [2, 2], "ops": [["x", 0, 1]], "lay": [0], "fault": "word", "at": 0, "word": w, "case": 0, "k": 7, "file": False}
    for w in ("CNOTZ", "SWAP", "HX", "Y")
] + [
    {"dims": [2, 3], "ops": [["x", 0, 1]], "lay": [0], "fault": "mark-replaced", "at": 2 * (m // 2), "word": "Y", "case": 0, "k": m, "file": False}
    for m in range(27)
] + [
    {"dims": [2, 3], "ops": [["x", 0, 1]], "lay": [0], "fault": "mark-replaced", "at": 1, "word": "Y", "case": 0, "k": m, "file": False}
    for m in range(24)
]
