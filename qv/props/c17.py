"""The text drawing shows exactly the circuit."""
import re
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import quiet, require, sut

ID = "C17"
RULE = ("random circuit (up to 30 registers, dimensions up to 40, 60 gates; nothing is simulated) printed after a random "
        "prefix, at the end and once measured; every drawing is parsed back cell by cell and compared with the "
        "scheduled program; non-trivial: two or more layers and a controlled gate")
ASSUMPTIONS = ["cells are five characters wide, longer X(p) tokens as long as they are, as in the shipped drawing"]
QUICK, THOROUGH = 1900, 8000


def strategy(tier):
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["small", "small", "many", "big-dims", "deep", "crowd", "grip"]))
        kinds = ("h", "x", "x", "z", "cx", "cx", "tof")
        if kind == "many":
            n = draw(st.integers(9, 30))
            ds = [draw(st.integers(2, 5)) for _ in range(n)]
            ops = []
            for _ in range(draw(st.integers(1, 16))):
                if draw(st.integers(0, 2)) == 0:
                    a, b = list(draw(st.permutations(range(n))))[:2]
                    ops.append(["cx", a, b, draw(gen.increments(ds[b]))])
                else:
                    ops.append(draw(gen.op(ds, kinds, 60)))
            c = {"dims": ds, "init": draw(gen.states(ds)), "ops": ops}
        elif kind == "big-dims":
            c = draw(gen.circuit(cap=2000, max_regs=3, max_dim=40, max_ops=10, kinds=("h", "x", "x", "z", "cx"), spread=False))
            if draw(st.integers(0, 3)) == 0:
                c["ops"] += [["x", 0, p] for p in draw(st.lists(st.integers(-1500, 1500), max_size=3))]
        elif kind == "crowd":
            c = draw(gen.crowd(2, 130, stretch=12, max_ops=10) if draw(st.booleans()) else gen.crowd(2, 4, stretch=60, max_ops=8))
        elif kind == "grip":
            ds = [draw(st.integers(2, 12)) for _ in range(draw(st.integers(6, 12)))]
            ops = [draw(gen.grip(ds))]
            c = {"dims": ds, "init": draw(gen.states(ds)),
                 "ops": [draw(gen.op(ds, kinds, 60)) for _ in range(draw(st.integers(0, 3)))] + ops + [draw(gen.op(ds, kinds, 60))]}
        elif kind == "deep":
            c = draw(gen.circuit(cap=64, max_regs=6, max_ops=60, min_ops=15, kinds=kinds, spread=False))
        else:
            c = draw(gen.circuit(cap=200, max_regs=7, max_ops=12, kinds=kinds, max_dim=12))
        if c["ops"] and draw(st.integers(0, 7)) == 0:  # increments of any length
            i = draw(st.integers(0, len(c["ops"]) - 1))
            if c["ops"][i][0] in ("x", "cx", "tof"):
                c["ops"][i][-1] = draw(st.integers(-10**12, 10**12))
        c["cut"] = draw(st.integers(0, len(c["ops"])))
        return c

    return cases()


def text(qc):
    with sut("str(circuit)"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return str(qc)


def parse(drawing):
    """(cells, depth, width): cells[register] = [(dim, level), token, token, ...]"""
    m = re.match(r"(.*)\n\ndepth: (-?\d+), width: (\d+)$", drawing, re.S)
    require(m, "the drawing does not end with its depth and width:\n%s", drawing)
    rows = []
    for line in m.group(1).split("\n"):
        start = re.match(r"-*\((\d+)\)\|(\d+)>", line)
        require(start, "line %r does not start with a dimension and a level", line)
        row, at = [(int(start.group(1)), int(start.group(2)))], start.end()
        while at < len(line):
            if line[at] == "X":
                end = line.find(")", at) + 1
                require(end, "line %r: unfinished X(", line)
                token = line[at:end]
            else:
                end = at + 5
                token = line[at:end].strip("-")
            row.append(token)
            at = end
        rows.append(row)
    return rows, int(m.group(2)), int(m.group(3))


def expected(dims, init, ops, measured):
    n = len(dims)
    full = list(init or []) + [0] * (n - len(init or []))
    layers = ref.depth(n, ops)
    grid = [[""] * layers for _ in range(n)]
    for op, at in zip(ops, ref.schedule(n, ops)):
        kind = op[0]
        if kind in ("h", "z"):
            grid[op[1]][at] = kind.upper()
        elif kind == "x":
            grid[op[1]][at] = "X(%d)" % op[2]
        else:
            for q in ref.span(op):
                grid[q][at] = "|"
            for q in [op[1]] if kind == "cx" else op[1]:
                grid[q][at] = "*"
            grid[op[2]][at] = "X(%d)" % op[3]
    return [[(dims[q], full[q])] + grid[q] + (["M"] if measured else []) for q in range(n)], layers


def compare(qc, case, ops, measured, where):
    dims = case["dims"]
    drawing = text(qc)
    rows, depth, width = parse(drawing)
    want, layers = expected(dims, case["init"], ops, measured)
    if not measured:  # the column of the measurement may be there, empty
        rows = [r[:-1] if len(r) == layers + 2 and r[-1] == "" else r for r in rows]
    require(len(rows) == len(dims), "%s: %d lines for %d registers:\n%s", where, len(rows), len(dims), drawing)
    for q, (got, exp) in enumerate(zip(rows, want)):
        require(got == exp, "%s: register %d is drawn as %s, should be %s, in\n%s\nfor %s", where, q, got, exp, drawing, ops)
    require((depth, width) == (layers, len(dims)), "%s: the drawing states depth %d and width %d, should be %d and %d:\n%s",
            where, depth, width, layers, len(dims), drawing)
    with sut("draw()"), quiet() as printed, warnings.catch_warnings():
        warnings.simplefilter("ignore")
        qc.draw()
    require(printed.getvalue().rstrip("\n") == drawing, "draw() prints\n%s\nwhile str() is\n%s", printed.getvalue(), drawing)


def check(case):
    dims, ops = case["dims"], case["ops"]
    qc = sutil.new(list(dims), case["init"])
    for i, op in enumerate(ops):
        if i == case["cut"]:
            compare(qc, case, ops[:i], False, "after %d gates" % i)
        with sut("gate %d %s" % (i, op)):
            require(sutil.place(qc, op, dims) is True, "gate %d %s was not accepted", i, op)
    compare(qc, case, ops, False, "before measuring")
    with sut("measure_all()"):
        qc.measure_all()
    compare(qc, case, ops, True, "measured")
    return {"nontrivial": ref.depth(len(dims), ops) >= 2 and gen.key_ops(case) > 0,
            "classes": gen.classify(case) + (["regs>=10"] if len(dims) >= 10 else [])
            + (["long-token"] if any(o[0] in ("x", "cx", "tof") and len("X(%d)" % o[-1]) > 5 for o in ops) else [])}


FIXED = [
    {"dims": [2, 2, 3, 3, 2, 2], "init": [0, 1, 0, 0, 0, 0], "cut": 2,
     "ops": [["cx", 0, 2, 2], ["x", 4, 10], ["z", 0], ["x", 1, -12], ["h", 5], ["tof", [2, 5], 3, 1], ["tof", [5], 1, -2]]},
    {"dims": [12, 2], "init": [11], "ops": [], "cut": 0},
]
