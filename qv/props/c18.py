"""The Matplotlib drawing shows exactly the circuit."""
import math
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C18"
RULE = ("random circuit (custom gates included, up to 12 registers, 40 gates, dimensions up to 30; nothing is simulated) drawn before "
        "and after measuring with two compress factors; the artists of all figures are decoded into registers, wires and layers of "
        "gates and compared with the scheduled program; non-trivial: three or more layers and a gate on several registers")
ASSUMPTIONS = ["Agg backend; plt.show() is replaced by a function that keeps the figures",
               "a CNOT between qubits may be drawn with the circled plus, others as X^{+plus}_{dim}"]
QUICK, THOROUGH = 110, 2500


def strategy(tier):
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["small", "small", "many", "deep", "qubits", "qubits", "long", "crowd", "grip"]))
        if kind == "many":
            n = draw(st.integers(7, 12))
            ds = [draw(st.integers(2, 4)) for _ in range(n)]
            ops = []
            for _ in range(draw(st.integers(1, 10))):
                if draw(st.booleans()):
                    a, b = list(draw(st.permutations(range(n))))[:2]
                    ops.append(["cx", a, b, draw(gen.increments(ds[b]))])
                else:
                    ops.append(draw(gen.op(ds, gen.ALL, 60)))
            c = {"dims": ds, "init": draw(gen.states(ds)), "ops": ops}
        elif kind == "long":
            n = draw(st.integers(8, 12))
            ds = [draw(st.integers(2, 3)) for _ in range(n)]
            c = {"dims": ds, "init": draw(gen.states(ds)),
                 "ops": [draw(gen.op(ds, ("cx", "cx", "tof", "x"), 60)) for _ in range(draw(st.integers(18, 40)))]}
        elif kind == "crowd":
            c = draw(gen.crowd(9, 30, kinds=gen.ALL, max_ops=4, stretch=2) if draw(st.booleans()) else gen.crowd(2, 3, kinds=gen.ALL, stretch=12, max_ops=5))
        elif kind == "grip":
            ds = [draw(st.integers(2, 3)) for _ in range(draw(st.integers(6, 10)))]
            ops = [draw(gen.grip(ds))]
            c = {"dims": ds, "init": draw(gen.states(ds)),
                 "ops": [draw(gen.op(ds, gen.ALL, 60)) for _ in range(draw(st.integers(0, 3)))] + ops + [draw(gen.op(ds, gen.ALL, 60))]}
        elif kind == "deep":
            c = draw(gen.circuit(cap=64, max_regs=5, max_ops=40, min_ops=10, spread=False))
        elif kind == "qubits":
            n = draw(st.integers(2, 6))
            ds = [2] * n
            c = {"dims": ds, "init": draw(gen.states(ds)),
                 "ops": [draw(gen.op(ds, ("cx", "cx", "tof", "x", "arb", "z"), 64)) for _ in range(draw(st.integers(1, 12)))]}
        else:
            c = draw(gen.circuit(cap=300, max_regs=6, max_ops=10, max_dim=30, spread=False))
        # numbers of many digits need more room than a figure has
        c["ops"] = [op[:-1] + [op[-1] % 97] if op[0] in ("x", "cx", "tof") and abs(op[-1]) > 999 else op for op in c["ops"]]
        c["compress"] = draw(st.sampled_from([[1, 2], [1, 3], [1, 0.5], [2, 5], [1, 1.5], [None, 4], [None, 40], [40, 1]]))
        if len(c["dims"]) > 12:  # the figures would take gigabytes
            c["compress"] = [k and min(k, 4) for k in c["compress"]]
        c["measured"] = draw(st.sampled_from([True, True, False]))
        return c

    return cases()


def draw(qc, compress):
    """What every figure shows: [(texts, lines, boxes, size)]"""
    import matplotlib.pyplot as plt

    plt.close("all")
    shown = []

    def show(*a, **k):
        shown.append([plt.figure(i) for i in plt.get_fignums()])

    keep, plt.show = plt.show, show
    try:
        with sut("draw('mpl', compress=%s)" % compress), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            qc.draw("mpl") if compress is None else qc.draw("mpl", compress=compress)
        require(len(shown) == 1, "plt.show() was called %d times", len(shown))
        figures = []
        for f in shown[0]:
            require(len(f.axes) == 1, "a figure has %d axes", len(f.axes))
            ax = f.axes[0]
            texts = []
            for t in ax.texts:
                pos = t.xy if hasattr(t, "xy") else t.get_position()
                texts.append((float(pos[0]), float(pos[1]), t.get_text()))
            lines = []
            for l in ax.lines:
                xs, ys = [float(v) for v in l.get_xdata()], [float(v) for v in l.get_ydata()]
                lines.append((xs, ys, l.get_marker(), marked(l, len(xs))))
            boxes = [(float(p.get_x()), float(p.get_y()), float(p.get_height())) for p in ax.patches]
            legible(ax)
            figures.append((texts, lines, boxes, tuple(map(float, ax.get_xlim() + ax.get_ylim()))))
        return figures
    finally:
        plt.show = keep
        plt.close("all")


def marked(line, n):
    """Which of the line's points carry a marker."""
    every = line.get_markevery()
    if line.get_marker() in (None, "", " ", "None", "none"):
        return [False] * n
    if every is None:
        return [True] * n
    if isinstance(every, int):
        every = slice(0, None, every)
    if isinstance(every, slice):
        return [i in range(n)[every] for i in range(n)]
    every = list(every)
    if len(every) == n and all(isinstance(e, (bool, np.bool_)) for e in every):
        return [bool(e) for e in every]
    chosen = {int(e) % n for e in every}
    return [i in chosen for i in range(n)]


def legible(ax):
    """No two glyphs of one wire are drawn over one another."""
    rows = {}
    for t in ax.texts:
        pos, s = t.xy if hasattr(t, "xy") else t.get_position(), t.get_text()
        if s in ("MSB", "LSB", "G"):
            continue
        e = t.get_window_extent()
        rows.setdefault(round(float(pos[1]) + 0.05), []).append((float(e.x0), float(e.x1), s))
    for p in ax.patches:
        e = p.get_window_extent()
        lo, hi = float(p.get_y()) + 0.1, float(p.get_y() + p.get_height()) - 0.1
        for y in range(round(lo), round(hi) + 1):
            rows.setdefault(y, []).append((float(e.x0), float(e.x1), "a box"))
    for l in ax.lines:
        if l.get_marker() == "+":
            x = float(ax.transData.transform((float(l.get_xdata()[0]), 0))[0])
            r = float(l.get_markersize()) * ax.figure.dpi / 72 / 2
            rows.setdefault(round(float(l.get_ydata()[0])), []).append((x - r, x + r, "a circled plus"))
    names = [t.xy if hasattr(t, "xy") else t.get_position() for t in ax.texts if t.get_text() == "G"]
    for p in ax.patches:
        x, y = float(p.get_x()), float(p.get_y())
        own = [n for n in names if x <= n[0] <= x + float(p.get_width()) and y <= n[1] <= y + float(p.get_height())]
        require(len(own) <= 1 and len(names) <= len(ax.patches) and (own or not names),
                "a box at (%s, %s) holds %d names, the figure has %d for %d boxes", x, y, len(own), len(names), len(ax.patches))
    for y, here in rows.items():
        here.sort()
        for (a0, a1, a), (b0, b1, b) in zip(here, here[1:]):
            require(a1 <= b0 + 0.5, "%s and %s of register %d are drawn over one another (pixels %.0f-%.0f and %.0f-%.0f)",
                    a, b, y - 1, a0, a1, b0, b1)


GATE = re.compile(r"^\$(?:X\^\{\+(-?\d+)\}_\{(\d+)\}|([HZMG]))\$$")


def decode(figures, n):
    """(initial labels, layers); a layer is a sorted list of glyphs."""
    labels, layers = {}, []
    for k, (texts, lines, boxes, (x0, x1, y0, y1)) in enumerate(figures):
        glyphs, connect, marks, wires = [], [], [], []
        inside = lambda x, y: x0 <= x < x1 and y0 <= y <= y1
        for x, y, s in texts:
            if s in ("MSB", "LSB"):
                continue
            m = re.match(r"^\$Q\^\{(\d+)D\}_\{(\d+)\}\|(\d+)>\$$", s)
            if m:
                require(k == 0 and int(m.group(2)) not in labels, "label %s is repeated or not on the first figure", s)
                require(abs(y - int(m.group(2)) - 1) < 0.5, "label %s is drawn at height %s", s, y)
                require(inside(x, y), "label %s is outside the figure", s)
                labels[int(m.group(2))] = (int(m.group(1)), int(m.group(3)))
                continue
            if s == "G":
                continue  # inside a box
            g = GATE.match(s)
            require(g, "unexpected text %r in the drawing", s)
            require(abs(y - round(y)) < 1e-6 and inside(x, y), "gate %s is drawn at (%s, %s)", s, x, y)
            glyphs.append((x, (("X", int(g.group(1)), int(g.group(2))) if g.group(1) is not None else (g.group(3),)), int(round(y)) - 1))
        for xs, ys, marker, every in lines:
            dots = [int(round(y)) - 1 for y, e in zip(ys, every) if e]
            if len(xs) == 2 and ys[0] == ys[1] and xs[0] != xs[1] and not dots:
                wires.append(int(round(ys[0])))
            elif marker == "+":
                require(len(dots) == 1, "a circled plus on %s", dots)
                glyphs.append((xs[0], ("CNOT",), dots[0]))
            elif marker == "o" and len(xs) >= 2:
                require(max(xs) - min(xs) < 1e-9, "a connection is not vertical")
                connect.append((xs[0], int(round(min(ys))) - 1, int(round(max(ys))) - 1, sorted(dots)))
            elif marker == 9:
                marks.append((xs[0], sorted(dots)))
        require(sorted(wires) == list(range(1, n + 1)), "figure %d has wires at %s for %d registers", k + 1, sorted(wires), n)
        for x, y, h in boxes:
            glyphs.append((x, ("BOX", int(round(y + 0.1 - 1)), int(round(y + h - 0.1 - 1))), None))
        starts = sorted({g[0] for g in glyphs})
        here = [[] for _ in starts]
        for x, what, q in glyphs:
            here[starts.index(x)].append([what, q])
        for x, lo, hi, marked in connect:
            i = max((i for i, s in enumerate(starts) if s <= x + 1e-9), default=None)
            require(i is not None, "a connection before the first gate")
            here[i].append([("LINE", lo, hi, tuple(marked)), None])
        for x, marked in marks:
            require(x in starts, "connection marks without a box")
            here[starts.index(x)].append([("PINS",) + tuple(marked), None])
        layers += [sorted(h, key=repr) for h in here]
    return labels, layers


def expected(dims, ops, measured):
    n = len(dims)
    layers = [[] for _ in range(ref.depth(n, ops))]
    for op, at in zip(ops, ref.schedule(n, ops)):
        kind, put = op[0], layers[at].append
        if kind in ("h", "z"):
            put([(kind.upper(),), op[1]])
        elif kind == "x":
            put([("X", op[2], dims[op[1]]), op[1]])
        elif kind == "arb":
            if len(op[1]) == 1:
                put([("G",), op[1][0]])
            else:
                put([("BOX", min(op[1]), max(op[1])), None])
                put([("PINS",) + tuple(sorted(op[1])), None])
        else:
            controls = [op[1]] if kind == "cx" else list(op[1])
            s = ref.span(op)
            put([("LINE", s[0], s[-1], tuple(sorted(controls))), None])
            put([("X", op[3], dims[op[2]]), op[2]])
    if measured:
        layers.append([[("M",), q] for q in range(n)])
    return [sorted(l, key=repr) for l in layers]


def plain_cnots(layers, want, dims):
    """A circled plus says X^{+1}_{2} controlled by a qubit, whatever odd increment was asked for."""
    out = []
    for i, layer in enumerate(layers):
        swapped = []
        for what, q in layer:
            if what == ("CNOT",):
                asked = [w for w, r in want[i] if w[0] == "X" and r == q] if i < len(want) else []
                line = [w for w, r in want[i] if w[0] == "LINE"] if i < len(want) else []
                if len(asked) == 1 and asked[0][2] == 2 and asked[0][1] % 2 == 1 and len(line) == 1 and len(line[0][3]) == 1 \
                        and dims[line[0][3][0]] == 2:
                    what = asked[0]
            swapped.append([what, q])
        out.append(sorted(swapped, key=repr))
    return out


def check(case):
    dims, ops, n = case["dims"], case["ops"], len(case["dims"])
    qc = sutil.build(dims, case["init"], ops, measure=case["measured"])
    full = list(case["init"] or []) + [0] * (n - len(case["init"] or []))
    want = expected(dims, ops, case["measured"])
    most, counts = 0, []
    for compress in case["compress"]:
        figures = draw(qc, compress)
        most = max(most, len(figures))
        counts.append((compress or 1, len(figures)))
        labels, layers = decode(figures, n)
        require(labels == {q: (dims[q], full[q]) for q in range(n)}, "registers (dimension, level) are drawn as %s, should be %s",
                labels, list(zip(dims, full)))
        layers = plain_cnots(layers, want, dims)
        for i in range(max(len(layers), len(want))):
            got = layers[i] if i < len(layers) else "nothing"
            exp = want[i] if i < len(want) else "nothing"
            require(got == exp, "layer %d (compress %s) is drawn as %s, should be %s; program %s on %s", i, compress, got, exp, ops, dims)
    counts.sort()
    require(all(a[1] >= b[1] for a, b in zip(counts, counts[1:])), "a higher compress factor gives more figures: %s", counts)
    require(counts[-1][0] < 40 or counts[0][1] == 1 or counts[-1][1] < counts[0][1], "a high compress factor gives no fewer figures: %s", counts)
    return {"nontrivial": len(want) >= 3 and gen.key_ops(case) > 0,
            "classes": gen.classify(case) + ["figures=%d" % most if most < 3 else "figures>=3"] + (["measured"] if case["measured"] else [])}


FIXED = [
    {"dims": [2, 2, 3, 2, 4], "init": [1, 0, 2, 1, 3], "compress": [None, 3], "measured": True,
     "ops": [["cx", 0, 1, 1], ["cx", 3, 0, -1], ["cx", 3, 4, 2], ["tof", [4, 1], 2, 1], ["arb", [1], ["perm", [1]]],
             ["arb", [2, 3], ["diag", [1, 2]]], ["x", 2, -1], ["h", 0], ["z", 1], ["cx", 0, 3, 2], ["tof", [1], 0, 3]]},
]
