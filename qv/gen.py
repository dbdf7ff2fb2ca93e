"""Hypothesis strategies for circuits as plain data."""
import math

from hypothesis import strategies as st


@st.composite
def dims(draw, cap=64, max_regs=6, max_dim=9, min_regs=1):
    """Register dimensions with product <= cap."""
    shape = draw(st.sampled_from(["any", "any", "any", "qubits", "equal", "one-big"]))
    n = draw(st.integers(min_regs, max(min_regs, min(max_regs, int(math.log2(cap))))))
    if shape == "qubits":
        return [2] * n
    if shape == "equal":
        top = max(2, min(max_dim, int(cap ** (1.0 / n) + 1e-9)))
        return [draw(st.integers(2, top))] * n
    out, room = [], cap
    for i in range(n):
        top = max(2, min(max_dim, room // 2 ** (n - i - 1)))
        d = draw(st.integers(2, top if shape == "one-big" else min(top, 5)))
        out.append(d)
        room //= d
    return draw(st.permutations(out))


@st.composite
def states(draw, ds):
    """Initial states; often the top level, which makes controls fire."""
    mode = draw(st.sampled_from(["any", "any", "top", "zero", "short", "none"]))
    if mode == "none":
        return None
    if mode == "top":
        return [d - 1 for d in ds]
    if mode == "zero":
        return [0] * len(ds)
    full = [draw(st.one_of(st.just(d - 1), st.integers(0, d - 1))) for d in ds]
    if mode == "short":
        return full[: draw(st.integers(0, len(ds)))]
    return full


FAR = [s * 2 ** k + e for k in (8, 16, 31, 32, 53, 54, 62, 63, 64, 70) for s in (1, -1) for e in (-1, 0, 1)] + [10 ** 9 + 7, -10 ** 20 - 1]


def increments(d, far=False):
    near = [st.just(1), st.integers(1, d - 1), st.integers(-2 * d, 2 * d)]
    return st.one_of(*near * (1 if far else 6), st.sampled_from(FAR))


def specs(kinds=("herm", "perm", "diag", "real", "tiny")):
    return st.tuples(
        st.sampled_from(list(kinds)), st.lists(st.integers(-6, 6), min_size=1, max_size=12)
    ).map(list)


def prod(xs):
    return math.prod(xs)


@st.composite
def op(draw, ds, kinds, span_cap=128):
    """One operation that fits the registers."""
    n = len(ds)
    kinds = [k for k in kinds if k not in ("cx", "tof") or n >= 2]
    kind = draw(st.sampled_from(kinds))
    if kind in ("h", "z"):
        return [kind, draw(st.integers(0, n - 1))]
    if kind == "x":
        q = draw(st.integers(0, n - 1))
        return ["x", q, draw(increments(ds[q]))]
    if kind == "arb":
        lo = draw(st.integers(0, n - 1))
        hi = lo
        while hi + 1 < n and prod(ds[lo : hi + 2]) <= min(span_cap, 36) and draw(st.booleans()):
            hi += 1
        return ["arb", list(range(lo, hi + 1)), draw(specs())]
    # a window of registers small enough, then distinct registers inside it
    lo = draw(st.integers(0, n - 2))
    hi = lo + 1
    want = draw(st.integers(lo + 1, n - 1))
    while hi < want and prod(ds[lo : hi + 2]) <= span_cap:
        hi += 1
    window = list(range(lo, hi + 1))
    order = draw(st.permutations(window))
    if kind == "cx":
        far = draw(st.integers(0, 7))  # often the two ends of the window
        if far < 3:
            order = [lo, hi] if far else [hi, lo]
        c, t = order[0], order[1]
        return ["cx", c, t, draw(increments(ds[t]))]
    top = len(order) - 1
    k = draw(st.one_of(st.integers(1, min(4, top)), st.integers(1, top)))
    t = order[k]
    return ["tof", list(order[:k]), t, draw(increments(ds[t]))]


ALL = ("h", "x", "z", "cx", "cx", "tof", "arb")


@st.composite
def circuit(draw, cap=64, max_regs=6, max_dim=9, max_ops=14, kinds=ALL, span_cap=128,
            min_regs=1, min_ops=0, spread=True, repeat=1):
    """{"dims", "init", "ops"}; half of the circuits start by putting registers in
    superposition, so that a later gate is seen acting on many basis states."""
    ds = draw(dims(cap, max_regs, max_dim, min_regs))
    init = draw(states(ds))
    ops = []
    if spread and "h" in kinds and draw(st.booleans()):
        for q in range(len(ds)):
            if prod(ds[: q + 1]) <= 300:
                how = draw(st.sampled_from(["h", "h", "arb", "-"]))
                if how == "h":
                    ops.append(["h", q])
                elif how == "arb" and "arb" in kinds:
                    ops.append(["arb", [q], draw(specs(("herm", "real")))])
    length = draw(st.integers(min_ops, max_ops))
    for _ in range(length):
        ops.append(draw(op(ds, kinds, span_cap)))
    if repeat > 1:
        ops = ops * draw(st.integers(1, repeat))
    return {"dims": ds, "init": init, "ops": ops}


BIG = (31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300)


@st.composite
def huge(draw, kinds=ALL, max_ops=5, top=300):
    """One register of a large dimension, perhaps with a small neighbour."""
    d = draw(st.one_of(st.sampled_from([b for b in BIG if b <= top]), st.integers(20, top)))
    ds = [d]
    if draw(st.booleans()):
        ds = draw(st.permutations([d, draw(st.integers(2, max(2, min(5, 2 * top // d))))]))
    init = [draw(st.one_of(st.just(k - 1), st.integers(0, k - 1))) for k in ds]
    ops = [draw(op(ds, [k for k in kinds if k != "arb"], 2 * top + 1))
           for _ in range(draw(st.integers(0, max_ops)))]
    return {"dims": ds, "init": init, "ops": ops}


@st.composite
def many(draw, lo=10, hi=12, cap=4096, max_ops=9, span_cap=96, mixing=4):
    """Many small registers, few of which are put in superposition."""
    n = draw(st.integers(lo, hi))
    ds = [2] * n
    for _ in range(draw(st.integers(0, 3))):
        q = draw(st.integers(0, n - 1))
        if prod(ds) // ds[q] * 3 <= cap:
            ds[q] = 3
    if draw(st.booleans()):
        q = draw(st.integers(0, n - 1))
        ds[q] = max(ds[q], draw(st.integers(2, max(2, min(12, cap * ds[q] // prod(ds))))))
    grips = [draw(grip(ds))] if draw(st.integers(0, 4)) == 0 else []
    ops = []
    for _ in range(draw(st.integers(0, mixing))):
        ops.append(draw(op(ds, ("h", "h", "z", "arb"), 12)))
    for _ in range(draw(st.integers(1, max_ops))):
        ops.append(draw(op(ds, ("x", "cx", "cx", "tof", "z"), span_cap)))
    for g in grips:  # controls brought to their top levels, mostly
        ops += [["x", q, ds[q] - 1] for q in g[1] if draw(st.integers(0, 3))] + [g] if g[0] == "tof" else []
    if draw(st.booleans()):
        ops.append(draw(op(ds, ("h", "arb"), 12)))
    return {"dims": ds, "init": draw(states(ds)), "ops": ops}


@st.composite
def grip(draw, ds, cap=520):
    """A Toffoli with five or more controls, on registers made small for it (changes ds); perhaps it crosses others."""
    n = len(ds)
    width = draw(st.sampled_from([6, 7, 8, 8, 9]))
    if n < width:
        return ["x", 0, 1]
    lo = draw(st.integers(0, n - width))
    for q in range(lo, lo + width):
        ds[q] = 2
    q = draw(st.integers(lo, lo + width - 1))
    ds[q] = draw(st.integers(2, max(2, min(4, cap >> (width - 1)))))
    k = draw(st.integers(5, width - 1))
    order = list(draw(st.permutations(range(lo, lo + width))))
    return ["tof", order[:k], order[k], draw(increments(ds[order[k]]))]


@st.composite
def crowd(draw, lo=10, hi=30, kinds=("h", "x", "x", "z", "cx", "tof"), max_ops=8, stretch=6, span_cap=60):
    """Many registers and layers, not meant to be simulated."""
    n = draw(st.integers(lo, hi) if hi < 40 else st.one_of(st.integers(lo, 40), st.integers(lo, hi)))
    if n > 40:
        max_ops, stretch = min(max_ops, 3), 1
    tile = draw(st.lists(st.integers(2, 4), min_size=1, max_size=3))
    ds = [tile[q % len(tile)] for q in range(n)]
    for _ in range(draw(st.integers(0, 2))):
        ds[draw(st.integers(0, n - 1))] = draw(st.integers(2, 13))
    grips = [draw(grip(ds))] if "tof" in kinds and n > 5 and draw(st.integers(0, 2)) == 0 else []
    ops = []
    for _ in range(draw(st.integers(1, max_ops))):
        how = draw(st.sampled_from(["op", "op", "op", "far", "wall"]))
        if how == "op":
            ops.append(draw(op(ds, kinds, span_cap)))
        elif how == "far" and "cx" in kinds:
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(1, n - 1))
            b = (a + b) % n
            ops.append(["cx", a, b, draw(increments(ds[b]))])
        else:
            kind, step = draw(st.sampled_from([k for k in kinds if k in ("h", "x", "z")])), draw(st.sampled_from([1, -1, 2, 3]))
            for q in range(n)[::step]:
                ops.append([kind, q] + ([1 + q % 3] if kind == "x" else []))
    ops = ops * draw(st.integers(1, stretch)) + grips
    return {"dims": ds, "init": draw(states(ds)), "ops": ops}


def classify(case):
    """Classes of a circuit, for the evidence."""
    ds, ops = case["dims"], case["ops"]
    c = ["regs=%d" % len(ds)]
    if max(ds) >= 4:
        c.append("dim>=4")
    if max(ds) >= 10:
        c.append("dim>=10")
    if len(set(ds)) > 1:
        c.append("mixed-dims")
    for k in ("h", "x", "z", "cx", "tof", "arb"):
        if any(o[0] == k for o in ops):
            c.append("has-" + k)
    if any(o[0] == "cx" and o[1] > o[2] for o in ops):
        c.append("control-below-target")
    if any(o[0] == "cx" and abs(o[1] - o[2]) > 1 for o in ops):
        c.append("cx-spans-others")
    if any(o[0] == "tof" and len(o[1]) >= 3 for o in ops):
        c.append("tof>=3-controls")
    if any(o[0] == "arb" and len(o[1]) > 1 for o in ops):
        c.append("arb-multi")
    if any(o[0] in ("x", "cx", "tof") and not 0 < o[-1] for o in ops):
        c.append("plus<=0")
    if len(ops) >= 10:
        c.append("ops>=10")
    return c


def key_ops(case):
    """Number of gates that act on two or more registers."""
    return sum(o[0] in ("cx", "tof") or (o[0] == "arb" and len(o[1]) > 1) for o in case["ops"])
