"""Standard gate operators, rebuilt column by column through one-gate circuits."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require

ID = "C02"
RULE = ("one gate (H, Z, X, CX, Toffoli) on sampled dimensions, increments and placements, its operator "
        "rebuilt from runs started in every basis state and compared with the closed form, plus the "
        "algebraic laws on the rebuilt operators; non-trivial: dimension >= 3 somewhere, or a controlled gate")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 230, 1200
BACKS = ["numpy", "sparse", None]


def strategy(tier):
    top = 120 if tier == "thorough" else 48
    cap = 160 if tier == "thorough" else 72

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["h", "z", "x", "x", "cx", "cx", "cx", "tof", "tof", "tof", "laws"]))
        back = draw(st.sampled_from(BACKS))
        if kind in ("h", "z", "x"):
            d = draw(st.one_of(st.integers(2, 12), st.integers(2, top), st.integers(2, top), st.sampled_from(gen.BIG)))
            op = [kind, 0] + ([draw(st.one_of(gen.increments(d, True), st.integers(-10**6, 10**6)))] if kind == "x" else [])
            return {"dims": [d], "ops": [op], "backend": back}
        if kind == "laws":
            d = draw(st.integers(2, 16))
            return {"law": True, "d": d, "p": draw(gen.increments(d, True)),
                    "q": draw(gen.increments(d, True)), "backend": back}
        shape = draw(st.sampled_from(["near", "any", "big", "many", "huge", "twins"]))
        if shape == "twins":  # levels of two digits side by side
            small = draw(st.lists(st.integers(2, 3), min_size=1, max_size=2 if kind == "tof" else 1))
            ds = list(draw(st.permutations(small[:2] + [draw(st.integers(10, 14)), draw(st.integers(10, 14))])))
            if gen.prod(ds) > 480:
                ds.remove(small[0])
            order = draw(st.permutations(range(len(ds))))
            k = 1 if kind == "cx" else draw(st.integers(1, len(ds) - 1))
            p = draw(gen.increments(ds[order[k]]))
            op = ["cx", order[0], order[1], p] if kind == "cx" else ["tof", list(order[:k]), order[k], p]
            return {"dims": ds, "backend": back, "ops": [op]}
        if shape == "huge" and kind == "tof" and draw(st.booleans()):
            ds = [draw(st.sampled_from(gen.BIG)), 2] + ([2] if draw(st.booleans()) else [])
            order = draw(st.permutations(range(len(ds))))
            ds = list(draw(st.permutations(ds)))
            k = draw(st.integers(1, len(ds) - 1))
            return {"dims": ds, "backend": back, "ops": [["tof", list(order[:k]), order[k], draw(gen.increments(ds[order[k]]))]]}
        if shape == "huge" and kind == "cx":
            ds = list(draw(gen.huge(max_ops=0))["dims"])
            ds = ds if len(ds) == 2 else ds + [2]
            c = draw(st.integers(0, 1))
            return {"dims": ds, "backend": back, "ops": [["cx", c, 1 - c, draw(gen.increments(ds[1 - c]))]]}
        if shape in ("many", "huge"):
            ds = draw(st.one_of(gen.dims(cap=300, max_regs=8, max_dim=4, min_regs=4),
                                st.integers(5, 8).map(lambda n: [2] * n)))
            order = draw(st.permutations(range(len(ds))))
            k = 1 if kind == "cx" else draw(st.integers(min(3, len(ds) - 1), len(ds) - 1))
            p = draw(gen.increments(ds[order[k]]))
            op = ["cx", order[0], order[1], p] if kind == "cx" else ["tof", list(order[:k]), order[k], p]
            return {"dims": ds, "ops": [op], "backend": back}
        if shape == "big":
            ds = draw(gen.dims(cap=cap * 2, max_regs=2, max_dim=14, min_regs=2))
        else:
            ds = draw(gen.dims(cap=cap, max_regs=3 if shape == "near" else 6, max_dim=6, min_regs=2))
        op = draw(gen.op(ds, [kind], span_cap=512))
        if draw(st.integers(0, 2)) == 0:
            op[-1] = draw(st.one_of(st.integers(-1000, 1000), st.sampled_from(gen.FAR)))
        return {"dims": ds, "ops": [op], "backend": back}

    return cases()


def operator(dims, ops, backend):
    """The matrix of a circuit: column k is what it makes of basis state k."""
    n = ref.size(dims)
    out = None if max(dims) <= 10 else sutil.output(dims, "state", "amplitude")
    cols = []
    for k in range(n):
        init = ref.digits_of(k, dims)
        qc = sutil.build(dims, init, ops, backend, out)
        cols.append(sutil.vector(sutil.run(qc), dims, "state" if out else "print"))
    return np.array(cols).T


def close(a, b, what):
    d = np.abs(a - b)
    require(np.max(d) <= 1e-10, "%s (largest difference %.3g)", what, float(np.max(d)))


def check(case):
    if case.get("law"):
        return laws(case)
    dims, op = case["dims"], case["ops"][0]
    if ref.size(dims) > 100:
        return big_gate(case)
    got = operator(dims, case["ops"], case["backend"])
    want = {
        "h": lambda: ref.hadamard(dims[0]),
        "z": lambda: ref.clock(dims[0]),
        "x": lambda: ref.shift(dims[0], op[2]),
        "cx": lambda: ref.controlled_shift(dims, [op[1]], op[2], op[3]),
        "tof": lambda: ref.controlled_shift(dims, op[1], op[2], op[3]),
    }[op[0]]()
    bad = np.argwhere(np.abs(got - want) > 1e-10)
    if len(bad):
        row, col = (ref.digits_of(int(i), dims) for i in bad[0])
        require(False, "%s on registers %s takes %s to amplitude %s at %s, should be %s", op, dims,
                ref.label(col), sutil.fmt(got[tuple(bad[0])]), ref.label(row), sutil.fmt(want[tuple(bad[0])]))
    close(got.conj().T @ got, np.eye(len(got)), "%s on %s is not unitary" % (op, dims))
    return {"nontrivial": max(dims) > 2 or len(dims) > 1,
            "classes": gen.classify({"dims": dims, "ops": [op]}) + ["op=" + op[0]]}


def big_gate(case):
    """Operators with many columns: some columns where controls fire or nearly fire, and a generic product state."""
    dims, op, back = case["dims"], case["ops"][0], case["backend"]
    kind = "state" if max(dims) > 10 else "print"
    out = sutil.output(dims, kind, "amplitude")
    regs = ref.registers(op)
    top = [d - 1 for d in dims]
    starts = [top, [0] * len(dims)]
    for i, r in enumerate(regs):
        for level in {0, dims[r] // 2, max(0, dims[r] - 2)}:
            starts.append([level if q == r else d for q, d in enumerate(top)])
    for init in starts:
        got = sutil.vector(sutil.run(sutil.build(dims, init, [op], back, out)), dims, kind)
        sutil.same(got, ref.simulate(dims, init, [op]).ravel(), dims, "%s on %s from %s" % (op, dims, init))
    generic = [["arb", [q], ["real", [q + 1, 2, 5]]] for q in range(len(dims)) if dims[q] <= 40] + [op]
    got = sutil.vector(sutil.run(sutil.build(dims, None, generic, back, out)), dims, kind)
    sutil.same(got, ref.simulate(dims, None, generic).ravel(), dims, "%s on a generic state of %s" % (op, dims))
    return {"nontrivial": True, "classes": gen.classify({"dims": dims, "ops": [op]}) + ["op=" + op[0], "big-operator"]}


def laws(case):
    d, p, q, back = case["d"], case["p"], case["q"], case["backend"]
    power = lambda m, k: np.linalg.matrix_power(m, k)
    one = np.eye(d)
    H = operator([d], [["h", 0]], back)
    Z = operator([d], [["z", 0]], back)
    X = operator([d], [["x", 0, 1]], back)
    Xp, Xq = operator([d], [["x", 0, p]], back), operator([d], [["x", 0, q]], back)
    close(power(H, 4), one, "H^4 is not the identity for d=%d" % d)
    close(power(Z, d), one, "Z^d is not the identity for d=%d" % d)
    close(power(X, d), one, "X^d is not the identity for d=%d" % d)
    close(Xp @ Xq, operator([d], [["x", 0, p + q]], back), "X(%d) X(%d) is not X(%d) for d=%d" % (p, q, p + q, d))
    close(Xp, power(X, p % d), "X(%d) is not X^%d for d=%d" % (p, p % d, d))
    conj = H.conj().T @ Z @ H
    require(np.allclose(conj, X, atol=1e-10) or np.allclose(conj, X.T, atol=1e-8),
            "H does not exchange Z and X for d=%d", d)
    if d <= 6:
        c = operator([3, d], [["cx", 0, 1, p]], back)
        close(power(c, d), np.eye(3 * d), "CX(%d)^d is not the identity for d=%d" % (p, d))
    return {"nontrivial": d > 2, "classes": ["laws"]}


FIXED = (
    [{"dims": [d], "ops": [[k, 0]], "backend": BACKS[d % 2]} for d in range(2, 33) for k in "hz"]
    + [{"dims": [d], "ops": [["x", 0, p]], "backend": BACKS[(d + p) % 2]} for d in range(2, 8) for p in range(-d - 1, 2 * d + 2)]
    + [{"dims": [a, b], "ops": [["cx", c, 1 - c, p]], "backend": BACKS[(a + b) % 2]}
       for a in range(2, 6) for b in range(2, 6) for c in (0, 1) for p in (1, -1, 3)]
    + [{"dims": [2, 3, 2, 2], "ops": [["tof", list(c), t, 1]], "backend": BACKS[t % 2]}
       for c, t in [((0, 1), 2), ((0, 1), 3), ((2, 0), 1), ((3, 1), 0), ((1, 0, 2), 3), ((3, 2, 0), 1),
                    ((0,), 1), ((3,), 0), ((2,), 0)]]
)
