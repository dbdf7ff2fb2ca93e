"""QASM Toffolis raise their second control by one level, once."""
import re
import warnings

from hypothesis import strategies as st

from .. import gen, qasm, ref, sutil
from ..core import require, sut
from . import c14

ID = "C16"
RULE = ("random programs with one to six Toffoli statements sharing registers in random roles, and X statements that bring "
        "controls to the levels around the top, a quarter with a second control declared with one level; registers read off the drawing, result compared with the reference on the "
        "raised registers; non-trivial: a register is second control of two Toffolis, or second control of one and control/target of another, "
        "or some Toffoli fires")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 1600, 5000


def strategy(tier):
    @st.composite
    def cases(draw):
        how = draw(st.integers(0, 15))
        if how < 2:
            return draw(long())
        if how == 2:
            return draw(tall())
        n = draw(st.sampled_from([3, 3, 4, 4, 5, 5, 6, 11]))
        if n == 11:
            ds = [2] * n
        else:
            ds = [draw(st.integers(2, 4 if n < 5 else 2 + (i < 2))) for i in range(n)]
        hot = list(draw(st.permutations(range(n))))[: min(n, 5)]
        single = draw(st.integers(0, n - 1)) if n < 11 and draw(st.integers(0, 3)) == 0 else None
        if n == 11:
            lo = draw(st.integers(0, n - 3))
            hot = list(range(max(0, lo - 1), min(n, lo + 3)))
        tofs = [["tof2"] + list(draw(st.permutations(hot)))[:3] for _ in range(draw(st.integers(1, 6 if n < 6 else 2)))]
        if n == 11:
            tofs = tofs[:1]
        if single is not None and any(t[2] == single for t in tofs):
            ds[single] = 1  # a register of one level, which the Toffoli raises
        ops = []
        up = {t[2] for t in tofs}
        top = lambda q: ds[q] - 1 + (q in up)
        for t in tofs:
            for q in draw(st.permutations(t[1:])):
                how = draw(st.sampled_from(["top", "top", "old-top", "any", "-", "h"]))
                if how == "top":
                    ops.append(["x", q, top(q)])
                elif how == "old-top":
                    ops.append(["x", q, ds[q] - 1])
                elif how == "any":
                    ops.append(["x", q, draw(gen.increments(max(2, ds[q])))])
                elif how == "h" and n < 6:
                    ops.append(["h", q])
            ops.append(t)
            if draw(st.integers(0, 2)) == 0:
                ops.append(draw(qasm.operations([max(2, d) for d in ds], ["x", "cx", "z", "rx"] if n < 11 else ["x", "z", "rx"], 40)))
        c = {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=24))}
        while ref.size(qasm.promoted(c)) > (400 if n < 11 else 9000):
            c["ops"] = [o for o in c["ops"] if o[0] != "tof2"] + [o for o in c["ops"] if o[0] == "tof2"][:-1]
        for q in range(n):
            if ds[q] == 1 and not any(o[0] == "tof2" and o[2] == q for o in c["ops"]):
                ds[q] = 2
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if ref.size(qasm.promoted(c)) < 100 else "sparse"
        c["file"] = draw(st.integers(0, 3)) == 0
        return c

    return cases()


@st.composite
def tall(draw):
    """Toffolis around one register of many levels."""
    d = draw(st.one_of(st.integers(5, 70), st.sampled_from([9, 10, 15, 16, 31, 32, 99, 100, 127, 128, 129, 254, 255, 256])))
    ds = list(draw(st.permutations([d, 2, 2] + ([3] if d < 40 else []))))
    big = ds.index(d)
    rest = [q for q in range(len(ds)) if q != big]
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        a, b = list(draw(st.permutations(rest)))[:2]
        tof = ["tof2"] + draw(st.sampled_from([[a, big, b], [a, big, b], [big, a, b], [a, b, big]]))
        ops += [["x", q, draw(st.sampled_from([ds[q] - 1, ds[q], ds[q]]))] for q in draw(st.permutations(tof[1:]))] + [tof]
    return {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=8)), "backend": "sparse",
            "file": draw(st.booleans())}


@st.composite
def long(draw):
    """Many Toffolis on many registers, of which only the registers are read."""
    n = draw(st.integers(4, 24))
    ds = [2 + (q % 5 == 2) for q in range(n)]
    tofs = []
    for _ in range(draw(st.integers(1, 6))):
        lo = draw(st.integers(0, n - 3))
        t = list(draw(st.permutations(range(lo, min(n, lo + 4)))))[:3]
        for k in range(draw(st.integers(1, 6))):  # the same shape further down, too
            tofs.append(["tof2"] + [(q + k) % (n - 2) if max(t) + k >= n else q + k for q in t])
    tofs = [t for t in tofs if len(set(t[1:])) == 3 and max(t[1:]) - min(t[1:]) < 5]
    return {"dims": ds, "ops": tofs, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=8)), "backend": None,
            "file": draw(st.integers(0, 3)) == 0, "still": True}


def check(case):
    program = qasm.text(case)
    dims = qasm.promoted(case)
    ops = [qasm.plain(o) for o in case["ops"]]
    qc = c14.load(case, program)
    with sut("str"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        shown = [(int(a), int(b)) for a, b in re.findall(r"^\((\d+)\)\|(\d+)>", str(qc), re.M)]
    require(shown == [(d, 0) for d in dims], "registers (dimension, level) are %s, should be %s for the program\n%s", shown,
            [(d, 0) for d in dims], program)
    if case.get("still"):
        return {"nontrivial": len(ops) > 1, "classes": ["registers-only"] + (["tofs>8"] if len(ops) > 8 else [])}
    t = ref.start(dims, None)
    fired = False
    for o in ops:
        u = ref.apply(t, o)
        if o[0] == "tof":
            fired = fired or abs(u - t).max() > 1e-9
        t = u
    got = sutil.vector(sutil.run(qc, "run() of the loaded program"), dims)
    sutil.same(got, t.ravel(), dims, "the program\n%s\n" % program)
    tofs = [o for o in case["ops"] if o[0] == "tof2"]
    mids = [o[2] for o in tofs]
    shared = len(set(mids)) < len(mids)
    cross = any(m in (o[1], o[3]) for m in mids for o in tofs)
    return {"nontrivial": shared or cross or fired,
            "classes": ["tofs=%d" % len(tofs), "regs=%d" % len(dims)] + (["shared-second-control"] if shared else [])
            + (["crossing-roles"] if cross else []) + (["fired"] if fired else []) + (["one-level"] if 1 in case["dims"] else [])}


FIXED = [
    {"dims": [2, 3, 3], "ops": [["x", 0, 1], ["x", 1, 3], ["tof2", 0, 1, 2], ["tof2", 2, 1, 0], ["tof2", 1, 0, 2]], "lay": [0],
     "backend": None, "file": False},
]
