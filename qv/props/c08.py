"""Registers are interchangeable; idle registers are inert."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil

ID = "C08"
RULE = ("random circuit of H, X, Z, CX, Toffoli and single-register custom gates, run as is, with its registers "
        "permuted, and with an unused register inserted; results compared after permuting / inserting the digits; "
        "non-trivial: a gate on two or more registers and a permutation that moves something")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 500, 5000


def strategy(tier):
    big = tier == "thorough"

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 9)) == 0:
            c = draw(gen.many(8, 11, draw(st.sampled_from([1024, 2600])), max_ops=6, span_cap=draw(st.sampled_from([256, 256, 400]))))
        elif draw(st.integers(0, 3)) == 0:
            c = draw(gen.circuit(cap=200 if big else 120, max_regs=7, max_dim=4, max_ops=9, min_regs=4, span_cap=512))
        else:
            c = draw(gen.circuit(cap=64, max_regs=5, max_dim=10, max_ops=12, min_regs=2))
        c["ops"] = [o if o[0] != "arb" else ["arb", o[1][:1], o[2]] for o in c["ops"]]
        n = len(c["dims"])
        c["init"] = list(c["init"] or []) + [0] * (n - len(c["init"] or []))
        c["perm"] = list(draw(st.permutations(range(n))))
        if n >= 6 and draw(st.booleans()):  # a gate from one end to the other
            mid = [q for q in range(n) if draw(st.integers(0, 3)) == 0][:2]
            far = [0, n - 1] if draw(st.booleans()) else [n - 1, 0]
            if ref.size(c["dims"]) <= 400:
                c["init"][far[0]] = c["dims"][far[0]] - 1
                at = draw(st.integers(0, len(c["ops"])))
                c["ops"].insert(at, ["cx"] + far + [1] if draw(st.booleans()) else ["tof", [far[0]] + [q for q in mid if q not in far], far[1], 1])
        d = draw(st.integers(2, 4))
        c["extra"] = [draw(st.integers(0, n)), d, draw(st.integers(0, d - 1))]
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if ref.size(c["dims"]) < 80 else "sparse"
        return c

    return cases()


def rename(op, to):
    if op[0] == "cx":
        return ["cx", to(op[1]), to(op[2]), op[3]]
    if op[0] == "tof":
        return ["tof", [to(c) for c in op[1]], to(op[2]), op[3]]
    if op[0] == "arb":
        return ["arb", [to(op[1][0])], op[2]]
    return [op[0], to(op[1])] + op[2:]


def final(dims, init, ops, back):
    state = max(dims) > 10
    qc = sutil.build(dims, init, ops, back, sutil.output(dims, "state", "amplitude") if state else None)
    return sutil.vector(sutil.run(qc), dims, "state" if state else "print").reshape(dims)


def check(case):
    dims, ops, init, back, perm = (case[k] for k in ("dims", "ops", "init", "backend", "perm"))
    base = final(dims, init, ops, back)
    # register r of the circuit becomes register perm[r]
    inv = [perm.index(i) for i in range(len(perm))]
    pd, pi = [dims[r] for r in inv], [init[r] for r in inv]
    moved = final(pd, pi, [rename(o, lambda r: perm[r]) for o in ops], back)
    sutil.same(moved, np.transpose(base, inv), pd, "registers renamed by %s" % perm)
    at, d, level = case["extra"]
    xd, xi = dims[:at] + [d] + dims[at:], init[:at] + [level] + init[at:]
    wide = final(xd, xi, [rename(o, lambda r: r + (r >= at)) for o in ops], back)
    want = np.zeros(xd, dtype=complex)
    want[(slice(None),) * at + (level,)] = base
    sutil.same(wide, want, xd, "idle register inserted at %d" % at)
    crossed = any(len(ref.registers(o)) > 1 and min(ref.registers(o)) < at <= max(ref.registers(o)) for o in ops)
    return {"nontrivial": gen.key_ops(case) > 0 and perm != sorted(perm),
            "classes": gen.classify(case) + (["insertion-crossed"] if crossed else [])}


FIXED = [
    {"dims": [2, 3], "init": [1, 2], "ops": [["cx", 0, 1, 1], ["h", 0]], "perm": [1, 0], "extra": [1, 2, 1], "backend": "numpy"},
    {"dims": [2, 3, 4], "init": [1, 2, 3], "ops": [["tof", [0, 2], 1, 1], ["z", 1]], "perm": [2, 0, 1], "extra": [2, 3, 2], "backend": "sparse"},
]
