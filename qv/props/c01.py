from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require

ID = "C01"
RULE = ("random mixed-dimension circuits (H, X, Z, CX, Toffoli, custom unitaries; random "
        "initial states; both CPU backends); non-trivial: at least one gate on two or more "
        "registers and the final state has two or more non-zero amplitudes")
ASSUMPTIONS = ["custom multi-register gates act on consecutive registers in ascending order",
               "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 1100, 6000


def strategy(tier):
    big = tier == "thorough"

    @st.composite
    def cases(draw):
        size = draw(st.sampled_from(["small", "small", "small", "wide", "deep", "deeper", "big-dim", "huge-dim", "controls", "many"]))
        if size == "wide":
            c = draw(gen.circuit(cap=1024 if big else 400, max_regs=9, max_dim=5, max_ops=10,
                                 span_cap=100, min_regs=4))
            c["backend"] = "sparse"
        elif size == "deep":
            c = draw(gen.circuit(cap=24, max_regs=4, max_ops=40, min_ops=15))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif size == "deeper":
            c = draw(gen.circuit(cap=12, max_regs=3, max_ops=12, min_ops=4, repeat=14))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif size == "huge-dim":
            c = draw(gen.huge())
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif size == "many":
            c = draw(gen.many(10, 14 if big else 12, 16384 if big else 4096))
            c["backend"] = "numpy" if ref.size(c["dims"]) <= 1024 and draw(st.booleans()) else "sparse"
        elif size == "controls":
            c = draw(gen.circuit(cap=256, max_regs=8, max_dim=3, max_ops=4, min_ops=1, min_regs=4, span_cap=256,
                                 kinds=("tof", "tof", "x", "cx")))
            c["backend"] = "sparse"
        elif size == "big-dim":
            c = draw(gen.circuit(cap=72, max_regs=2, max_dim=16, max_ops=10))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        else:
            c = draw(gen.circuit(cap=144 if big else 64, max_regs=6, max_dim=10, max_ops=14))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse", None]))
        c["kind"] = draw(st.sampled_from(["print", "state"])) if max(c["dims"]) <= 10 else "state"
        return c

    return cases()


def check(case):
    dims, ops = case["dims"], case["ops"]
    out = None if case["kind"] == "print" else sutil.output(dims, "state", "amplitude")
    qc = sutil.build(dims, case["init"], ops, case["backend"], out)
    got = sutil.vector(sutil.run(qc), dims, case["kind"])
    want = ref.simulate(dims, case["init"], ops).ravel()
    sutil.same(got, want, dims, "run() on %s" % (case["backend"] or "the default backend"))
    lost = (abs(want) > 1e-11) & (got == 0)
    require(not lost.any(), "basis state %s has amplitude %s but is not listed", ref.digits_of(int(lost.argmax()), dims),
            want[lost.argmax()])
    spread = int((abs(want) > 1e-6).sum())
    return {"nontrivial": gen.key_ops(case) > 0 and spread > 1,
            "classes": gen.classify(case) + ["backend=%s" % case["backend"],
                                             "states>1" if spread > 1 else "one-state"]}


FIXED = [  # as many amplitudes as fit
    {"dims": ds, "init": init, "ops": [["h", q] for q in range(len(ds))], "backend": "numpy", "kind": kind}
    for ds, init, kind in (([2] * 13, [1] * 13, "print"), ([3] * 8, [0, 1, 2, 0, 1, 2, 0, 1], "state"), ([7, 11, 13, 5], [3, 10, 1, 4], "state"))
] + [    {"dims": [4], "init": [3], "ops": [["h", 0]], "backend": "numpy", "kind": "print"},
    {"dims": [2], "init": [0], "ops": [["z", 0]], "backend": "numpy", "kind": "print"},
    {"dims": [5], "init": [2], "ops": [["z", 0]], "backend": "sparse", "kind": "print"},
    {"dims": [2, 3], "init": [1, 1], "ops": [["tof", [0], 1, 1]], "backend": "sparse", "kind": "print"},
    {"dims": [2, 3], "init": [1, 1], "ops": [["arb", [0, 1], ["perm", [3, 2, 1]]]], "backend": "numpy", "kind": "print"},
    {"dims": [2, 3], "init": [1, 1], "ops": [["x", 1, 3], ["x", 0, -3]], "backend": "sparse", "kind": "print"},
]
