"""Reversibility, norm preservation and linearity: no reference simulator involved."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C04"
RULE = ("random circuit followed by the inverse of each gate in reverse order, run from its initial state; the "
        "norm after a prefix; orthogonality of the final states of two different initial states; non-trivial: "
        "two or more gates, one of them on two or more registers")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 420, 5000


def strategy(tier):
    big = tier == "thorough"

    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["small", "small", "wide", "deep", "deeper", "big-dim", "huge-dim", "huge-dim", "many"]))
        if kind == "wide":
            c = draw(gen.circuit(cap=400 if big else 200, max_regs=8, max_dim=5, max_ops=7, min_regs=4, span_cap=100))
            c["backend"] = "sparse"
        elif kind == "deep":
            c = draw(gen.circuit(cap=24, max_regs=4, max_ops=20, min_ops=8))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif kind == "deeper":
            c = draw(gen.circuit(cap=12, max_regs=3, max_ops=12, min_ops=4, repeat=6))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif kind == "many":
            c = draw(gen.many(9, 11, 2048, max_ops=5, mixing=3))
            c["backend"] = "sparse"
        elif kind == "huge-dim":
            c = draw(gen.huge(kinds=("h", "x", "cx"), max_ops=3))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        elif kind == "big-dim":
            c = draw(gen.circuit(cap=72, max_regs=2, max_dim=24, max_ops=6))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse"]))
        else:
            c = draw(gen.circuit(cap=64, max_ops=9, min_ops=1))
            c["backend"] = draw(st.sampled_from(["numpy", "sparse", None]))
        c["other"] = [draw(st.integers(0, d - 1)) for d in c["dims"]]
        c["cut"] = draw(st.integers(0, len(c["ops"])))
        return c

    return cases()


def place_inverse(qc, op, dims):
    kind = op[0]
    if kind == "h":
        for _ in range(3):
            qc.h(op[1])
    elif kind == "z":
        for _ in range(dims[op[1]] - 1):
            qc.z(op[1])
    elif kind in ("x", "cx", "tof"):
        sutil.place(qc, op[:-1] + [-op[-1]], dims)
    else:
        u = ref.matrix(op[2], ref.size([dims[r] for r in op[1]]))
        qc.gate(sutil.arbitrary(u.conj().T.copy()), list(op[1]))


def final(case, init, ops, undo=False):
    dims = case["dims"]
    state = max(dims) > 10
    qc = sutil.build(dims, init, ops, case["backend"],
                     sutil.output(dims, "state", "amplitude") if state else None, measure=False)
    with sut("appending inverses and measuring"):
        if undo:
            for op in reversed(ops):
                place_inverse(qc, op, dims)
        qc.measure_all()
    return sutil.vector(sutil.run(qc), dims, "state" if state else "print")


def check(case):
    dims, ops, init = case["dims"], case["ops"], case["init"]
    full = list(init or []) + [0] * (len(dims) - len(init or []))
    start = np.zeros(ref.size(dims))
    start[ref.index_of(full, dims)] = 1
    sutil.same(final(case, init, ops, undo=True), start, dims, "circuit followed by its inverse")
    v = final(case, init, ops)
    prefix = final(case, init, ops[: case["cut"]]) if case["cut"] < len(ops) else v
    for vec, what in ((v, "the circuit"), (prefix, "a prefix of %d gates" % case["cut"])):
        norm = float(np.sum(np.abs(vec) ** 2))
        require(abs(norm - 1) < 1e-7, "probabilities after %s sum to %.9g", what, norm)
    if case["other"] != full:
        w = final(case, case["other"], ops)
        dot = abs(np.vdot(w, v))
        require(dot < 1e-7, "initial states %s and %s end with overlap %.3g", full, case["other"], dot)
    return {"nontrivial": len(ops) > 1 and gen.key_ops(case) > 0,
            "classes": gen.classify(case) + ["two-inputs" if case["other"] != full else "one-input"]}


FIXED = [
    {"dims": [4], "init": [3], "ops": [["h", 0], ["z", 0]], "backend": "numpy", "other": [1], "cut": 1},
    {"dims": [7], "init": [3], "ops": [["h", 0], ["z", 0]], "backend": "sparse", "other": [1], "cut": 1},
    {"dims": [2, 3], "init": [1, 1], "ops": [["x", 1, 4], ["cx", 1, 0, 1], ["tof", [0], 1, 2]],
     "backend": None, "other": [0, 0], "cut": 2},
]
