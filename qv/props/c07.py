"""Layering: metamorphic for results, a scheduling model for depth and counts."""
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C07"
RULE = ("random gate sequence; run as is, with neighbouring gates on disjoint registers swapped, and with an identity "
        "gate after every gate that forces a new layer; depth, gate counts and width compared with the scheduling "
        "model after every prefix and after measuring; non-trivial: some layer holds two or more gates and at "
        "least one swap was possible")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 430, 5000


def strategy(tier):
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["small", "small", "wide", "wide", "deep", "deep", "singles", "singles", "many", "crowd", "crowd"]))
        if kind == "wide":
            c = draw(gen.circuit(cap=160, max_regs=7, max_dim=4, max_ops=14, min_regs=4, span_cap=64))
        elif kind == "many":
            c = draw(gen.many(8, 12, 4096, max_ops=20))
        elif kind == "crowd":  # reports only
            c = dict(draw(gen.crowd(6, 130, kinds=gen.ALL) if draw(st.booleans()) else gen.crowd(2, 4, kinds=gen.ALL, stretch=50)), crowd=True)
        elif kind == "deep":
            c = draw(gen.circuit(cap=32, max_regs=4, max_ops=35, min_ops=12))
        elif kind == "singles":
            c = draw(gen.circuit(cap=64, max_regs=6, max_ops=24, min_ops=6, min_regs=2,
                                 kinds=("h", "x", "z", "x", "z", "h", "cx", "arb")))
        else:
            c = draw(gen.circuit(cap=64, max_ops=12))
            if draw(st.integers(0, 7)) == 0:
                c["ops"] = c["ops"][:1]
            if draw(st.integers(0, 15)) == 0:
                c["ops"] = []
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if kind != "many" else "sparse"
        c["swaps"] = draw(st.lists(st.integers(0, 60), min_size=1, max_size=12))
        return c

    return cases()


COUNT = {"h": "h", "x": "x", "z": "z", "cx": "cx", "tof": "toffoli", "arb": "arbitary"}


def reports(qc, dims, ops, measured, where):
    want = ref.depth(len(dims), ops)
    with sut("get_circuit_config/get_circuit_info"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        config, info = qc.get_circuit_config(), qc.get_circuit_info()
    for name, rep in (("get_circuit_config", config), ("get_circuit_info", info)):
        require(rep["depth"] == want, "%s: %s reports depth %s, should be %d for %s on %d registers", where, name,
                rep["depth"], want, ops, len(dims))
    require(config["width"] == len(dims), "width %s instead of %d", config["width"], len(dims))
    require(info["qudit"] == len(dims), "%s qudits instead of %d", info["qudit"], len(dims))
    counts = {}
    for op in ops:
        counts[COUNT[op[0]]] = counts.get(COUNT[op[0]], 0) + 1
    require(info["details"] == counts, "%s: gate counts %s, should be %s", where, info["details"], counts)
    require(info["gate_count"] == len(ops), "%s: gate count %s, should be %d", where, info["gate_count"], len(ops))


def disjoint(a, b):
    return not set(ref.registers(a)) & set(ref.registers(b))


def check(case):
    dims, ops, init, back = case["dims"], case["ops"], case["init"], case["backend"]
    state = max(dims) > 10
    kind = "state" if state else "print"
    out = lambda: sutil.output(dims, "state", "amplitude") if state else None
    qc = sutil.new(list(dims), init, back, out())
    reports(qc, dims, [], False, "empty circuit")
    for i, op in enumerate(ops):
        with sut("gate %d %s" % (i, op)):
            sutil.place(qc, op, dims)
        if not case.get("crowd") or i % 9 == 0 or i < 3:
            reports(qc, dims, ops[: i + 1], False, "after gate %d" % i)
    with sut("measure_all()"):
        qc.measure_all()
    reports(qc, dims, ops, True, "measured")
    if case.get("crowd"):
        return {"nontrivial": ref.depth(len(dims), ops) < len(ops), "classes": gen.classify(case) + ["reports-only"]
                + (["layers>100"] if ref.depth(len(dims), ops) > 100 else [])}
    base = sutil.vector(sutil.run(qc), dims, kind)
    reports(qc, dims, ops, True, "after run")

    shuffled, swapped = list(ops), 0
    for s in case["swaps"]:
        if len(ops) > 1:
            i = s % (len(ops) - 1)
            if disjoint(shuffled[i], shuffled[i + 1]):
                shuffled[i], shuffled[i + 1] = shuffled[i + 1], shuffled[i]
                swapped += 1
    if shuffled != ops:
        other = sutil.build(dims, init, shuffled, back, out())
        sutil.same(sutil.vector(sutil.run(other), dims, kind), base, dims,
                   "independent gates in another order (%s)" % shuffled)
        reports(other, dims, shuffled, True, "reordered")

    spread = []
    for op in ops:
        spread += [op, ["arb", [0], ["perm", [0]]]]
    apart = sutil.build(dims, init, spread, back, out())
    sutil.same(sutil.vector(sutil.run(apart), dims, kind), base, dims, "one gate per layer")
    packed = ref.depth(len(dims), ops) < len(ops)
    return {"nontrivial": packed and swapped > 0,
            "classes": gen.classify(case) + (["packed"] if packed else []) + (["swapped"] if swapped else [])}


FIXED = [
    {"dims": [2, 3, 2], "init": None, "ops": [["h", 0], ["x", 1, 1], ["z", 2], ["h", 0], ["cx", 0, 2, 1], ["x", 1, 2]],
     "backend": None, "swaps": [0, 1, 4]},
    {"dims": [2, 2, 3], "init": [1, 1, 2], "ops": [["tof", [0, 1], 2, 1], ["arb", [1, 2], ["perm", [5, 1]]], ["x", 0, 1]],
     "backend": "numpy", "swaps": [1]},
]
