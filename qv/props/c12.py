"""Impossible requests are refused without side effects."""
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import Violation, quiet, require, sut

ID = "C12"
RULE = ("valid random circuit with one to four invalid gate requests (register negative or too large, register named "
        "twice by a controlled gate, gate dimension above the register's) planted at random points, each of which must raise; one with too small a dimension or a CX on one, three or four registers that must raise by run(); the "
        "result, drawing and counts must be those of the valid part; or a circuit construction with an invalid dimension, "
        "initial level, surplus initial level or register type; every case is non-trivial that contains an invalid request")
ASSUMPTIONS = ["register numbers, dimensions and levels are integers", "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 2200, 8000


@st.composite
def bad_gate(draw, ds):
    n = len(ds)
    outside = draw(st.one_of(st.integers(n, n + 3), st.integers(-n - 2, -1), st.sampled_from([n, -1, n + 100, -n - 100])))
    inside = draw(st.integers(0, n - 1))
    kinds = ["h", "x", "z", "h-dims", "x-dims", "z-dims", "cx-control", "cx-target", "cx-same", "tof-control",
             "tof-target", "tof-same", "tof-twice", "arb", "arb-list"]
    kind = draw(st.sampled_from(kinds))
    p = draw(st.integers(-3, 3))
    if kind in ("h", "z"):
        return [kind, outside]
    if kind == "x":
        return ["x", outside, p]
    if kind.endswith("-dims"):
        return [kind, inside, ds[inside] + draw(st.integers(1, 3)), p]
    if kind == "cx-control":
        return ["cx", outside, inside, p]
    if kind == "cx-target":
        return ["cx", inside, outside, p]
    if kind == "cx-same":
        return ["cx", inside, inside, p]
    some = list(draw(st.permutations(range(n))))[: draw(st.integers(1, 3))]
    if kind == "tof-control":
        others = [r for r in some if r != inside]
        at = draw(st.integers(0, len(others)))
        return ["tof", others[:at] + [outside] + others[at:], inside, p]
    if kind == "tof-target":
        return ["tof", some, outside, p]
    if kind == "tof-same":
        return ["tof", some, draw(st.sampled_from(some)), p]
    if kind == "tof-twice":
        at = draw(st.integers(0, len(some)))
        twice = some[:at] + [draw(st.sampled_from(some))] + some[at:]
        free = [r for r in range(n) if r not in twice] or [inside]
        return ["tof", twice, draw(st.sampled_from(free)), p]
    if kind == "arb":
        return ["arb-one", outside]
    return ["arb-many", sorted([inside, outside])]


@st.composite
def bad_circuit(draw):
    ds = draw(gen.dims(cap=64, max_regs=5))
    if draw(st.integers(0, 5)) == 0:
        ds = [2 + draw(st.integers(0, 2))] * draw(st.integers(6, 40))
    n = len(ds)
    at = draw(st.integers(0, n - 1))
    kind = draw(st.sampled_from(["dim", "level-high", "level-negative", "too-many", "type", "tuple"]))
    init = [draw(st.integers(0, d - 1)) for d in ds]
    regs = list(ds)
    if kind == "dim":
        regs[at] = draw(st.sampled_from([1, 0, -1, -2]))
        init[at] = draw(st.sampled_from([0, 1, -1]))
        if draw(st.booleans()):
            init = None
    elif kind == "level-high":
        init[at] = ds[at] + draw(st.integers(0, 3))
        init = init[: draw(st.integers(at + 1, n))]
    elif kind == "level-negative":
        init[at] = -draw(st.integers(1, ds[at] + 2))
    elif kind == "too-many":
        init += [draw(st.integers(0, 1)) for _ in range(draw(st.integers(1, 3)))]
    elif kind == "tuple":  # (length, dimension) only
        regs = draw(st.one_of(st.lists(st.integers(2, 4), max_size=1), st.lists(st.integers(2, 4), min_size=3, max_size=6)))
        init = None
    else:
        regs = draw(st.sampled_from([3, None, "23", {"2": 3}, 2.5]))
        init = None
    return {"construct": kind, "regs": regs, "init": init, "backend": draw(st.sampled_from(["numpy", "sparse", None]))}


def strategy(tier):
    @st.composite
    def cases(draw):
        if draw(st.integers(0, 4)) == 0:
            return draw(bad_circuit())
        crowd = draw(st.integers(0, 9)) == 0  # many registers or gates: no run
        c = dict(draw(gen.crowd(6, 130, kinds=gen.ALL, max_ops=5)), still=True) if crowd else draw(gen.circuit(cap=48, max_regs=5, max_ops=8))
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None]))
        c["bad"] = [[draw(st.integers(0, len(c["ops"]))), draw(bad_gate(c["dims"]))]
                    for _ in range(draw(st.integers(1, 4)))]
        c["tuple"] = draw(st.booleans())
        if draw(st.integers(0, 3)) == 0:  # one that may be noticed as late as in run()
            at, n = draw(st.integers(0, len(c["ops"]))), len(c["dims"])
            q = draw(st.integers(0, n - 1))
            if draw(st.integers(0, 2)) or n < 3:
                less = draw(st.one_of(st.integers(1, c["dims"][q] - 1), st.sampled_from([-1, -2, -c["dims"][q]])))
                c["late"] = [at, [draw(st.sampled_from(["h-dims", "x-dims", "z-dims"])), q, less, draw(st.integers(-3, 3))]]
            else:
                some = list(draw(st.permutations(range(n))))[: draw(st.sampled_from([1, 3, 3, 4]))]
                c["late"] = [at, ["cx-list", some, draw(st.integers(1, 3))]]
        return c

    return cases()


def offer(qc, op, dims):
    kind = op[0]
    if kind.endswith("-dims"):
        if kind[0] == "x":
            return qc.x(op[1], op[2], op[3])
        return getattr(qc, kind[0])(op[1], dims=op[2])
    if kind in ("arb-one", "arb-many"):
        import numpy as np

        size = dims[0] if kind == "arb-one" else dims[0] ** 2
        return qc.gate(sutil.arbitrary(np.eye(size)), op[1])
    if kind == "cx-list":
        return qc.cx(tuple(op[1]), op[2])
    if kind == "cx":
        return qc.cx((op[1], op[2]), op[3])
    if kind == "tof":
        return qc.toffoli((list(op[1]), op[2]), op[3])
    return sutil.place(qc, op, dims)


def snapshot(qc):
    with sut("reports"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return str(qc), repr(qc.get_circuit_info())


def check(case):
    from qudiet.core.quantum_circuit import QuantumCircuit

    if "construct" in case:
        kw = {}
        if case["init"] is not None:
            kw["init_states"] = case["init"]
        if case["backend"]:
            kw["backend"] = sutil.backend(case["backend"])
        try:
            with quiet():
                qc = QuantumCircuit(tuple(case["regs"]) if case["construct"] == "tuple" else case["regs"], **kw)
        except Exception:
            return {"nontrivial": True, "classes": ["construct=" + case["construct"]]}
        raise Violation("a circuit on registers %s (%s) with initial levels %s was accepted" % (case["regs"], case["construct"], case["init"]))
    dims, ops, init = case["dims"], case["ops"], case["init"]
    state = max(dims) > 10
    regs = (len(dims), dims[0]) if case["tuple"] and len(set(dims)) == 1 else list(dims)
    qc = sutil.new(regs, init, case["backend"], sutil.output(dims, "state", "amplitude") if state else None)
    pending = False
    for i in range(len(ops) + 1):
        if "late" in case and case["late"][0] == i:
            try:
                with quiet():
                    offer(qc, case["late"][1], dims)
                pending = True
            except Exception:
                pass  # refused at once
        for at, bad in case["bad"]:
            if at != i:
                continue
            before = None if pending else snapshot(qc)
            try:
                with quiet():
                    got = offer(qc, bad, dims)
            except Exception:
                pass
            else:
                raise Violation("%s was accepted (returned %r) on registers %s" % (bad, got, dims))
            after = None if pending else snapshot(qc)
            require(after == before, "the refused %s changed the circuit from\n%s\nto\n%s", bad, before, after)
        if i < len(ops):
            with sut("gate %d %s" % (i, ops[i])):
                require(sutil.place(qc, ops[i], dims) is True, "gate %s was not accepted after refused ones", ops[i])
    if pending and case.get("still"):
        return {"nontrivial": True, "classes": ["no-run"]}
    if pending:
        try:
            with quiet():
                qc.measure_all()
                got = qc.run()
        except Exception:
            return {"nontrivial": True, "classes": gen.classify(case) + ["late=" + case["late"][1][0]]}
        raise Violation("%s on registers %s had a result: %s" % (case["late"][1], dims, str(got)[:300]))
    with sut("measure_all()"):
        qc.measure_all()
    clean = sutil.build(dims, init, ops, case["backend"])
    require(snapshot(qc) == snapshot(clean), "refused requests left traces:\n%s\ninstead of\n%s", snapshot(qc), snapshot(clean))
    if case.get("still"):
        return {"nontrivial": True, "classes": ["no-run"] + sorted({"bad=" + b[0] for _, b in case["bad"]})}
    got = sutil.vector(sutil.run(qc), dims, "state" if state else "print")
    sutil.same(got, ref.simulate(dims, init, ops).ravel(), dims, "run() after refused requests")
    return {"nontrivial": True, "classes": gen.classify(case) + sorted({"bad=" + b[0] for _, b in case["bad"]})}


FIXED = [
    {"construct": "level-high", "regs": [2], "init": [2], "backend": None},
    {"construct": "tuple", "regs": [2, 3, 4], "init": None, "backend": None},
    {"construct": "level-negative", "regs": [3, 2], "init": [0, -1], "backend": "numpy"},
    {"dims": [2, 3], "init": None, "ops": [["h", 0]], "backend": None, "tuple": False,
     "bad": [[0, ["cx", 0, 2, 1]], [0, ["cx", 1, 1, 1]], [1, ["tof", [0, 0], 1, 1]], [1, ["h", -1]], [1, ["x-dims", 0, 3, 1]]]},
]
