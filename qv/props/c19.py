"""(length, dimension) registers equal the spelled-out list."""
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import quiet, require, sut
from . import c12

ID = "C19"
RULE = ("random n and d, initial levels (some invalid) and gate requests (some invalid) made on a circuit on (n, d) and on one on "
        "[d] * n; acceptance, drawings, reports and results in a random output format compared after every step; the result also with "
        "the reference simulator; non-trivial: two or more registers and three or more accepted gates")
ASSUMPTIONS = ["amplitudes are compared to 1e-9"]
QUICK, THOROUGH = 1100, 6000


def strategy(tier):
    @st.composite
    def cases(draw):
        still = draw(st.integers(0, 9)) == 0  # many registers, nothing is run
        if still:
            n, d = draw(st.integers(6, 40)), draw(st.integers(2, 12))
            c = {"n": n, "d": d, "init": draw(gen.states([d] * n)), "backend": draw(st.sampled_from(["sparse", None])), "output": None, "still": True}
            c["ops"] = [["bad", draw(c12.bad_gate([d] * n))] if draw(st.integers(0, 6)) == 0 else draw(gen.op([d] * n, ("h", "x", "z", "cx", "tof"), 40))
                        for _ in range(draw(st.integers(0, 8)))] * draw(st.integers(1, 4))
            return c
        n = draw(st.one_of(st.integers(1, 6), st.integers(1, 8)))
        top = {1: 40, 2: 12, 3: 6, 4: 4, 5: 3, 6: 2, 7: 2, 8: 2}[n]
        d = draw(st.integers(2, top))
        ds = [d] * n
        init = draw(gen.states(ds))
        if init and draw(st.integers(0, 11)) == 0:
            init[draw(st.integers(0, len(init) - 1))] = draw(st.sampled_from([d, d + 1, -1]))
        elif draw(st.integers(0, 19)) == 0:
            init = [0] * (n + 1)
        ops = []
        for _ in range(draw(st.integers(0, 12))):
            if draw(st.integers(0, 6)) == 0:
                ops.append(["bad", draw(c12.bad_gate(ds))])
            else:
                ops.append(draw(gen.op(ds, gen.ALL, 243)))
        return {"n": n, "d": d, "init": init, "ops": ops, "backend": draw(st.sampled_from(["numpy", "sparse", None])),
                "output": draw(st.sampled_from([None, None, ["print", "probability"], ["state", "amplitude"], ["state", "probability"]]))}

    return cases()


def attempt(f):
    """('ok', answer) or ('refused', kind of exception)"""
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return ["ok", f()]
    except Exception as e:
        return ["refused", type(e).__name__]


def compare(a, b, where):
    for what, f in (("str", str), ("get_circuit_config", lambda q: q.get_circuit_config()), ("get_circuit_info", lambda q: q.get_circuit_info())):
        x, y = attempt(lambda: f(a)), attempt(lambda: f(b))
        require(x == y, "%s: %s of the circuit on (n, d) is\n%s\nof the one on the list\n%s", where, what, x[1], y[1])


def check(case):
    from qudiet.core.quantum_circuit import QuantumCircuit

    n, d, dims = case["n"], case["d"], [case["d"]] * case["n"]

    def make(regs):
        kw = {}
        if case["init"] is not None:
            kw["init_states"] = list(case["init"])
        if case["backend"]:
            kw["backend"] = sutil.backend(case["backend"])
        if case["output"]:
            kw["output"] = sutil.output(dims, *case["output"])
        return QuantumCircuit(regs, **kw)

    made = [attempt(lambda: make((n, d))), attempt(lambda: make(list(dims)))]
    require(made[0][0] == made[1][0], "levels %s: the circuit on (%d, %d) is %s, the one on %s %s", case["init"], n, d,
            made[0][0], dims, made[1][0])
    valid = len(case["init"] or []) <= n and all(0 <= s < d for s in case["init"] or [])
    require((made[0][0] == "ok") == valid, "initial levels %s on (%d, %d): %s", case["init"], n, d, made[0][0])
    if not valid:
        return {"nontrivial": False, "classes": ["refused-construction"]}
    a, b = made[0][1], made[1][1]
    compare(a, b, "no gates")
    done = []
    for i, op in enumerate(case["ops"]):
        if op[0] == "bad":
            got = [attempt(lambda: c12.offer(q, op[1], dims)) for q in (a, b)]
            require(got[0] == got[1] and got[0][0] == "refused", "invalid request %s: %s on (n, d), %s on the list", op[1], *got)
        else:
            got = [attempt(lambda: sutil.place(q, op, dims)) for q in (a, b)]
            require(got[0] == got[1] == ["ok", True], "gate %s: %s on (n, d), %s on the list", op, *got)
            done.append(op)
        compare(a, b, "after request %d" % i)
    if case.get("still"):
        for q in (a, b):
            with sut("measure_all()"):
                q.measure_all()
        compare(a, b, "measured")
        return {"nontrivial": len(done) >= 3, "classes": ["no-run"]}
    early = [attempt(q.run)[0] for q in (a, b)]
    require(early == ["refused", "refused"], "run() before measuring: %s", early)
    for q in (a, b):
        with sut("measure_all()"):
            q.measure_all()
    compare(a, b, "measured")
    kind, method = case["output"] or ["print", "amplitude"]
    want = ref.simulate(dims, case["init"], done).ravel()
    if method == "probability":
        want = abs(want) ** 2
    results = []
    for q, name in ((a, "(%d, %d)" % (n, d)), (b, dims)):
        r = sutil.run(q, "run() on %s" % (name,))
        if kind == "print" and d > 10:
            vec = None
        else:
            vec = sutil.vector(r, dims, kind)
            sutil.same(vec, want, dims, "the circuit on registers %s" % (name,), 1e-10)
        results.append(sutil.entries(r))
    require([k for k, _ in results[0]] == [k for k, _ in results[1]], "labels differ: %s and %s", results[0], results[1])
    require(all(abs(x - y) < 1e-9 for (_, x), (_, y) in zip(*results)), "values differ: %s and %s", results[0], results[1])
    return {"nontrivial": n >= 2 and len(done) >= 3,
            "classes": gen.classify({"dims": dims, "ops": done}) + (["refused-gates"] if len(done) < len(case["ops"]) else [])
            + (["output=" + "/".join(case["output"])] if case["output"] else ["output=default"])}


FIXED = [
    {"n": 3, "d": 3, "init": [2], "backend": None, "output": None,
     "ops": [["h", 0], ["cx", 2, 0, 1], ["bad", ["cx", 0, 3, 1]], ["tof", [0, 1], 2, 1], ["z", 2], ["x", 1, -4], ["arb", [1, 2], ["perm", [3, 1]]]]},
    {"n": 2, "d": 3, "init": [0, 3], "backend": None, "output": None, "ops": []},
]
