"""A circuit runs exactly when it is measured, and is frozen then."""
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import quiet, require, sut

ID = "C11"
RULE = ("random histories of gate additions (all kinds), measure_all, measure of one register, run and reports, "
        "against a model with a gate list and a measured flag; non-trivial: a gate was offered after measuring and a "
        "run was tried both before and after it")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 1000, 6000


def strategy(tier):
    @st.composite
    def cases(draw):
        wide = draw(st.integers(0, 9)) == 0
        if wide:  # many registers, of which a run moves levels only
            return draw(wider())
        ds = draw(gen.dims(cap=48, max_regs=5))
        before = draw(st.lists(st.one_of(gen.op(ds, gen.ALL), st.sampled_from([["run"], ["measure1"], ["report"]])),
                               max_size=12))
        if draw(st.integers(0, 5)) == 0:
            before = before * draw(st.integers(2, 4))
        after = draw(st.lists(st.one_of(gen.op(ds, gen.ALL), gen.op(ds, gen.ALL),
                                        st.sampled_from([["run"], ["run"], ["measure"], ["measure1"], ["report"]])),
                              max_size=10))
        return {"dims": ds, "init": draw(gen.states(ds)), "backend": draw(st.sampled_from(["numpy", "sparse", None])),
                "history": before + draw(st.sampled_from(
                    [[["measure"]], [["run"], ["measure"], ["run"]], [["run"], ["measure"]], [["run"], ["measure"], ["run"]],
                     [["measure"], ["run"]], []])) + after}

    return cases()


@st.composite
def wider(draw):
    n = draw(st.integers(9, 17))
    ds = [2] * n
    if n < 12:
        ds[draw(st.integers(0, n - 1))] = 3
    step = st.one_of(gen.op(ds, ("x", "z", "cx", "tof"), 16), gen.op(ds, ("x", "x", "cx"), 32))
    before = draw(st.lists(st.one_of(step, st.sampled_from([["run"], ["measure1"], ["report"]])), max_size=6))
    after = draw(st.lists(st.one_of(step, st.sampled_from([["run"], ["measure"], ["measure1"], ["report"]])), max_size=6))
    return {"dims": ds, "init": draw(gen.states(ds)), "backend": None,
            "history": before + draw(st.sampled_from([[["run"], ["measure"]], [["run"], ["measure"], ["run"]], [["measure"]], []])) + after}


def snapshot(qc):
    with sut("reports"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return str(qc), repr(qc.get_circuit_info()), repr(qc.get_circuit_config())


def check(case):
    dims, init = case["dims"], case["init"]
    state = max(dims) > 10
    kind = "state" if state else "print"
    qc = sutil.new(list(dims), init, case["backend"], sutil.output(dims, "state", "amplitude") if state else None)
    ops, measured, last, frozen = [], False, None, None
    seen = set()
    for i, step in enumerate(case["history"]):
        what = "step %d (%s)" % (i, step)
        if step[0] == "measure":
            with sut(what):
                require(qc.measure_all() is True, "%s: measure_all() did not return True", what)
            if not measured:
                measured, frozen = True, snapshot(qc)
        elif step[0] == "measure1":
            before = snapshot(qc)
            try:
                qc.measure(0)
                refused = False
            except Exception:
                refused = True
            require(refused, "%s: measuring one register was not refused", what)
            require(snapshot(qc) == before, "%s changed the circuit", what)
        elif step[0] == "run":
            if measured:
                got = sutil.run(qc, what)
                want = ref.simulate(dims, init, ops).ravel()
                sutil.same(sutil.vector(got, dims, kind), want, dims, what)
                last = got
                seen.add("run")
            else:
                try:
                    with quiet():
                        qc.run()
                    ran = True
                except Exception:
                    ran = False
                require(not ran, "%s: run() of an unmeasured circuit succeeded", what)
                seen.add("early-run")
        elif step[0] == "report":
            snapshot(qc)
        else:
            with sut(what):
                got = sutil.place(qc, step, dims)
            if measured:
                require(got is False, "%s on a measured circuit returned %r", what, got)
                seen.add("late-gate")
            else:
                require(got is True, "%s returned %r", what, got)
                ops.append(step)
        with sut("circuit_output"):
            output = qc.circuit_output
        require(output is last or output == last, "%s: circuit_output is %s, the latest result is %s", what, str(output)[:200], str(last)[:200])
        if measured:
            now = snapshot(qc)
            require(now == frozen, "%s changed the measured circuit from\n%s\nto\n%s", what, frozen, now)
        with sut("get_circuit_config()"), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            config = qc.get_circuit_config()
        require(config["depth"] == ref.depth(len(dims), ops), "%s: depth %s, should be %d", what, config["depth"],
                ref.depth(len(dims), ops))
    return {"nontrivial": {"late-gate", "run", "early-run"} <= seen,
            "classes": sorted(seen) + ["regs=%d" % len(dims), "measured" if measured else "never-measured"]}


FIXED = [  # measured after as many layers as some counter or buffer may hold
    {"dims": [2, 2], "init": None, "backend": "numpy",
     "history": [["x", n % 2, 1], ["cx", 0, 1, 1]] * (n // 2) + [["cx", 1, 0, 1]] * (n % 2) + [["measure"], ["run"], ["x", 0, 1], ["run"]]}
    for n in (14, 15, 16, 30, 31, 32, 62, 63, 64, 98, 99, 100, 126, 127, 128, 198, 199, 200, 253, 254, 255, 256, 257)
] + [    {"dims": [2, 2], "init": None, "backend": None,
     "history": [["h", 0], ["run"], ["measure"], ["run"], ["tof", [0], 1, 1], ["cx", 0, 1, 1], ["h", 1], ["x", 1, 1],
                 ["z", 0], ["arb", [0, 1], ["perm", [1]]], ["measure"], ["run"]]},
]
