"""Running and inspecting has no side effects."""
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import quiet, require, sut

ID = "C09"
RULE = ("random circuit built twice: once plainly, once with random inspections (str, text and Matplotlib drawing, "
        "reports, premature runs, printing the layers, scribbling over what was returned) before, between and after "
        "its gates, then run two to five times with inspections in between; all answers compared; non-trivial: at "
        "least two inspections before measuring and two runs")
ASSUMPTIONS = ["repeated results are compared to 1e-12"]
QUICK, THOROUGH = 280, 4000

PROBES = ["str", "draw", "config", "info", "layers", "early-run", "scribble", "peek"]


def strategy(tier):
    @st.composite
    def cases(draw):
        if draw(st.integers(0, 3)) == 0:
            c = draw(gen.circuit(cap=160, max_regs=6, max_dim=4, max_ops=12, min_regs=3, span_cap=64))
        elif draw(st.integers(0, 5)) == 0:  # many layers
            c = draw(gen.circuit(cap=8, max_regs=2, max_ops=30, min_ops=8, max_dim=5, repeat=6))
        elif draw(st.integers(0, 8)) == 0:
            c = draw(gen.many(8, 11, 2048, max_ops=8))
        else:
            c = draw(gen.circuit(cap=48, max_ops=12, min_ops=1, max_dim=9))
        n = len(c["ops"])
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if len(c["dims"]) < 8 else None
        c["before"] = draw(st.lists(st.tuples(st.integers(0, n), st.sampled_from(PROBES)).map(list), max_size=8))
        after = st.sampled_from(PROBES + ["run", "run", "run-scribble", "measure"])
        c["after"] = draw(st.lists(after, min_size=1, max_size=8)) + ["run"]
        c["mpl"] = draw(st.integers(0, 11)) == 0
        c["format"] = draw(st.sampled_from([["print", "amplitude"], ["print", "amplitude"], ["state", "amplitude"],
                                            ["print", "probability"], ["state", "probability"]]))
        return c

    return cases()


def text(qc):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return str(qc)


def probe(qc, what):
    """Looks at the circuit; returns something comparable where there is an answer."""
    with warnings.catch_warnings(), quiet() as printed:
        warnings.simplefilter("ignore")
        if what == "str":
            return str(qc)
        if what == "draw":
            qc.draw()
            return printed.getvalue()
        if what == "config":
            return repr(qc.get_circuit_config())
        if what == "info":
            return repr(qc.get_circuit_info())
        if what == "layers":
            qc.print_opflow_list()
            return None
        if what == "peek":
            return len(qc.op_flow.peek())
        if what == "scribble":
            info, config = qc.get_circuit_info(), qc.get_circuit_config()
            info["details"].clear()
            info["details"]["h"] = 99
            info["depth"] = config["depth"] = config["width"] = -7
            return None
        if what == "mpl":
            import matplotlib.pyplot as plt

            show = plt.show
            plt.show = lambda *a, **k: None
            try:
                qc.draw("mpl")
            finally:
                plt.show = show
                plt.close("all")
            return None
    raise ValueError(what)


def early_run(qc):
    try:
        with quiet():
            qc.run()
    except Exception:
        return
    require(False, "run() before measurement returned a result")


def snapshot(qc):
    with sut("inspecting the circuit"):
        return {k: probe(qc, k) for k in ("str", "draw", "config", "info", "peek")}


def alike(a, b):
    ea, eb = sutil.entries(a), sutil.entries(b)
    return [k for k, _ in ea] == [k for k, _ in eb] and all(abs(x - y) <= 1e-12 for (_, x), (_, y) in zip(ea, eb))


def check(case):
    dims, ops, init, back = case["dims"], case["ops"], case["init"], case["backend"]
    out = lambda: sutil.output(dims, *case["format"])
    plain = sutil.build(dims, init, ops, back, out())
    qc = sutil.new(list(dims), init, back, out())
    cut = case["before"][0][0] if case["before"] else None
    for i in range(len(ops) + 1):
        for at, what in case["before"]:
            if at == i:
                with sut("%s before measurement" % what):
                    early_run(qc) if what == "early-run" else probe(qc, what)
        if i == cut:
            bare = sutil.build(dims, init, ops[:i], back, out(), measure=False)
            a, b = snapshot(qc), snapshot(bare)
            for k in a:
                require(a[k] == b[k], "%s after %d gates differs from an uninspected circuit:\n%s\n%s", k, i, a[k], b[k])
        if i < len(ops):
            with sut("gate %d" % i):
                require(sutil.place(qc, ops[i], dims) is True, "gate %d was not accepted", i)
    if case["mpl"]:
        with sut("draw('mpl')"):
            probe(qc, "mpl")
    with sut("measure_all()"):
        qc.measure_all()
    first = None
    answers = {}
    for what in case["after"]:
        if what.startswith("run") or what == "early-run":
            got = sutil.run(qc)
            if first is None:
                first = [dict(e) for e in got]
            require(alike(got, first), "another run() gives %s instead of %s", str(got)[:300], str(first)[:300])
            if what == "run-scribble":
                for e in got:
                    e.clear()
                    e["x"] = 7
                del got[: len(got) // 2 + 1]
        elif what == "measure":
            with sut("measure_all() again"):
                qc.measure_all()
        else:
            with sut(what + " of the measured circuit"):
                seen = probe(qc, what)
            require(answers.setdefault(what, seen) == seen, "%s changed from\n%s\nto\n%s", what, answers[what], seen)
    if case["mpl"]:
        with sut("draw('mpl')"):
            probe(qc, "mpl")
    want = sutil.run(plain)
    require(alike(first, want), "the inspected circuit gives %s, an uninspected one %s", str(first)[:300], str(want)[:300])
    again = sutil.run(qc)
    require(alike(again, want), "the last run() gives %s instead of %s", str(again)[:300], str(want)[:300])
    a, b = snapshot(qc), snapshot(plain)
    for k in a:
        require(a[k] == b[k], "%s differs from an uninspected circuit:\n%s\n%s", k, a[k], b[k])
    runs = sum(w.startswith("run") for w in case["after"])
    return {"nontrivial": len(case["before"]) >= 2 and runs >= 2,
            "classes": gen.classify(case) + sorted({"probe=" + w for _, w in case["before"]} | {"probe=" + w for w in case["after"]})
            + (["probe=mpl"] if case["mpl"] else [])}


FIXED = [
    {"dims": [2, 3], "init": None, "ops": [["h", 0], ["cx", 0, 1, 1], ["x", 1, 1]], "backend": b,
     "before": [[0, "str"], [1, "early-run"], [2, "info"], [2, "scribble"], [3, "draw"]], "mpl": True,
     "after": ["run", "str", "run-scribble", "draw", "scribble", "run"], "format": ["print", "amplitude"]}
    for b in ("numpy", "sparse")
]
