"""The four output formats describe the same state."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C05"
RULE = ("one random circuit run with each of the four output formats and with the default, or one random vector given "
        "to an Output object as dense column and as sparse column; entries compared with each other and "
        "with the state vector; non-trivial: a state with a non-real or negative amplitude and two or more entries")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 400, 6000
FORMATS = [(t, m) for t in ("print", "state") for m in ("amplitude", "probability")]


def strategy(tier):
    @st.composite
    def cases(draw):
        if draw(st.integers(0, 3)) == 0:
            ds = draw(gen.dims(cap=draw(st.sampled_from([16, 64, 400, 3000])), max_regs=13, max_dim=400))
            if draw(st.integers(0, 3)) == 0:  # many registers, one of them with levels of two digits
                ds = [2] * draw(st.integers(8, 11))
                ds[draw(st.integers(0, len(ds) - 1))] = draw(st.integers(9, 13))
            n = ref.size(ds)
            k = draw(st.integers(1, min(n, 8)))
            where = draw(st.lists(st.integers(0, n - 1), min_size=k, max_size=k, unique=True))
            vals = draw(st.lists(st.tuples(st.integers(-9, 9), st.integers(-9, 9)), min_size=k, max_size=k))
            real = draw(st.booleans())
            return {"dims": ds, "where": where, "vals": [[a, 0 if real else b] for a, b in vals],
                    "fade": draw(st.lists(st.sampled_from([0, 0, 0, 20, 45, 90]), min_size=1, max_size=4)),
                    "full": draw(st.integers(0, 5)) == 0,
                    "form": draw(st.sampled_from(["dense", "csr", "csc", "coo"])),
                    "base": "list"}
        kind = draw(st.sampled_from(["small", "small", "wide", "big-dim", "huge-dim", "many"]))
        if kind == "wide":
            c = draw(gen.circuit(cap=300, max_regs=8, max_dim=4, max_ops=6, min_regs=4, span_cap=64))
        elif kind == "many":
            c = draw(gen.many(10, 12, 4096, max_ops=5, mixing=3))
        elif kind == "huge-dim":
            c = draw(gen.huge(kinds=("x", "x", "h"), max_ops=3))
        elif kind == "big-dim":
            c = draw(gen.circuit(cap=80, max_regs=3, max_dim=40, max_ops=6))
        else:
            c = draw(gen.circuit(cap=64, max_ops=8))
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if kind not in ("wide", "many") else "sparse"
        c["shared"] = draw(st.booleans())
        return c

    return cases()


def compare(dims, want, results):
    """results: {(type, method): result}; want: dense state vector."""
    tables = {}
    states = ref.basis(dims)
    place = {s: i for i, s in enumerate(states)}
    indices = {}
    for (t, m), res in results.items():
        ents = sutil.entries(res)
        tables[t, m] = ents
        if t == "state":
            idx = []
            for k, v in ents:
                require(isinstance(k, tuple) and k in place, "%r is not a tuple of levels of registers %s", k, dims)
                require(all(not isinstance(x, str) for x in k), "levels %r are not numbers", k)
                idx.append(place[tuple(int(x) for x in k)])
            require(idx == sorted(set(idx)), "basis states out of order or repeated: %s", str(res)[:300])
            indices[m] = idx
    require(indices["amplitude"] == indices["probability"],
            "amplitude and probability output list different states: %s / %s",
            str(results["state", "amplitude"])[:200], str(results["state", "probability"])[:200])
    idx = indices["amplitude"]
    for m in ("amplitude", "probability"):
        got = [k for k, _ in tables["print", m]]
        require(got == [ref.label(states[i]) for i in idx], "%s labels %s do not spell the states %s",
                m, got[:10], [states[i] for i in idx][:10])
    vec = np.zeros(len(want), dtype=complex)
    for (t, m), ents in tables.items():
        vec[:] = 0
        for i, (_, v) in zip(idx, ents):
            require(isinstance(v, (int, float, complex, np.number)), "%s %r is not a number", m, v)
            vec[i] = complex(v)
            if m == "probability":
                require(complex(v).imag == 0 and not isinstance(v, complex) and not np.iscomplexobj(v),
                        "probability %r is not a real number", v)
                require(-1e-12 <= v, "probability %r is negative", v)
        target = want if m == "amplitude" else np.abs(want) ** 2
        sutil.same(vec, target, dims, "%s/%s output" % (t, m), tol=1e-10 * max(1.0, float(np.max(np.abs(target)))))
    return idx


def check(case):
    dims = case["dims"]
    if "where" in case:
        return vector_case(case)
    want = ref.simulate(dims, case["init"], case["ops"]).ravel()
    results = {}
    shared = list(dims)
    for t, m in FORMATS:
        out = sutil.output(dims, t, m)
        qc = sutil.build(dims, case["init"], case["ops"], case["backend"], out)
        results[t, m] = sutil.run(qc)
        if case["shared"]:  # the same object formats many results
            again = sutil.build(dims, None, [], case["backend"], out)
            sutil.run(again)
            second = sutil.run(sutil.build(dims, case["init"], case["ops"], case["backend"], out))
            require(repr(second) == repr(results[t, m]), "an Output used again gives %s instead of %s",
                    str(second)[:200], str(results[t, m])[:200])
    compare(dims, want, results)
    default = sutil.run(sutil.build(dims, case["init"], case["ops"], case["backend"]))
    d, e = sutil.entries(default), sutil.entries(results["print", "amplitude"])
    require([k for k, _ in d] == [k for k, _ in e] and np.allclose([v for _, v in d], [v for _, v in e], atol=1e-10),
            "default output %s is not label/amplitude output %s", str(default)[:200], str(results["print", "amplitude"])[:200])
    listed = {k for k, _ in d}
    for i in np.argwhere(np.abs(want) > 1e-11).ravel():
        label = ref.label(ref.digits_of(int(i), dims))
        require(label in listed, "%s has amplitude %s but is not listed", label, want[i])
    total = sum(v for _, v in sutil.entries(results["print", "probability"]))
    require(abs(total - 1) < 1e-7, "probabilities sum to %.9g", total)
    big = np.abs(want) > 1e-6
    odd = bool(np.any(np.abs(want.imag[big]) > 1e-6) or np.any(want.real[big] < -1e-6))
    return {"nontrivial": odd and int(big.sum()) > 1,
            "classes": gen.classify(case) + ["circuit"] + (["complex-or-negative"] if odd else [])}


def vector_case(case):
    dims = case["dims"]
    n = ref.size(dims)
    want = np.zeros(n, dtype=complex)
    fade = case.get("fade") or [0]
    for j, (i, (a, b)) in enumerate(zip(case["where"], case["vals"])):
        want[i] = (a + 1j * b) / 8 * 2.0 ** -fade[j % len(fade)]
    if case.get("full"):  # every state has an amplitude
        i = np.arange(n)
        want += (1 + i % 97) / (1024.0 * (1 + i % 11)) * np.exp(2j * i)
    real = not any(b for _, b in case["vals"]) and not case.get("full")
    col = (want.real if real else want).reshape(n, 1)
    if case["form"] != "dense":
        col = getattr(sp, case["form"] + "_matrix")(col)
    from qudiet.core.output import Output, OutputMethod, OutputType

    results = {}
    for t, m in FORMATS:
        base = list(dims)
        with sut("Output on a %s column" % case["form"]):
            results[t, m] = Output(base, getattr(OutputType, t), getattr(OutputMethod, m))(col)
    idx = compare(dims, want, results)
    require(idx == [int(i) for i in np.flatnonzero(want)],
            "listed states %s are not the non-zero ones", idx)
    return {"nontrivial": len(idx) > 1 and (not real or bool(np.any(want.real < 0))),
            "classes": ["vector", "form=" + case["form"], "regs=%d" % len(dims)]}


FIXED = [
    {"dims": [3], "init": [1], "ops": [["h", 0]], "backend": "numpy", "shared": True},
    {"dims": [2, 12], "init": [1, 11], "ops": [["h", 1], ["h", 0]], "backend": "sparse", "shared": False},
]
