"""Custom gates are applied if and only if they are unitary and fit."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import Violation, quiet, require, sut

ID = "C13"
RULE = ("random circuit around one custom gate on one to four consecutive registers: a unitary (real, complex, diagonal, "
        "permutation) of the right size must act as itself and stay unchanged; the same matrix spoiled (scaled, one entry "
        "changed, column zeroed, row repeated, rank one, not normalised, not-orthogonal, NaN) or of another size must raise by run(); "
        "non-trivial: complex or multi-register unitary, or a refused matrix")
ASSUMPTIONS = ["matrices that are not unitary differ from unitary by more than 1e-3",
               "custom matrices are dense numpy arrays (of any memory layout; real, complex, integer or bool)", "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 2200, 8000
SPOIL = ["scale", "shrink", "entry", "zero-column", "repeat-row", "rank-one", "shear", "phase-lost", "ones", "nan"]


def strategy(tier):
    @st.composite
    def cases(draw):
        wide = draw(st.integers(0, 9)) == 0
        c = draw(gen.many(8, 11, 2048, max_ops=3, mixing=1) if wide else gen.circuit(cap=72, max_regs=5, max_ops=5, max_dim=9))
        ds = c["dims"]
        lo = draw(st.integers(0, len(ds) - 1))
        hi = draw(st.integers(lo, min(len(ds) - 1, lo + 3)))
        while ref.size(ds[lo : hi + 1]) > 64:
            hi -= 1
        c["regs"] = list(range(lo, hi + 1))
        c["spec"] = draw(gen.specs())
        c["at"] = draw(st.integers(0, len(c["ops"])))
        mode = draw(st.sampled_from(["good", "good", "spoiled", "size"]))
        if mode == "spoiled":
            c["spoil"] = draw(st.sampled_from(SPOIL))
            c["where"] = [draw(st.integers(0, 63)), draw(st.integers(0, 63))]
        elif mode == "size":
            size = ref.size(ds[lo : hi + 1])
            c["size"] = draw(st.one_of(st.sampled_from([size + 1, max(1, size - 1), 2 * size, size * size if size < 9 else size + 2, 1]),
                                       st.integers(1, 2 * size)))
            if c["size"] == size:
                c["size"] += 1
        c["form"] = draw(st.sampled_from(["as-is", "as-is", "fortran", "transposed", "slice", "reversed", "read-only", "complex", "int", "int8", "bool"]))
        c["scalar"] = hi == lo and draw(st.booleans())
        c["backend"] = draw(st.sampled_from(["numpy", "sparse", None])) if not wide else draw(st.sampled_from(["sparse", None]))
        return c

    return cases()


def spoiled(u, how, where):
    n = len(u)
    m = np.array(u, dtype=complex)
    i, j = where[0] % n, where[1] % n
    if how == "scale":
        m *= 1.25
    elif how == "shrink":
        m *= 0.99
    elif how == "entry":
        m[i, j] += 0.05
    elif how == "zero-column":
        m[:, j] = 0
    elif how == "repeat-row":
        m[i] = m[(i + 1) % n] if n > 1 else 2
    elif how == "rank-one":
        m = np.outer(m[:, 0], m[0])
    elif how == "shear":
        s = np.eye(n, dtype=complex)
        s[i, (i + 1) % n] += 0.5
        m = m @ s
    elif how == "phase-lost":
        m = np.abs(m)
    elif how == "ones":
        m = np.ones((n, n))
    elif how == "nan":
        m[i, j] = np.nan
    return m if np.iscomplexobj(u) or np.any(np.iscomplex(m)) else m.real.copy()


def formed(u, how):
    """The same matrix as another kind of array."""
    whole = np.array_equal(u, np.round(np.real(u)))
    if how == "fortran":
        return np.asfortranarray(u)
    if how == "transposed":
        return np.ascontiguousarray(u.T).T
    if how == "slice":
        big = np.full((2 * len(u) + 1, len(u) + 3), 7, dtype=u.dtype)
        big[1::2, 2:-1] = u
        return big[1::2, 2:-1]
    if how == "reversed":
        return u[::-1, ::-1].copy()[::-1, ::-1]
    if how == "read-only":
        u = u.copy()
        u.flags.writeable = False
    if how == "complex":
        return u.astype(complex)
    if how in ("int", "int8", "bool") and whole and (how != "bool" or u.min() >= 0):
        return np.real(u).astype(how)
    return u


def check(case):
    dims, ops, regs = case["dims"], case["ops"], case["regs"]
    size = ref.size([dims[r] for r in regs])
    good = "spoil" not in case and "size" not in case
    u = ref.matrix(case["spec"], case.get("size", size))
    if "spoil" in case:
        u = spoiled(u, case["spoil"], case["where"])
        gap = np.max(np.abs(u @ u.conj().T - np.eye(len(u))))
        if gap < 1e-3:
            good = True  # spoiling changed nothing that matters (|permutation| ...)
            if gap > 1e-12:
                return {"nontrivial": False, "classes": ["too-close"]}
    u = formed(u, case.get("form"))
    before = u.copy()
    state = max(dims) > 10
    kind = "state" if state else "print"
    qc = sutil.new(list(dims), case["init"], case["backend"], sutil.output(dims, "state", "amplitude") if state else None)
    refused, made = None, []
    for i in range(len(ops) + 1):
        if i == case["at"]:
            try:
                with quiet():
                    got = qc.gate(sutil.arbitrary(u, made), regs[0] if case["scalar"] else list(regs))
            except Exception as e:
                refused = e
                break
            require(got is True, "gate() returned %r", got)
            require(made, "gate() did not make a gate")
            for q, d, back in made:  # classes may build their matrix from these
                got = [[int(v) for v in np.atleast_1d(x)] if x is not None else x for x in (q, d)]
                require(got == [regs, [dims[r] for r in regs]], "a gate on registers %s of %s was made with qreg=%s, dims=%s", regs, dims, q, d)
                require(case["backend"] is None or back is sutil.backend(case["backend"]), "a gate of a circuit on the %s backend was made with %s",
                        case["backend"], back)
        if i < len(ops):
            with sut("gate %d %s" % (i, ops[i])):
                sutil.place(qc, ops[i], dims)
    result = None
    if refused is None:
        with sut("measure_all()"):
            qc.measure_all()
        try:
            with quiet():
                result = qc.run()
        except Exception as e:
            refused = e
    describe = "%s on registers %s of %s" % (case.get("spoil") or "a %dx%d matrix" % u.shape, regs, dims)
    if good:
        if refused is not None:
            raise Violation("a unitary of the right size (%s) was refused: %s %s" % (describe, type(refused).__name__, refused))
        t = ref.simulate(dims, case["init"], ops[: case["at"]])
        t = ref.contract(t, u, regs)
        for op in ops[case["at"]:]:
            t = ref.apply(t, op)
        sutil.same(sutil.vector(result, dims, kind), t.ravel(), dims, "custom gate " + describe)
    else:
        require(refused is not None, "%s: the matrix does not qualify, yet run() returned %s", describe, str(result)[:300])
    require(np.array_equal(u, before, equal_nan=True) and u.dtype == before.dtype, "the custom matrix was modified")
    return {"nontrivial": not good or len(regs) > 1 or bool(np.iscomplexobj(u)),
            "classes": ["good" if good else "refused", "regs-of-gate=%d" % len(regs)]
            + ([case["form"]] if case.get("form") else []) + (["spoil=" + case["spoil"]] if "spoil" in case else []) + (["wrong-size"] if "size" in case else [])}


FIXED = [
    {"dims": [2, 3], "init": [1, 2], "ops": [["h", 0]], "regs": [0, 1], "spec": ["herm", [1, 2, 3]], "at": 1, "scalar": False, "backend": "numpy"},
    {"dims": [3], "init": [1], "ops": [], "regs": [0], "spec": ["perm", [1]], "at": 0, "scalar": True, "backend": None,
     "spoil": "scale", "where": [0, 0]},
]
