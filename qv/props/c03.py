"""All backends compute the same thing."""
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from .. import cuda_shim, gen, ref, sutil
from ..core import Violation, require, sut

cuda_shim.install()

ID = "C03"
RULE = ("either a random circuit run on the Numpy, Sparse, CUDA and CUDASparse backends and the default one, all "
        "results compared pairwise and with the reference simulator, or random matrices put through every "
        "backend operation and compared with dense numpy; non-trivial: a circuit with a gate on two or more "
        "registers, or matrices of different shapes")
ASSUMPTIONS = ["cupy and cupyx are replaced by numpy/scipy stand-ins",
               "backend operations receive two-dimensional arrays, is_unitary a dense square one",
               "amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 390, 4000


def backends():
    with sut("importing the backends"):
        from qudiet.core.backend.CUDABackend import CUDABackend
        from qudiet.core.backend.CUDASparseBackend import CUDASparseBackend

        return {"default": None, "numpy": sutil.backend("numpy"), "sparse": sutil.backend("sparse"),
                "cuda": CUDABackend, "cuda-sparse": CUDASparseBackend}


def counting(base):
    """A backend made by the user: it works as the other ones and counts what it does."""
    calls = []

    def counted(name):
        def call(*args, **kwargs):
            calls.append(name)
            return getattr(base, name)(*args, **kwargs)

        return staticmethod(call)

    return type("Counting", (base,), {n: counted(n) for n in ("kron", "dot", "eye", "matrix", "nonzero", "is_unitary")}), calls


def shapes(draw, n):
    return [draw(st.integers(1, 6)) for _ in range(n)]


def strategy(tier):
    big = tier == "thorough"

    @st.composite
    def cases(draw):
        if draw(st.integers(0, 2)):
            kind = draw(st.sampled_from(["small", "small", "wide", "wide", "deep", "deep", "big-dim", "many"]))
            if kind == "wide":
                c = draw(gen.circuit(cap=300 if big else 160, max_regs=7, max_dim=5, max_ops=10, min_regs=3))
            elif kind == "deep":
                c = draw(gen.circuit(cap=24, max_ops=35, min_ops=12))
            elif kind == "many":
                c = draw(gen.many(7, 9, 512, max_ops=5))
            elif kind == "big-dim":
                c = draw(gen.circuit(cap=64, max_regs=2, max_dim=20, max_ops=8))
            else:
                c = draw(gen.circuit(cap=64, max_ops=12))
            c["format"] = [draw(st.sampled_from(["print", "state"])) if max(c["dims"]) <= 10 else "state",
                           draw(st.sampled_from(["amplitude", "probability"]))]
            return c
        a, b, c, d = (draw(st.integers(1, 6)) for _ in range(4))
        ints = lambda k: draw(st.lists(st.integers(-3, 3), min_size=k, max_size=k))
        n = draw(st.integers(1, 8))
        return {"matrices": {
            "A": [[a, b], ints(a * b), ints(a * b)], "B": [[c, d], ints(c * d), ints(c * d)],
            "C": [[b, d], ints(b * d), ints(b * d)]},
            "fade": draw(st.lists(st.sampled_from([0, 0, 10, 27]), min_size=1, max_size=7)),
            "n": n, "spec": draw(gen.specs()), "tall": draw(st.sampled_from([0, 0, 70, 260, 1030, 2050, 4100, 9000])) + draw(st.integers(1, 9)),
            "spoil": draw(st.sampled_from(["none", "scale", "entry", "zero-column", "repeat-row"]))}

    return cases()


def dense(m):
    return np.asarray(m.toarray() if hasattr(m, "toarray") else m)


def check(case):
    return operations(case) if "matrices" in case else circuit(case)


def circuit(case):
    dims = case["dims"]
    kind, method = case["format"]
    want = ref.simulate(dims, case["init"], case["ops"]).ravel()
    if method == "probability":
        want = np.abs(want) ** 2
    seen = {}
    own, calls = counting(sutil.backend("numpy" if len(case["ops"]) % 2 else "sparse"))
    for name, back in list(backends().items()) + [("user's", own)]:
        out = sutil.output(dims, kind, method)
        from qudiet.core.quantum_circuit import QuantumCircuit

        with sut("a circuit on the %s backend" % name):
            kw = {} if case["init"] is None else {"init_states": list(case["init"])}
            qc = QuantumCircuit(list(dims), backend=back, output=out, **kw)
            for op in case["ops"]:
                sutil.place(qc, op, dims)
            qc.measure_all()
            result = qc.run()
        vec = sutil.vector(result, dims, kind)
        for other, v in seen.items():
            sutil.same(vec, v, dims, "%s backend against %s backend" % (name, other))
        sutil.same(vec, want, dims, "%s backend against the reference" % name)
        seen[name] = vec
    require({"kron", "dot", "matrix"} & set(calls), "a circuit given a backend does not use it")
    return {"nontrivial": gen.key_ops(case) > 0, "classes": gen.classify(case) + ["circuit"]}


def fill(m, fade):
    """Gaussian integers, some scaled by powers of two (so that products stay exact)."""
    (r, c), re, im = m
    scale = [2.0 ** -fade[i % len(fade)] for i in range(2 * r * c)]
    re, im = np.array(re, dtype=float) * scale[::2], np.array(im, dtype=float) * scale[1::2]
    return re.reshape(r, c) + 1j * im.reshape(r, c)


def operations(case):
    A, B, C = (fill(case["matrices"][k], case.get("fade") or [0]) for k in "ABC")
    n = case["n"]
    U = np.array(ref.matrix(case["spec"], n), dtype=complex)
    good = True
    if case["spoil"] != "none":
        V = U.copy()
        if case["spoil"] == "scale":
            V *= 1.01
        elif case["spoil"] == "entry":
            V[n // 2, 0] += 0.01
        elif case["spoil"] == "zero-column":
            V[:, n - 1] = 0
        elif n > 1:
            V[n - 1] = V[0]
        good = bool(np.allclose(V @ V.conj().T, np.eye(n)))
        near = np.max(np.abs(V @ V.conj().T - np.eye(n)))
        if not good and near < 1e-3:
            good = None  # too close to call
        U = V
    for name, back in backends().items():
        if back is None:
            continue

        def equal(got, want, what, slack=1e-24):
            got = dense(got)
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=slack):
                raise Violation("%s of the %s backend is wrong for shapes %s %s %s: shape %s\n%s" % (
                    what, name, A.shape, B.shape, C.shape, got.shape, got))

        with sut("an operation of the %s backend" % name):
            a, b, c = back.matrix(A), back.matrix(B), back.matrix(C)
            equal(a, A, "matrix")
            equal(back.kron(a, b), np.kron(A, B), "kron")
            equal(back.kron(back.kron(a, b), c), np.kron(np.kron(A, B), C), "kron of kron")
            equal(back.dot(a, c), A @ C, "dot", 1e-12)
            equal(back.dot(back.kron(a, b), back.kron(c, back.matrix(B.T.copy()))),
                  np.kron(A, B) @ np.kron(C, B.T), "dot of krons", 1e-12)
            equal(a, A, "an argument after kron and dot: it")
            if case.get("tall"):  # columns as long as large state vectors
                t = case["tall"]
                col = np.array([[(3 * i * i + i) % 7 - 3 + 1j * (i % 5)] for i in range(t)])
                equal(back.matrix(col), col, "matrix of a long column")
                equal(back.kron(back.matrix(col), b), np.kron(col, B), "kron of a long column and a matrix")
                equal(back.kron(b, back.matrix(col)), np.kron(B, col), "kron of a matrix and a long column")
                equal(back.dot(back.matrix(col.T.copy()), back.matrix(col)), col.T @ col, "dot of long vectors", 1e-9)
            equal(back.eye(n, n), np.eye(n), "eye")
            equal(back.eye(n, A.shape[0]), np.eye(n, A.shape[0]), "eye")
            equal(back.kron(back.eye(n, n), a), np.kron(np.eye(n), A), "kron with eye")
            real, ints = A.real.copy(), np.rint(A.real).astype(int)
            equal(back.matrix(real), real, "matrix of reals")
            equal(back.matrix(ints), ints, "matrix of integers")
            equal(back.kron(back.matrix(real), b), np.kron(real, B), "kron of real and complex")
            if "sparse" not in name:
                equal(back.matrix(A[0].copy()), A[0].reshape(-1, 1), "matrix of a vector")
            nz = back.nonzero(a)
            got = sorted(zip(*(map(int, np.asarray(i)) for i in nz)))
            require(got == sorted(zip(*(map(int, i) for i in A.nonzero()))),
                    "nonzero of the %s backend: %s", name, got)
            if good is not None:
                device = cuda_shim._dev(U) if name.startswith("cuda") else U
                require(bool(back.is_unitary(device)) == good, "is_unitary of the %s backend says %s for\n%s",
                        name, not good, U)
    return {"nontrivial": len({A.shape, B.shape, C.shape}) > 1,
            "classes": ["matrices", "spoil=" + case["spoil"], "unitary" if good else "not-unitary"]}


FIXED = [
    {"matrices": {k: [[1, 1], [1], [1]] for k in "ABC"}, "n": 2, "spec": ["perm", [1]], "spoil": "none"},
    {"dims": [2, 3], "init": None, "ops": [["h", 0], ["h", 1], ["z", 1], ["cx", 1, 0, 1]], "format": ["print", "probability"]},
]
