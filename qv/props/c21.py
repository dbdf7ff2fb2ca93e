"""The batch runner saves the true result of every runnable program."""
import contextlib
import importlib
import os
import pickle
import resource
import sys
import tempfile
import time
import warnings
from unittest import mock

from hypothesis import strategies as st

from .. import cuda_shim, env, gen, qasm, ref, sutil
from ..core import quiet, require, sut
from . import c15

cuda_shim.install()

ID = "C21"
RULE = ("random directory tree of valid programs, broken programs, programs too large for the memory available, unreadable files "
        "(directories, dangling links), blocked results, stale results, files of other types and sub-directories, put through main() with random "
        "mode, backend (CUDA ones on stand-ins) and flags; a backend of unknown name is refused before anything is written; files left behind, their contents (against the reference simulator), warnings and untouched inputs "
        "checked, then read back in pkl mode; non-trivial: at least two valid and one broken program")
ASSUMPTIONS = ["file names do not start with a dot and the directory has no glob characters", "amplitudes are compared to 1e-10",
               "a program that cannot be run has no earlier result file", "too large: 32 and more qubits with 400 MB left"]
QUICK, THOROUGH = 260, 2000

JUNK = [b"", b"\n", b"\xff\xfe\x00bad", b"hello [/b] world", b".begin\n.end\n", b"# h\n.qubit 1\nqudit x0 (3)\n.begin\nX x0 [/b]\n.end\n",
        b"# h\n.qubit 1\nqudit x0 (3)\n.begin\nX x0 [bold]\n.end\n", b"# h\n.qubit 2\nqubit x0\nqubit x1\n.begin\nCX x0 x5\n.end\n"]
NAMES = ["a", "b", "circuit", "n10", "tof_qutrit", "with space", "dots.in.name", "v1.0", "x[1]", "c[/b]", "UPPER", "a-sparse", "ä", "a.txt", "b.qasm.txt", "x.txt.y", "txt", "qasm"]
UNKNOWN = ["Sparse", "numpy ", "cupy", "sparse-numpy", "cuda-sparse", "", "qiskit"]
CLASSES = {"sparse": "SparseBackend", "numpy": "NumpyBackend", "cuda": "CUDABackend", "sparse-cuda": "CUDASparseBackend"}
DIRS = ["", "", "sub", "sub/deep", "other", "sub.dir", "qasm", "a/b/c/d/e/f", "old.txt", "old.qasm/sub"]


def strategy(tier):
    @st.composite
    def cases(draw):
        mode = draw(st.sampled_from(["txt", "qasm", None]))
        files, used = [], set()
        for _ in range(draw(st.integers(1, 7))):
            stem = draw(st.sampled_from(DIRS)) + "/" + draw(st.sampled_from(NAMES))
            ext = draw(st.sampled_from([mode or "txt"] * 6 + ["txt", "qasm", "md", "json"]))
            if stem in used:
                continue
            used.add(stem)
            kind = draw(st.sampled_from(["valid"] * 7 + ["faulty", "faulty", "junk", "junk", "stale", "dir", "link", "blocked", "large"]))
            f = {"path": stem.lstrip("/") + "." + ext, "kind": kind}
            if kind in ("dir", "link"):
                pass
            elif kind == "large":
                f["n"] = draw(st.integers(32, 44))
                f["gates"] = draw(st.lists(st.tuples(st.sampled_from("HXZ"), st.integers(0, 19)).map(list), min_size=1, max_size=3))
            elif kind == "junk":
                f["junk"] = draw(st.integers(0, len(JUNK) - 1))
            else:
                f["program"] = draw(qasm.program(cap=36, max_regs=4, max_ops=6, min_ops=1) if draw(st.integers(0, 2))
                                    else qasm.program(cap=100, max_regs=6, max_dim=4, max_ops=9, min_ops=1, min_regs=4))
                if kind == "faulty":
                    f["program"].update(fault=draw(st.sampled_from(c15.FAULTS)), at=draw(st.integers(0, 99)), case=draw(st.integers(0, 2)),
                                        word=draw(st.sampled_from(c15.WORDS)), k=draw(st.integers(0, 30)))
            if kind == "valid" and draw(st.integers(0, 9)) == 0:  # a long result
                n = draw(st.integers(5, 8))
                f["program"] = {"dims": [2] * n, "ops": [["h", q] for q in range(n)] + f["program"]["ops"][:0], "lay": f["program"]["lay"]}
            elif kind == "valid" and draw(st.integers(0, 9)) == 0:  # a long program
                f["program"]["ops"] = f["program"]["ops"] * draw(st.integers(10, 60))
                if ref.size(qasm.promoted(f["program"])) > 60:
                    f["program"]["ops"] = f["program"]["ops"][:40]
            files.append(f)
        if draw(st.integers(0, 19)) == 0:  # very many programs
            where, some = draw(st.sampled_from(["", "sub/"])), draw(qasm.program(cap=8, max_regs=2, max_ops=3, min_ops=1))
            files += [{"path": "%sm%d.%s" % (where, i, mode or "txt"), "kind": "valid", "program": some} for i in range(draw(st.integers(12, 40)))]
        return {"mode": mode, "files": files, "backend": draw(st.sampled_from(["numpy", "sparse", None, "numpy", "sparse", "cuda", "sparse-cuda"])),
                "flags": draw(st.sampled_from([[], ["-v"], ["-vv"], ["-t", "1"]])), "slash": draw(st.booleans()), "relative": draw(st.sampled_from([None, None, ".", "..", "dir"])),
                "unknown": draw(st.sampled_from([None] * 14 + UNKNOWN))}

    return cases()


def limited(megabytes):
    """Leaves this much address space until the returned function is called."""
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    with open("/proc/self/statm") as f:
        used = int(f.read().split()[0]) * resource.getpagesize()
    want = used + (megabytes << 20)
    if soft == resource.RLIM_INFINITY or want < soft:
        resource.setrlimit(resource.RLIMIT_AS, (want, hard))
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (soft, hard))


def run_main(args, refused=False):
    findable()
    tool = importlib.import_module("experimental")
    require(os.path.realpath(tool.__file__).startswith(os.path.realpath(env.REPO)), "wrong experimental.py")
    with mock.patch.object(sys, "argv", ["experimental.py"] + args), warnings.catch_warnings(record=True) as seen, quiet() as out:
        warnings.simplefilter("always")
        if refused:
            try:
                tool.main()
            except (Exception, SystemExit) as e:
                require(not isinstance(e, SystemExit) or e.code, "experimental.py %s ended as if it had worked", " ".join(args))
            else:
                require(False, "experimental.py %s ended as if it had worked", " ".join(args))
            return None
        with sut("experimental.py %s" % " ".join(args)):
            try:
                tool.main()
            except SystemExit as e:
                require(not e.code, "experimental.py %s ended with status %s", " ".join(args), e.code)
    return out.getvalue(), [str(w.message) for w in seen]


def findable():
    if env.REPO not in sys.path:
        sys.path.insert(1, env.REPO)


def pause():
    began = time.time()
    time.sleep(0.005)
    return time.time() - began


def spied(calls, pauses):
    """Patches that note which backends compute, and make opening a program and computing with it slow: pauses[path] = [opening, computing]."""
    findable()
    out = contextlib.ExitStack()
    opened, current = open, []

    def unhurried(file, *a, **k):
        got = opened(file, *a, **k)
        key = os.path.realpath(file) if isinstance(file, str) else None
        if key in pauses:
            pauses[key] = [pause(), 0]
            current[:] = [key]
        return got

    out.enter_context(mock.patch("builtins.open", unhurried))
    for name, word in CLASSES.items():
        for root in ("src.qudiet", "qudiet"):
            with sut("importing the backend " + name):
                cls = getattr(importlib.import_module("%s.core.backend.%s" % (root, word)), word)
            for method in ("kron", "dot", "eye", "matrix"):
                f = getattr(cls, method)

                def noted(*a, _f=f, _name=name, _method=method, **k):
                    calls.add(_name)
                    if current and _method in ("kron", "dot"):
                        pauses[current.pop()][1] = pause()
                    return _f(*a, **k)

                out.enter_context(mock.patch.object(cls, method, staticmethod(noted)))
    return out


def tree(top):
    found = {}
    for d, _, names in os.walk(top):
        for name in names:
            path = os.path.join(d, name)
            if os.path.islink(path):
                found[os.path.relpath(path, top)] = "link"
                continue
            with open(path, "rb") as f:
                found[os.path.relpath(path, top)] = f.read()
    return found


def content(f):
    if f["kind"] == "junk":
        return JUNK[f["junk"]]
    if f["kind"] == "large":
        lines = ["# large", ".qubit %d" % f["n"]] + ["qubit x%d" % i for i in range(f["n"])] + [".begin"]
        return "\n".join(lines + ["%s x%d" % tuple(g) for g in f["gates"]] + [".end", ""]).encode()
    if f["kind"] == "faulty":
        return ("\n".join(c15.spoil(f["program"])) + "\n").encode()
    return qasm.text(f["program"]).encode()


def check(case):
    mode, back = case["mode"], case["backend"] or "sparse"
    result = lambda f: f["path"].rsplit(".", 1)[0] + "-" + back + ".pkl"
    with tempfile.TemporaryDirectory(prefix="qv-batch-") as top, contextlib.ExitStack() as stack:
        for f in case["files"]:
            path = os.path.join(top, f["path"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if f["kind"] == "dir":
                os.makedirs(path, exist_ok=True)
                continue
            if f["kind"] == "link":
                os.symlink(os.path.join(top, "nowhere"), path)
                continue
            with open(path, "wb") as out:
                out.write(content(f))
            if f["kind"] == "blocked":
                os.makedirs(os.path.join(top, result(f)), exist_ok=True)
            elif f["kind"] == "stale":
                with open(os.path.join(top, result(f)), "wb") as out:
                    out.write(b"an older result")
        mine = [f for f in case["files"] if f["path"].endswith("." + (mode or "txt"))]
        stale = [result(f) for f in mine if f["kind"] == "stale"]
        before = {k: v for k, v in tree(top).items() if k not in stale}
        args = (["-m", mode] if mode else []) + (["-b", case["backend"]] if case["backend"] else []) + case["flags"]
        where = top + "/" if case["slash"] else top
        away, home = case.get("relative"), os.getcwd()
        if away:
            inner = os.path.join(top, "other")
            if away == "..":
                os.makedirs(inner, exist_ok=True)
            os.chdir({".": top, "..": inner, "dir": os.path.dirname(top)}[away])
            where = os.path.basename(top) if away == "dir" else away
            stack.callback(os.chdir, home)
        if case.get("unknown") is not None:
            before = tree(top)
            run_main((["-m", mode] if mode else []) + ["-b", case["unknown"]] + case["flags"] + [where], refused=True)
            require(tree(top) == before, "a refused request for the backend %r changed files", case["unknown"])
            return {"nontrivial": bool(mine), "classes": ["unknown-backend"]}
        restore = limited(400) if any(f["kind"] == "large" for f in mine) else lambda: None
        calls, began = set(), time.time()
        spot = lambda f: os.path.realpath(os.path.join(top, f["path"]))
        pauses = {spot(f): [0, 0] for f in mine if f["kind"] in ("valid", "stale")}
        try:
            with spied(calls, pauses):
                _, seen = run_main(args + [where])
        finally:
            restore()
        took = time.time() - began
        after = tree(top)
        valid = [f for f in mine if f["kind"] in ("valid", "stale")]
        broken = [f for f in mine if f["kind"] not in ("valid", "stale")]
        for path, data in before.items():
            require(after.get(path) == data, "the input file %s was changed or removed", path)
        want, got = sorted(result(f) for f in valid), sorted(set(after) - set(before))
        require(got == want, "result files %s were written, should be %s (valid programs %s, broken ones %s)", got, want,
                [f["path"] for f in valid], [f["path"] for f in broken])
        for f in valid:
            dims = qasm.promoted(f["program"])
            ops = [qasm.plain(o) for o in f["program"]["ops"]]
            try:
                saved = pickle.loads(after[result(f)])
            except Exception as e:
                require(False, "the result file of %s cannot be read: %s", f["path"], e)
            require(isinstance(saved, dict) and {"value", "config", "loading-time", "execution-time"} <= set(saved),
                    "the result file of %s holds %s", f["path"], saved)
            require(back in calls, "the programs were run without the selected backend %s", back)
            vec = sutil.vector(saved["value"], dims)
            sutil.same(vec, ref.simulate(dims, None, ops).ravel(), dims, "the saved result of\n%s\n" % content(f).decode())
            config = {"width": len(dims), "depth": ref.depth(len(dims), ops)}
            require(saved["config"] == config, "the saved configuration of %s is %s, should be %s", f["path"], saved["config"], config)
            require(saved["loading-time"] >= 0 and saved["execution-time"] >= 0, "negative times in %s", saved)
            for which, least in zip(("loading-time", "execution-time"), pauses[spot(f)]):
                require(saved[which] >= 0.8 * least, "the %s of %s is %s although at least %.4f passed", which, f["path"], saved[which], least)
            require(saved["loading-time"] + saved["execution-time"] <= took + 0.5, "the saved times of %s are %s and %s; the whole run took %s",
                    f["path"], saved["loading-time"], saved["execution-time"], took)
        for f in broken:
            require(any(f["path"] in w for w in seen), "nothing is reported about %s (%s)", f["path"], seen)
        for f in valid:
            require(not any("'" + os.path.join(where, f["path"]) + "'" in w and "got exception" in w for w in seen),
                    "the valid %s is reported as failing: %s", f["path"], seen)
        unread = [f for f in case["files"] if f["kind"] == "blocked" or (f["kind"] == "stale" and f not in mine)]
        if not unread:
            shown, _ = run_main(["-m", "pkl", where])
            require(tree(top) == after, "reading results back changed the files")
            require(shown.count("'value'") == len(valid), "pkl mode shows %d results instead of %d", shown.count("'value'"), len(valid))
            bare = "".join(shown.split())
            for f in valid:
                require("".join(("'%s'" % os.path.basename(result(f))).split()) in bare, "pkl mode does not name %s", result(f))
                require("".join(str(pickle.loads(after[result(f)])).split()) in bare, "pkl mode does not show the result of %s:\n%s", result(f), shown)
    return {"nontrivial": len(valid) >= 2 and len(broken) >= 1,
            "classes": ["valid=%d" % len(valid), "broken=%d" % len(broken), "backend=" + back, "mode=%s" % mode]
            + (["nested"] if any("/" in f["path"] for f in mine) else []) + sorted({"kind=" + f["kind"] for f in mine})}


FIXED = [
    {"mode": None, "backend": None, "flags": ["-v"], "slash": False, "files": [
        {"path": "a.txt", "kind": "junk", "junk": 5},
        {"path": "c[/b].txt", "kind": "valid", "program": {"dims": [2, 3], "ops": [["x", 0, 1], ["cx", 0, 1, 2]], "lay": [0]}},
        {"path": "sub.dir/z.txt", "kind": "valid", "program": {"dims": [2, 3], "ops": [["x", 0, 1], ["h", 1]], "lay": [0]}}]},
]
