"""The license tool adds its header to Python sources and harms nothing."""
import contextlib
import datetime
import importlib.util
import os
import stat
import sys
import tempfile
from unittest import mock

from hypothesis import strategies as st

from .. import env
from ..core import Violation, quiet, require, sut

ID = "C22"
RULE = ("random trees of Python and other files (interpreter and encoding lines, complete, old, cut off or altered headers, code, no newline at the end) "
        "in ordinary, hidden and dunder directories, put through a random sequence of check and fix runs on random files and directories of the tree, "
        "compared byte by byte with a model; non-trivial: a run that lists or fixes at least one file and leaves at least one other Python file alone")
ASSUMPTIONS = ["UTF-8 files with Unix line endings", "sources exist and are readable", "the year does not change during a run"]
QUICK, THOROUGH = 500, 12000

KEEP = ["# -*- coding: utf-8 -*-\n", "#!/usr/bin/env python\n"]
CODE = ["import os\n", "\n", "# a comment\n", "x = 1\n", "#\n", "    return  # ä ü\n", '"""doc"""\n', "#!/usr/bin/env python3\n", "# -*- coding: latin-1 -*-\n",
        "\x0c\n", "def f(): pass  # " + "y" * 300 + "\n", "#!/usr/bin/env python\n"]
DIRS = ["", "", "", "pkg", "pkg/sub", "pkg.py", ".git", "__pycache__", "pkg/.hidden/deep", "pkg/__dunder", "_private", "a b", "pkg/x__", "ends.",
        "a/b/c/d/e/f/g", "a/b/c", "a/b/c/d/e/__f/g"]
NAMES = ["a.py", "b.py", "__init__.py", ".dot.py", "stub.pyi", "c.pyc", "py", "notes.txt", "x.py.txt", "x.py~", "d.PY", "e.pyx", "two.parts.py", "fpy", "_.py", "main.pyi",
         "__main__.py", "conftest.py", "e.py", "f.py", "g.py", "h.py", "__about__.pyi", "z.txt"]


def header(year):
    return [line + "\n" for line in (
        "#               This file is part of the QuDiet package.",
        "#              https://github.com/LegacYFTw/qubit-qudit-sim",
        "#",
        "#                      Copyright (c) %d." % year,
        "#                      --.- ..- -.. .. . -",
        "#",
        "# Turbasu Chatterjee, Subhayu Kumar Bala, Arnav Das",
        "# Dr. Amit Saha, Prof. Anupam Chattopadhyay, Prof. Amlan Chakrabarti",
        "#",
        "#",
        "# SPDX-License-Identifier: AGPL-3.0",
        "#",
        "#  This program is free software: you can redistribute it and/or modify",
        "# it under the terms of the GNU General Public License as published by",
        "# the Free Software Foundation, version 3.",
        "#",
        "# This program is distributed in the hope that it will be useful, but",
        "# WITHOUT ANY WARRANTY; without even the implied warranty of",
        "# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE. See the GNU",
        "# General Public License for more details.",
        "#",
        "# You should have received a copy of the GNU General Public License",
        "# along with this program. If not, see <http://www.gnu.org/licenses/>.",
        "#",
        "",
    )]


HEADER = len(header(2000))


def strategy(tier):
    @st.composite
    def cases(draw):
        files, used = [], set()
        crowd = draw(st.sampled_from([None, None, "", "pkg"]))  # one directory holding most of the files
        for _ in range(draw(st.integers(1, 8 if tier == "quick" else 14)) + (0 if crowd is None else draw(st.integers(0, 12)))):
            where = draw(st.sampled_from(DIRS if crowd is None else [crowd] * 6 + DIRS))
            path = (where + "/" + draw(st.sampled_from(NAMES))).lstrip("/")
            if path in used:
                continue
            used.add(path)
            body = [["keep", draw(st.integers(0, 1))] for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2, 3])))]
            kind = draw(st.sampled_from(["none", "none", "whole", "whole", "old", "cut", "altered", "late", "twice"]))
            if kind == "whole":
                body.append(["header"])
            elif kind == "twice":
                body += [["header"], ["header"]]
            elif kind == "old":
                body.append(["old", draw(st.integers(1, 5))])
            elif kind == "cut":
                body.append(["cut", draw(st.integers(1, HEADER - 1))])
            elif kind == "altered":
                body.append(["altered", draw(st.integers(0, HEADER - 1)), draw(st.integers(0, 2))])
            tail = [["code", draw(st.integers(0, len(CODE) - 1))] for _ in range(draw(st.sampled_from([0, 0, 1, 2, 5])))]
            if kind == "late":
                tail += [["code", 0], ["header"]]
            if draw(st.integers(0, 24)) == 0:
                tail.append(["bulk", draw(st.integers(0, len(CODE) - 1)), draw(st.sampled_from([300, 1100, 4100, 9000, 70000]))])
            files.append({"path": path, "body": body + tail, "open_end": bool(tail) and draw(st.integers(0, 3)) == 0,
                          "mode": draw(st.sampled_from([0o644, 0o644, 0o755]))})
        if draw(st.integers(0, 11)) == 0:  # a directory of very many files
            where = draw(st.sampled_from(["", "pkg/", "pkg/sub/"]))
            kinds = [[], [["header"]], [["keep", 1], ["header"]], [["keep", 1]], [["cut", 5]], [["header"], ["code", 0]], [["code", 3]]]
            pick = draw(st.lists(st.integers(0, len(kinds) - 1), min_size=2, max_size=9))
            for i in range(draw(st.integers(30, 150))):
                path = "%sm%d.%s" % (where, i, "pyi" if i % 11 == 3 else "txt" if i % 13 == 5 else "py")
                used.add(path)
                files.append({"path": path, "body": kinds[pick[i % len(pick)]], "open_end": False, "mode": 0o644})
        runs = []
        for _ in range(draw(st.integers(1, 4))):
            sources = draw(st.lists(st.one_of(st.just("."), st.sampled_from(sorted(used)), st.sampled_from(sorted({os.path.dirname(u) or "." for u in used}))),
                                    min_size=0 if runs else 1, max_size=3))
            runs.append({"mode": draw(st.sampled_from(["fix", "check", "check", "fix", "fix", "other"])), "sources": sources,
                         "absolute": draw(st.booleans()), "from": draw(st.sampled_from(sorted({os.path.dirname(u) for u in used} | {""})))})
        return {"files": files, "runs": runs}

    return cases()


def content(f, year):
    lines = []
    for piece in f["body"]:
        if piece[0] == "keep":
            lines.append(KEEP[piece[1]])
        elif piece[0] == "code":
            lines.append(CODE[piece[1]])
        elif piece[0] == "bulk":
            lines += [CODE[piece[1]]] * piece[2]
        elif piece[0] == "header":
            lines += header(year)
        elif piece[0] == "old":
            lines += header(year - piece[1])
        elif piece[0] == "cut":
            lines += header(year)[:piece[1]]
        elif piece[0] == "altered":
            h = header(year)
            if piece[2] == 0:
                del h[piece[1]]
            elif piece[2] == 1:
                h[piece[1]] = h[piece[1]].rstrip("\n") + " \n"
            else:
                h.insert(piece[1], "#\n")
            lines += h
    text = "".join(lines)
    return text[:-1] if f["open_end"] and text.endswith("\n") else text


def split(text):
    """Number of characters in the leading lines that stay above the header."""
    at = 0
    while True:
        for k in KEEP:
            if text.startswith(k, at):
                at += len(k)
                break
        else:
            return at


def lacks(text, year):
    return not text.startswith("".join(header(year)), split(text))


def concerned(path):
    return (path.endswith(".py") or path.endswith(".pyi")) and not any(
        part.startswith(".") or part.startswith("__") for part in path.split("/")[:-1])


def tool():
    path = os.path.join(env.REPO, "scripts", "license-headers.py")
    if "module" not in _loaded:
        spec = importlib.util.spec_from_file_location("license_headers", path)
        module = importlib.util.module_from_spec(spec)
        with sut("loading scripts/license-headers.py"):
            spec.loader.exec_module(module)
        _loaded["module"] = module
    return _loaded["module"]


_loaded = {}


@contextlib.contextmanager
def inside(where):
    old = os.getcwd()
    os.chdir(where)
    try:
        yield
    finally:
        os.chdir(old)


def tree(top):
    found = {}
    for d, _, names in os.walk(top):
        for name in names:
            path = os.path.join(d, name)
            with open(path, "rb") as f:
                found[os.path.relpath(path, top)] = f.read().decode("utf-8", "replace")
    return found


def check(case):
    years = {datetime.date.today().year}
    module = tool()
    years.add(datetime.date.today().year)
    require(getattr(module, "YEAR", min(years)) in years, "the tool's year is %s", module.YEAR)
    year = getattr(module, "YEAR", min(years))
    classes, nontrivial = set(), False
    with tempfile.TemporaryDirectory(prefix="qv-license-") as top:
        top = os.path.realpath(top)
        for f in case["files"]:
            path = os.path.join(top, f["path"])
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w", encoding="utf-8", newline="") as out:
                out.write(content(f, year))
            os.chmod(path, f["mode"])
        now = tree(top)
        for n, run in enumerate(case["runs"]):
            where = os.path.join(top, run["from"])
            args = [os.path.join(top, s) if run["absolute"] else os.path.relpath(os.path.join(top, s), where) for s in run["sources"]]
            reached = {p for p in now for s in run["sources"] if s in (".", p) or p.startswith(s + "/")}
            need = sorted(p for p in reached if concerned(p) and lacks(now[p], year))
            what = "run %d: license-headers.py %s %s in /%s" % (n, run["mode"], " ".join(args), run["from"])
            with mock.patch.object(sys, "argv", ["license-headers.py", run["mode"]] + args), inside(where), quiet() as out:
                status, error = 0, None
                try:
                    module.main()
                except SystemExit as e:
                    status = e.code or 0
                except Exception as e:
                    error = e
            out = out.getvalue()
            if run["mode"] == "other":
                require(error is not None or status, "%s: an unknown mode is accepted", what)
            elif error is not None:
                raise Violation("%s failed with %s: %s" % (what, type(error).__name__, str(error)[:300]))
            want = dict(now)
            if run["mode"] == "fix":
                require(not status, "%s ended with status %s", what, status)
                for p in need:
                    at = split(now[p])
                    want[p] = now[p][:at] + "".join(header(year)) + now[p][at:]
            elif run["mode"] == "check":
                require(bool(status) == bool(need), "%s: status %s, but the files without header are %s", what, status, need)
                listed = {os.path.relpath(os.path.join(where, line[3:]), top) for line in out.splitlines() if line.startswith(" - ")}
                require(listed == set(need), "%s lists %s, the files without header are %s", what, sorted(listed), need)
            got = tree(top)
            for p in sorted(set(got) | set(want)):
                require(got.get(p) == want.get(p), "%s: %s is %r, should be %r", what, p, got.get(p), want.get(p))
            for f in case["files"]:
                mode = stat.S_IMODE(os.stat(os.path.join(top, f["path"])).st_mode)
                require(mode == f["mode"], "%s: the mode of %s became %o", what, f["path"], mode)
            now = got
            classes.add("%s-%d" % (run["mode"], min(len(need), 3)))
            if need and run["mode"] != "other" and any(p.endswith((".py", ".pyi")) and p not in need for p in now):
                nontrivial = True
    return {"nontrivial": nontrivial, "classes": sorted(classes)}
