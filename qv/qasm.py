"""QASM programs as plain data, rendered to text in many layouts.

A program: {"dims": [...], "ops": [...], "lay": [ints], "raw": optional statement lines}.
ops use x, rx (as ["rx", q]), h, z, cx and tof2 (["tof2", a, b, t]).  Every layout choice is taken
from the integers of "lay", cyclically, so that a case shrinks and replays as data.
"""
import re

from hypothesis import strategies as st

from . import gen, ref

COMMENTS = ["# comment", "#", "# qubit x7", "# .end", "# X x0", "## H x0 #", "#\tTOFFOLI x0 x1 x2", "# .begin"]


class Layout:
    def __init__(self, ints):
        self.ints, self.k = list(ints) or [0], 0

    def pick(self, options):
        v = self.ints[self.k % len(self.ints)]
        self.k += 1
        return options[v % len(options)]


def name(word, lay):
    return lay.pick([word, word, word.lower(), word.capitalize(), word[0].lower() + word[1:]])


def reg(i, lay, forms=("%d", "q%d")):
    """The shipped programs also write "X 3" and "CX q0 q1"."""
    return lay.pick(["x%d"] * 13 + ["x0%d", "x00%d"] + list(forms)) % i


def statement(op, lay, dims):
    kind = op[0]
    gap = lambda: lay.pick([" ", " ", " ", "  ", " ", "   ", "\t"])
    if kind == "rx":
        return name("RX", lay) + gap() + reg(op[1], lay) + gap() + "180"
    if kind in ("h", "z"):
        return name(kind.upper(), lay) + gap() + reg(op[1], lay)
    if kind == "x":
        s = name("X", lay) + gap() + reg(op[1], lay)
        if op[2] != 1 or lay.pick([0, 0, 1]):
            s += gap() + str(op[2])
        return s
    if kind == "cx":
        s = name(lay.pick(["CX", "CNOT"]), lay) + gap() + reg(op[1], lay) + gap() + reg(op[2], lay)
        if op[3] != 1 or lay.pick([0, 0, 1]):
            s += gap() + str(op[3])
        return s
    sep = lay.pick([", ", " ", ",", " , "])
    return name("TOFFOLI", lay) + gap() + sep.join(reg(r, lay) for r in op[1:4])


def declaration(i, d, lay):
    forms = ["qudit x%d (%d)" % (i, d), "qudit x%d (%d)" % (i, d), "qudit x%d(%d)" % (i, d), "qudit x%d  (%d)" % (i, d)] * 2
    forms.append("qudit q%d (%d)" % (i, d))
    if d == 2:
        forms += ["qubit x%d" % i] * 3
    if d == 3:
        forms += ["qutrit x%d" % i] * 3
    return lay.pick(forms)


def parts(prog):
    """(header lines, size line, declaration lines, gate lines, tail lines)"""
    dims, ops = prog["dims"], prog["ops"]
    lay = Layout(prog["lay"])
    order = list(range(len(dims)))
    how = lay.pick(["up", "up", "up", "down", "rotate", "text"])
    if how == "down":
        order.reverse()
    elif how == "rotate":
        order = order[1:] + order[:1]
    elif how == "text":
        order.sort(key=str)
    decls = [declaration(i, dims[i], lay) for i in order]
    gates = list(prog["raw"]) if prog.get("raw") is not None else [statement(op, lay, dims) for op in ops]
    header = lay.pick([["# a header"], ["# one", "# two"], ["", "# header"], ["header text"], ["# qubits x1 (2)", ""]])
    n = lay.pick([len(dims), len(dims), len(dims), 11, 1])
    size = lay.pick([".qubit %d", ".qudit %d", ".qudit %d ", ".qutrit %d"]) % n
    tail = lay.pick([[], [""], ["", "# done"], ["# X x0"]])
    return header, size, decls, gates, tail, lay


def decorate(lines, lay):
    """Blank lines, comments and indentation around lines that must stay in order."""
    out = []
    for line in lines:
        extra = lay.pick(["", "", "", "", "blank", "comment"])
        if extra == "blank":
            out.append(lay.pick(["", "   ", "\t"]))
        elif extra == "comment":
            out.append(lay.pick(["", "  "]) + lay.pick(COMMENTS))
        line = lay.pick(["", "", "", "    ", "\t"]) + line + lay.pick(["", "", "", " ", "  # " + "note", " " + COMMENTS[0], "#x"])
        out.append(line)
    return out


def text(prog, letters=False):
    """letters: with letters beyond ASCII in the header and the comments."""
    header, size, decls, gates, tail, lay = parts(prog)
    lines = header + decorate([size] + decls + [".begin"] + gates + [".end"], lay) + tail
    if letters:
        header = header + ["# Gr\u00fc\u00dfe \u4f60\u597d \U0001f600"]
        lines = [l + (" # \u00e9\u03c8 |\u03c8\u27e9" if i % 3 == 0 else "") for i, l in enumerate(lines)]
        lines = header[-1:] + lines
    eol = lay.pick(["\n", "\n", "\n", "\r\n"])
    return eol.join(lines) + lay.pick(["", eol])


def promoted(prog):
    """Register dimensions after the Toffoli rule."""
    up = {op[2] for op in prog["ops"] if op[0] == "tof2"}
    return [d + (i in up) for i, d in enumerate(prog["dims"])]


def plain(op):
    """The operation of the circuit API."""
    if op[0] == "rx":
        return ["x", op[1], 1]
    if op[0] == "tof2":
        return ["tof", [op[1], op[2]], op[3], 1]
    return op


@st.composite
def operations(draw, ds, kinds, span_cap=96):
    n = len(ds)
    kinds = [k for k in kinds if not (k == "cx" and n < 2) and not (k == "tof2" and n < 3)]
    kind = draw(st.sampled_from(kinds))
    if kind == "rx":
        return ["rx", draw(st.integers(0, n - 1))]
    if kind == "tof2":
        lo = draw(st.integers(0, n - 3))
        hi = lo + 2
        while hi + 1 < n and gen.prod(ds[lo : hi + 2]) <= span_cap and draw(st.booleans()):
            hi += 1
        return ["tof2"] + list(draw(st.permutations(range(lo, hi + 1))))[:3]
    return draw(gen.op(ds, [kind], span_cap))


@st.composite
def program(draw, cap=48, max_regs=6, max_ops=10, kinds=("x", "x", "rx", "h", "z", "cx", "cx", "tof2"), min_regs=1,
            max_dim=5, min_ops=0):
    ds = draw(gen.dims(cap=cap, max_regs=max_regs, max_dim=max_dim, min_regs=min_regs))
    ops = [draw(operations(ds, kinds)) for _ in range(draw(st.integers(min_ops, max_ops)))]
    # raised registers enlarge the state space: keep it small
    while ref.size(promoted({"dims": ds, "ops": ops})) > 12 * cap:
        ops = [o for o in ops if o[0] != "tof2"] or []
    return {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=24))}


@st.composite
def lengthy(draw, lo=2, hi=14, longest=300, kinds=("x", "x", "rx", "h", "z", "cx", "cx", "tof2")):
    """Many registers and statements, not meant to be simulated."""
    n = draw(st.integers(lo, hi))
    tile = draw(st.lists(st.integers(2, 3), min_size=1, max_size=3))
    ds = [tile[i % len(tile)] for i in range(n)]
    ops = []
    for _ in range(draw(st.integers(1, 10))):
        op = draw(operations(ds, kinds, 40))
        for k in range(draw(st.sampled_from([1, 1, 2, 5]))):  # the same further down the registers
            regs = slice(1, {"cx": 3, "tof2": 4}.get(op[0], 2))
            if max(op[regs]) + k < n:
                ops.append(op[:1] + [q + k for q in op[regs]] + op[regs.stop:])
    ops = ops * draw(st.integers(1, max(1, longest // len(ops))))
    return {"dims": ds, "ops": ops, "lay": draw(st.lists(st.integers(0, 59), min_size=1, max_size=17))}


def read(line):
    """An independent reading of one statement (used for shipped programs)."""
    m = re.match(r"\s*(\w+)\s+(.*?)\s*$", line)
    word, rest = m.group(1).upper(), [w for w in re.split(r"[\s,]+", m.group(2)) if w]
    nums = [int(re.sub(r"^[a-zA-Z]+", "", w)) for w in rest]
    if word in ("H", "Z"):
        return [word.lower(), nums[0]]
    if word == "X":
        return ["x", nums[0], nums[1] if len(nums) > 1 else 1]
    if word in ("CX", "CNOT"):
        return ["cx", nums[0], nums[1], nums[2] if len(nums) > 2 else 1]
    if word == "TOFFOLI" and len(nums) == 3:
        return ["tof2"] + nums
    return None


# ------------------------------------------------------------------ strict reading of any text
GATE = re.compile(
    r"(?:(?P<hz>[HZ]) +x(?P<q>\d+)|X +x(?P<xq>\d+)(?: +(?P<xp>-?\d+))?|RX +x(?P<rq>\d+) +180"
    r"|(?:CX|CNOT) +x(?P<cc>\d+) +x(?P<ct>\d+)(?: +(?P<cp>-?\d+))?"
    r"|TOFFOLI +x(?P<ta>\d+)(?: +|, *| , *)x(?P<tb>\d+)(?: +|, *| , *)x(?P<tt>\d+))", re.I)
DECL = re.compile(r"(?:qudit x(\d+) {0,2}\((\d+)\)|(qubit|qutrit) x(\d+))")
TOKENS = {"H": (2,), "Z": (2,), "X": (2, 3), "RX": (3,), "CX": (3, 4), "CNOT": (3, 4), "TOFFOLI": (4,)}


def one_gate(line):
    """("ok", op), "bad" (malformed under any reading) or "unclear"."""
    m = GATE.fullmatch(line)
    if m:
        g = {k: int(v) for k, v in m.groupdict().items() if v is not None and k != "hz"}
        if m["hz"]:
            return "ok", [m["hz"].lower(), g["q"]]
        if "xq" in g:
            return "ok", ["x", g["xq"], g.get("xp", 1)]
        if "rq" in g:
            return "ok", ["rx", g["rq"]]
        if "cc" in g:
            return "ok", ["cx", g["cc"], g["ct"], g.get("cp", 1)]
        return "ok", ["tof2", g["ta"], g["tb"], g["tt"]]
    words = [w for w in re.split(r"[\s,]+", line) if w]
    if not words or words[0].upper() not in TOKENS or len(words) not in TOKENS[words[0].upper()]:
        # the name may run into what follows: only words that start like a name are unclear
        return "bad"
    word, rest = words[0].upper(), words[1:]
    regs = rest[: {"CX": 2, "CNOT": 2, "TOFFOLI": 3}.get(word, 1)]
    if not all(re.fullmatch(r"[A-Za-z]*[0-9]+", r) for r in regs):
        return "bad"
    if word == "RX" and rest[1] != "180":
        return "bad"
    if word in ("X", "CX", "CNOT") and len(rest) > len(regs) and not re.fullmatch(r"[+-]?[0-9]+", rest[-1]):
        return "bad"
    return "unclear"


def strict(text):
    """("ok", dims, ops), ("bad", why) or ("unclear", why) for any text."""
    if not text.isascii() or re.search(r"[\x00-\x08\x0b\x0c\x0e-\x1f\x7f]", text):
        return "unclear", "characters"
    if "\r" in text.replace("\r\n", ""):
        return "unclear", "line ends"
    lines = [l.split("#")[0].strip() for l in text.replace("\r\n", "\n").split("\n")]
    marks = []
    for i, l in enumerate(lines):
        if l.startswith("."):
            if re.fullmatch(r"\.(qubit|qudit|qutrit) \d+", l):
                marks.append((i, "size"))
            elif l in (".begin", ".end"):
                marks.append((i, l[1:]))
            else:
                return "unclear", "section mark %r" % l
    kinds = [k for _, k in marks]
    if marks and marks[0][0] == 0:  # no header
        return ("bad", "no header") if kinds == ["size", "begin", "end"] else ("unclear", "mark in the first line")
    if kinds != ["size", "begin", "end"]:
        return "bad", "sections %s" % kinds
    size, begin, end = (i for i, _ in marks)
    found, unclear = {}, None
    for l in filter(None, lines[size + 1 : begin]):
        m = DECL.fullmatch(l)
        if not m:
            if not re.search(r"\d\s*\(\s*\d|qubit\s+x\d|qutrit\s+x\d|qudit", l):
                return "bad", "declaration %r" % l
            unclear = unclear or "declaration %r" % l
            continue
        q = int(m[1] if m[1] is not None else m[4])
        d = int(m[2]) if m[2] is not None else {"qubit": 2, "qutrit": 3}[m[3]]
        if d == 1:  # a Toffoli may raise it to two levels: not settled by the documentation
            unclear = unclear or "declaration %r" % l
            continue
        if q in found or d < 2:
            return ("bad", "declaration %r" % l) if not unclear else ("unclear", unclear)
        found[q] = d
    if unclear:
        return "unclear", unclear
    n = len(found)
    if sorted(found) != list(range(n)):
        return "bad", "registers %s" % sorted(found)
    if not n:
        return "unclear", "no register"
    ops = []
    for l in filter(None, lines[begin + 1 : end]):
        got = one_gate(l)
        if got == "bad":
            return "bad", "statement %r" % l
        if got == "unclear":
            unclear = "statement %r" % l
            continue
        op = got[1]
        regs = op[1:4] if op[0] == "tof2" else op[1:3] if op[0] == "cx" else op[1:2]
        if max(regs) >= n or len(set(regs)) < len(regs):
            return "bad", "registers of %r" % l
        ops.append(op)
    if unclear:
        return "unclear", unclear
    if any(lines[end + 1 :]):
        return "unclear", "text after the end"
    return "ok", [found[q] for q in range(n)], ops


SNIPPETS = ["x", "x0", "x1", "x2", " ", "  ", ",", "#", "\n", "1", "0", "9", "-", "-1", "(2)", "(3)", "(", ")", ".", ".begin", ".end",
            ".qubit 2", ".qudit 3", "qudit x0 (2)", "qubit x1", "qutrit", "X", "H", "Z", "CX", "CNOT", "Toffoli", "RX", "180", "T", "S",
            "\nX x0\n", "\nCX x0 x1\n", "\nH x0\n", "\n.end\n", "\n.begin\n", "\nqudit x3 (2)\n", "\n# note\n", "\t", ";", "+1"]


def edit(text, edits):
    """text after a list of edits [kind, a, b, c] (plain integers, any values)."""
    for kind, a, b, c in edits:
        lines = text.split("\n")
        i, j = a % len(lines), b % len(lines)
        k = a % (len(text) + 1)
        kind %= 9
        if kind == 0:  # delete characters
            text = text[:k] + text[k + 1 + b % 3 :]
        elif kind == 1:  # insert a snippet
            text = text[:k] + SNIPPETS[c % len(SNIPPETS)] + text[k:]
        elif kind == 2:  # replace a character by a snippet
            text = text[:k] + SNIPPETS[c % len(SNIPPETS)] + text[k + 1 :]
        elif kind == 3:  # drop a line
            text = "\n".join(lines[:i] + lines[i + 1 :])
        elif kind == 4:  # repeat a line elsewhere
            text = "\n".join(lines[:j] + [lines[i]] + lines[j:])
        elif kind == 5:  # swap lines
            lines[i], lines[j] = lines[j], lines[i]
            text = "\n".join(lines)
        elif kind == 6:  # join a line with the next
            text = "\n".join(lines[:i] + [[" ", "", ", ", "; "][b % 4].join(lines[i : i + 2])] + lines[i + 2 :])
        else:  # edit the words of a line
            words = lines[i].split(" ")
            w = b % len(words)
            if kind == 7:
                words[w : w + 1] = [[], words[w : w + 1] * 2, [SNIPPETS[c % len(SNIPPETS)]]][c % 3]
            else:
                words.insert(w, SNIPPETS[c % len(SNIPPETS)])
            lines[i] = " ".join(words)
            text = "\n".join(lines)
    return text
