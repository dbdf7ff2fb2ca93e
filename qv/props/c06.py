"""Mixed-radix conversions and truth tables."""
import itertools

import numpy as np
from hypothesis import strategies as st

from .. import ref
from ..core import require, sut

ID = "C06"
RULE = ("random bases (lists of integers >= 2, or one integer for all digits) with random indices and digits, "
        "converted both ways and compared with Python integers; truth tables of random bases compared with "
        "itertools.product; non-trivial: two or more different base entries, or an index above 1000")
ASSUMPTIONS = ["indices stay below about 2**250, digits below 2**40", "bases are given as lists, digits as lists, tuples or arrays"]
QUICK, THOROUGH = 2500, 20000


def strategy(tier):
    @st.composite
    def cases(draw):
        kind = draw(st.sampled_from(["list", "list", "int", "table", "walk", "far", "far-int"]))
        if kind in ("table", "walk"):
            base, room = [], 700 if tier == "quick" else 3000
            for _ in range(draw(st.integers(1, 8))):
                if room < 2:
                    break
                base.append(draw(st.integers(2, min(room, draw(st.sampled_from([3, 5, 40, 700]))))))
                room //= base[-1]
            if not base:
                base = [2]
            return {"kind": kind, "base": base, "pick": draw(st.integers(0, 10**6))}
        if kind == "far-int":
            # numbers of more than 64 bits
            b = draw(st.one_of(st.integers(2, 12), st.integers(2, 10**7), st.integers(2**31, 2**40)))
            n = draw(st.integers(62 // b.bit_length() + 1, max(4, 200 // b.bit_length())))
            return {"kind": "int", "base": b, "digits": [draw(st.integers(0, b - 1)) for _ in range(n)]}
        if kind == "int":
            b = draw(st.one_of(st.integers(2, 5), st.integers(2, 1000)))
            n = draw(st.integers(1, 12))
            while b**n >= 2**62:
                n -= 1
            digits = draw(st.lists(st.integers(0, b - 1), min_size=n, max_size=n))
            return {"kind": "int", "base": b, "digits": digits}
        top = draw(st.sampled_from([2, 3, 5, 12, 100, 10**6]))
        base, total = [], 1
        if kind == "far":
            base = draw(st.lists(st.integers(2, max(top, 3)), min_size=180 // (2 * top.bit_length()), max_size=200 // top.bit_length()))
            digits = [draw(st.one_of(st.sampled_from([0, b - 1, b - 1]), st.integers(0, b - 1))) for b in base]
            return {"kind": "list", "base": base, "digits": digits}
        for _ in range(draw(st.integers(1, 40))):
            b = draw(st.integers(2, max(2, top)))
            if total * b >= 2**62:
                break
            base.append(b)
            total *= b
        digits = [draw(st.one_of(st.sampled_from([0, 0, b - 1]), st.integers(0, b - 1))) for b in base]
        return {"kind": "list", "base": base, "digits": digits}

    return cases()


def check(case):
    from qudiet.utils.linalg import ttg
    from qudiet.utils.numpy import Nbase_to_bin, bin_to_Nbase, get_index

    base = case["base"]
    if case["kind"] in ("list", "int"):
        digits = case["digits"]
        full = [base] * len(digits) if case["kind"] == "int" else list(base)
        index = ref.index_of(digits, full)
        for form in (list, tuple, np.array):
            arg = form(digits)
            with sut("bin_to_Nbase(%s, %s)" % (digits, base)):
                got = bin_to_Nbase(arg, base if case["kind"] == "int" else list(base))
            require(int(got) == index and got == index, "bin_to_Nbase(%s, %s) is %r, should be %d", digits, base, got, index)
            require(list(arg) == digits, "bin_to_Nbase changed its argument")
        if case["kind"] == "int" and base == 2:
            with sut("bin_to_Nbase"):
                require(bin_to_Nbase(digits) == index, "bin_to_Nbase(%s) is not base 2", digits)
        for number in (index, np.int64(index)) if index < 2**62 else (index,):
            arg = list(full)
            with sut("Nbase_to_bin(%d, %s)" % (index, full)):
                back = Nbase_to_bin(number, arg)
            require([int(x) for x in back] == digits and len(back) == len(digits),
                    "Nbase_to_bin(%d, %s) is %s, should be %s", index, full, back, digits)
            require(arg == full, "Nbase_to_bin changed its base to %s", arg)
        with sut("conversions"):
            require(bin_to_Nbase(Nbase_to_bin(index, full), full) == index, "round trip of %d fails", index)
        return {"nontrivial": len(set(full)) > 1 or index > 1000, "classes": [case["kind"], "digits=%d" % len(digits), "index>64 bits" if index >= 2**63 else "index fits"]}
    rows = [list(r) for r in itertools.product(*(range(b) for b in base))]
    if case["kind"] == "walk":
        for i, row in enumerate(rows):
            with sut("conversions"):
                got, num = Nbase_to_bin(i, base), bin_to_Nbase(row, base)
            require([int(x) for x in got] == row, "Nbase_to_bin(%d, %s) is %s, should be %s", i, base, got, row)
            require(num == i, "bin_to_Nbase(%s, %s) is %s, should be %d", row, base, num, i)
    else:
        arg = list(base)
        with sut("ttg(%s)" % base):
            table = ttg(arg)
        require(arg == base, "ttg changed its argument to %s", arg)
        got = np.asarray(table)
        require(got.shape == (len(rows), len(base)), "ttg(%s) has shape %s", base, got.shape)
        diff = np.argwhere(got != np.array(rows))
        require(len(diff) == 0, "row %s of ttg(%s) is %s", diff[:1, 0], base, got[diff[:1, 0]])
        i = case["pick"] % len(rows)
        for i in (i, 0, len(rows) - 1):
            with sut("get_index"):
                require(get_index(table, np.array(rows[i])) == i, "get_index of %s in ttg(%s) is %s", rows[i], base,
                        get_index(table, np.array(rows[i])))
        with sut("get_index"):
            require(get_index(table, np.array([b for b in base])) is None, "get_index finds a tuple that is not there")
    return {"nontrivial": len(set(base)) > 1, "classes": [case["kind"], "rows>100" if len(rows) > 100 else "rows<=100"]}


FIXED = [{"kind": "walk", "base": [2, 3, 4], "pick": 0}, {"kind": "table", "base": [4, 2, 3], "pick": 5},
         {"kind": "int", "base": 2, "digits": [1, 0, 1, 1]}, {"kind": "list", "base": [7], "digits": [0]},
         {"kind": "table", "base": [300, 2], "pick": 5}, {"kind": "table", "base": [2, 257], "pick": 5},
         {"kind": "walk", "base": [70000], "pick": 5}, {"kind": "table", "base": [2] * 11, "pick": 2000}]
