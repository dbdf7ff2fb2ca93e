"""Large reversible circuits are tracked exactly."""
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C23"
RULE = ("random X / CX / Toffoli circuit on up to 17 registers (state spaces up to 140,000; 400,000 in the thorough tier) and up to 60 gates, "
        "in which most control registers are prepared in their highest level, run on the sparse backend; the single reported "
        "basis state compared with integer arithmetic on the levels; non-trivial: at least two controlled gates fired and one did not")
ASSUMPTIONS = ["one gate spans at most 2,000 basis states"]
QUICK, THOROUGH = 300, 4000


@st.composite
def across(draw, ds):
    """A Toffoli over up to 2000 basis states that fires on at most 64 of them."""
    lo = draw(st.integers(0, len(ds) - 3))
    hi = lo + 1
    while hi + 1 < len(ds) and gen.prod(ds[lo : hi + 2]) <= 2000:
        hi += 1
    order = list(draw(st.permutations(range(lo, hi + 1))))
    k, t = 1, order.pop()
    while k < len(order) and gen.prod([ds[q] for q in order[k:] + [t]]) > 64:
        k += 1
    if k < len(order):
        k = draw(st.integers(k, len(order)))
    return ["tof", order[:k], t, draw(gen.increments(ds[t]))]


def strategy(tier):
    cap = 400000 if tier == "thorough" else 140000

    @st.composite
    def cases(draw):
        room = draw(st.sampled_from([64, 130, 500, 500, 5000, 5000, 20000, 66000, cap]))
        ds = []
        shape = draw(st.sampled_from(["any", "any", "qubits", "big"]))
        wide = draw(st.integers(0, 2)) == 0
        if wide and draw(st.booleans()):
            shape, room = "big", max(room, 5000)
        while len(ds) < (18 if tier == "thorough" else 17):
            d = 2 if shape == "qubits" else draw(st.integers(2, 12 if shape == "big" else 5))
            if gen.prod(ds + [d]) > room:
                break
            ds.append(d)
        init = draw(st.one_of(gen.states(ds), st.just([0] * len(ds))))
        now = list(init or []) + [0] * (len(ds) - len(init or []))
        ops = []
        for _ in range(draw(st.integers(3, 40 if room >= 20000 else 60))):
            op = draw(gen.op(ds, ("x", "cx", "cx", "tof", "tof"), 96 if room >= 20000 else 200))
            if wide and len(ds) > 2:  # one Toffoli across many registers
                wide = False
                op = draw(across(ds))
            if op[0] != "x":
                # bring the controls to where they fire, usually
                for c in [op[1]] if op[0] == "cx" else op[1]:
                    up = ds[c] - 1 - now[c]
                    if up and draw(st.integers(0, 3)):
                        ops.append(["x", c, up if draw(st.booleans()) else up - ds[c]])
                        now[c] = ds[c] - 1
            ops.append(op)
            now = ref.classical(ds, now, [op])
        return {"dims": ds, "init": init, "ops": ops, "backend": draw(st.sampled_from(["sparse", None])),
                "output": draw(st.sampled_from([["state", "amplitude"], ["print", "amplitude"], ["state", "probability"]]))}

    return cases()


def check(case):
    dims, ops, init = case["dims"], case["ops"], case["init"]
    kind, method = case["output"]
    qc = sutil.build(dims, init, ops, case["backend"], sutil.output(dims, kind, method))
    got = sutil.entries(sutil.run(qc))
    now = list(init or []) + [0] * (len(dims) - len(init or []))
    fired = idle = 0
    for op in ops:
        new = ref.classical(dims, now, [op])
        if op[0] != "x":
            on = all(now[c] == dims[c] - 1 for c in ([op[1]] if op[0] == "cx" else op[1]))
            fired, idle = fired + on, idle + (not on)
        now = new
    want = ref.label(now) if kind == "print" else tuple(now)
    require(len(got) == 1, "%d basis states are reported instead of %s: %s", len(got), want, str(got)[:200])
    key, value = got[0]
    require((key if kind == "print" else tuple(key)) == want, "the final state is %s, should be %s (registers %s, start %s)",
            key, want, dims, init)
    require(abs(complex(value) - 1) < 1e-9, "the final state has %s %s", method, value)
    size = ref.size(dims)
    return {"nontrivial": fired >= 2 and idle >= 1,
            "classes": gen.classify(case) + ["states>%d" % k for k in (1000, 10000, 65536) if size > k] + (["fired>=5"] if fired >= 5 else [])}


FIXED = [
    {"dims": [2, 3, 4, 5, 2, 3, 4], "init": [1, 2, 3, 4, 1, 2, 3], "backend": None, "output": ["print", "amplitude"],
     "ops": [["tof", [0, 1, 2], 3, 1], ["cx", 3, 4, 1], ["x", 3, -1], ["cx", 3, 2, -5], ["tof", [6, 5], 4, 3], ["x", 1, 1], ["cx", 1, 0, 1]]},
]
