"""The multi-controlled-X tree computes the AND of its inputs."""
import importlib
import os
import sys

from hypothesis import strategies as st

from .. import env, ref
from ..core import Skip, require, sut

ID = "C20"
RULE = ("random number of lines n and input assignment (all ones, all ones but one or two, random), run through RUN_CIRC with the "
        "real simulator for n <= 7 and with a classical stand-in for QuantumCircuit for n up to 400; result, registers, gate "
        "numbers and level ranges checked; non-trivial: every control is 1 or exactly one is 0")
ASSUMPTIONS = ["the classical stand-in implements CX as C02 describes it", "n >= 3, the smallest size the tool supports"]
QUICK, THOROUGH = 3000, 10000


def tool():
    path = os.path.join(env.REPO, "test_circuit")
    if path not in sys.path:
        sys.path.insert(1, path)
    return importlib.import_module("circuit"), importlib.import_module("useQudiet")


def strategy(tier):
    @st.composite
    def cases(draw):
        real = draw(st.integers(0, 9)) == 0
        n = draw(st.integers(3, 7 if real else 40)) if real or draw(st.integers(0, 9)) else draw(st.integers(41, 400))
        how = draw(st.sampled_from(["ones", "one-zero", "one-zero", "two-zeros", "random", "zeros"]))
        bits = [1] * n
        if how == "zeros":
            bits = [0] * n
        elif how == "random":
            bits = [draw(st.integers(0, 1)) for _ in range(min(n, 40))]
            bits = (bits * (n // len(bits) + 1))[:n]
        elif how != "ones":
            for _ in range(1 if how == "one-zero" else 2):
                bits[draw(st.integers(0, n - 2))] = 0
        bits[-1] = draw(st.integers(0, 1))
        return {"n": n, "bits": bits, "real": real, "default": how == "ones" and bits[-1] == 1 and draw(st.booleans())}

    return cases()


def levels(circ):
    return [g for level in circ.final_levels for pair in level for g in pair if g is not None]


def labelled(circ):
    gates = levels(circ)
    t = sum(g.tq == "Ternary" for g in gates)
    return t, len(gates) - t


class Classical:
    """QuantumCircuit for CX gates on basis states."""

    made = []

    def __init__(self, qregs, init_states=None, **kw):
        self.dims, self.levels, self.count, self.measured = list(qregs), list(init_states or []), 0, False
        self.levels += [0] * (len(self.dims) - len(self.levels))
        require(len(self.levels) == len(self.dims), "%d initial levels for %d registers", len(self.levels), len(self.dims))
        for d, s in zip(self.dims, self.levels):
            require(d in (2, 3, 4) and 0 <= s < d, "register of dimension %s in level %s", d, s)
        Classical.made.append(self)

    def cx(self, acting_on, plus, dims=None):
        c, t = acting_on
        require(isinstance(c, int) and isinstance(t, int) and c != t and 0 <= min(c, t) and max(c, t) < len(self.dims),
                "CX on registers %s of %d", acting_on, len(self.dims))
        self.count += 1
        if self.levels[c] == self.dims[c] - 1:
            new = self.levels[t] + plus
            require(t == len(self.dims) - 1 or 0 <= new < self.dims[t],
                    "register %d of dimension %d is taken from level %d to %d", t, self.dims[t], self.levels[t], new)
            self.levels[t] = new % self.dims[t]
        return True

    def measure_all(self):
        self.measured = True
        return True

    def __getattr__(self, name):
        raise Skip("the stand-in has no %s" % name)

    def run(self):
        require(self.measured, "run before measure_all")
        return [{ref.label(self.levels): 1.0}]


def finding_labels(case):
    circuit, _ = tool()
    c = circuit.Circuit(case["n"])
    c.simulate()
    return labelled(c) != (c.tern, c.quat)


# known finding: for n = 1 or 2 (mod 4), n >= 5, four ternary gates are labelled Quaternary
FINDINGS = {"labels": ({"n": 5}, finding_labels)}


def check(case):
    circuit, use = tool()
    n, bits = case["n"], list(case["bits"])
    with sut("Circuit(%d).simulate()" % n):
        c = circuit.Circuit(n)
        c.simulate()
        gates = levels(c)
    sets = [set(c.qubits), set(c.qutrits), set(c.ququads)]
    require(sum(map(len, sets)) == n and set().union(*sets) == set(range(1, n + 1)),
            "%d lines are split into qubits %s, qutrits %s and ququads %s", n, *map(sorted, sets))
    require(sorted(c.actual_mapping) == list(range(1, n + 1)) and sorted(c.actual_mapping.values()) == list(range(n)),
            "%d lines are mapped to registers as %s", n, c.actual_mapping)
    require(c.tern + c.quat == len(gates), "%d ternary + %d quaternary gates are reported, %d were built", c.tern, c.quat, len(gates))
    if not (n >= 5 and n % 4 in (1, 2) and labelled(c) == (c.tern - 4, c.quat + 4)):  # the known finding
        require(labelled(c) == (c.tern, c.quat), "(ternary, quaternary) = %s is reported, %s were built, for %d lines",
                (c.tern, c.quat), labelled(c), n)
    import qudiet.core.quantum_circuit as core

    keep = core.QuantumCircuit
    Classical.made = []
    try:
        if not case["real"]:
            use.QuantumCircuit = core.QuantumCircuit = Classical
        with sut("RUN_CIRC(%d, %s)" % (n, bits)):
            got = use.RUN_CIRC(n) if case["default"] else use.RUN_CIRC(n, bits)
    finally:
        use.QuantumCircuit = core.QuantumCircuit = keep
    require(bits == case["bits"], "the list of inputs was changed to %s", bits)
    want = bits[:-1] + [bits[-1] ^ all(bits[:-1])]
    require(got == ref.label(want), "inputs %s end as %s instead of %s", ref.label(bits), got, ref.label(want))
    if not case["real"]:
        require(len(Classical.made) == 1 and Classical.made[0].count == len(gates), "%d gates were executed, %d built",
                Classical.made[0].count, len(gates))
    zeros = bits[:-1].count(0)
    return {"nontrivial": zeros < 2, "classes": ["real" if case["real"] else "classical", "n%%4=%d" % (n % 4)]
            + (["n>40"] if n > 40 else []) + (["fires"] if not zeros else []) + (["one-zero"] if zeros == 1 else [])}


FIXED = [{"n": n, "bits": [1] * (n - 1) + [b], "real": n < 7, "default": False} for n in range(3, 12) for b in (0, 1)]
