"""Circuits do not influence each other or their arguments."""
import sys
import threading
import warnings

from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C10"
RULE = ("two to four circuits built and run in a random interleaving; equal register and initial-state lists are one "
        "shared object, gate arguments are lists the caller reuses and overwrites afterwards, custom gate classes and output "
        "formats are shared; every result compared with the reference, every drawing with a circuit built alone; or every circuit built and run in a thread of its own, all at once; "
        "non-trivial: two circuits with gates, or an argument overwritten after use")
ASSUMPTIONS = ["amplitudes are compared to 1e-10"]
QUICK, THOROUGH = 375, 4000


def strategy(tier):
    @st.composite
    def cases(draw):
        k = draw(st.integers(2, 4))
        circuits = []
        for i in range(k):
            if circuits and draw(st.booleans()):
                j = draw(st.integers(0, len(circuits) - 1))
                ds, init = circuits[j]["dims"], circuits[j]["init"]
                if draw(st.booleans()):
                    init = draw(gen.states(ds))
                ops = [draw(gen.op(ds, gen.ALL)) for _ in range(draw(st.integers(0, 7)))]
                if draw(st.integers(0, 2)) == 0:
                    ops = circuits[j]["ops"]
                circuits.append({"dims": ds, "init": init, "ops": ops})
            elif draw(st.integers(0, 11)) == 0:
                circuits.append(draw(gen.many(7, 10, 1024, max_ops=5, mixing=2)))
            elif draw(st.integers(0, 11)) == 0:
                circuits.append(draw(gen.circuit(cap=8, max_regs=2, max_ops=12, max_dim=5, repeat=6)))
            else:
                circuits.append(draw(gen.circuit(cap=32, max_regs=4, max_ops=8, max_dim=7)))
            circuits[-1]["backend"] = draw(st.sampled_from(["numpy", "sparse", None] if len(circuits[-1]["dims"]) < 7 else ["sparse", None]))
            circuits[-1]["tuple"] = draw(st.booleans())
        if draw(st.integers(0, 7)) == 0:  # circuits that come and go
            ds = draw(gen.dims(cap=30, max_regs=4, min_regs=2, max_dim=5))
            ops = [draw(gen.op(ds, ("cx", "tof", "cx", "arb", "x"))) for _ in range(draw(st.integers(1, 3)))]
            shapes = [list(draw(st.permutations(ds))) for _ in range(draw(st.integers(2, 4)))]
            return {"parade": shapes, "ops": [o for o in ops if o[0] != "arb" or len(o[1]) == 1], "backend": draw(st.sampled_from(["numpy", "sparse", None])),
                    "rounds": draw(st.integers(3, 12)), "level": draw(st.sampled_from(["top", "top", "one"])), "keep": draw(st.integers(0, 3))}
        steps = []
        for i, c in enumerate(circuits):
            steps += [i] * (len(c["ops"]) + 3)  # new, gates, measure, run
        return {"circuits": circuits, "steps": list(draw(st.permutations(steps))),
                "overwrite": draw(st.booleans()), "rerun": draw(st.booleans()), "threads": draw(st.integers(0, 3)) == 0}

    return cases()


class Shared:
    """One list object per content, until the caller overwrites it."""

    def __init__(self):
        self.pool = {}

    def get(self, what, values):
        key = (what, tuple(values))
        if key not in self.pool:
            self.pool[key] = list(values)
        return self.pool[key]

    def spoil(self, what, values):
        obj = self.pool.pop((what, tuple(values)), None)
        if obj is not None:
            obj[:] = [v + 1 for v in obj][::-1] + [5]


def threaded(case):
    """Every circuit built and run in a thread of its own, all at the same time."""
    circuits, rounds = case["circuits"], 4
    start = threading.Barrier(len(circuits))
    found = [None] * len(circuits)

    def work(i, c):
        try:
            start.wait(60)
            out = []
            for _ in range(rounds):
                qc = sutil.build(c["dims"], c["init"], c["ops"], c["backend"])
                out.append((qc, sutil.run(qc), sutil.run(qc)))
            found[i] = out
        except BaseException as e:
            found[i] = e

    threads = [threading.Thread(target=work, args=(i, c), daemon=True) for i, c in enumerate(circuits)]
    keep = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        for t in threads:
            t.start()
        for t in threads:
            t.join(100)
    finally:
        sys.setswitchinterval(keep)
    for i, (c, got) in enumerate(zip(circuits, found)):
        require(got is not None, "circuit %d did not finish in its thread", i)
        if isinstance(got, BaseException):
            raise got
        want = ref.simulate(c["dims"], c["init"], c["ops"]).ravel()
        for qc, first, second in got:
            for res in (first, second):
                sutil.same(sutil.vector(res, c["dims"]), want, c["dims"], "circuit %d, run in a thread beside %d others" % (i, len(circuits) - 1))
        verify(c, got[-1][0], "circuit %d, run in a thread" % i)
    return {"nontrivial": sum(bool(c["ops"]) for c in circuits) >= 2, "classes": ["threads=%d" % len(circuits)]}


def parade(case):
    """Circuits of the same size built, run and thrown away one after the other: what they leave behind must not matter."""
    keep, wanted = [], {}
    for r in range(case["rounds"]):
        for ds in case["parade"]:
            init = [d - 1 if case["level"] == "top" else 1 for d in ds]
            qc = sutil.build(list(ds), init, case["ops"], case["backend"])
            got = sutil.vector(sutil.run(qc), ds)
            if tuple(ds) not in wanted:
                wanted[tuple(ds)] = ref.simulate(ds, init, case["ops"]).ravel()
            sutil.same(got, wanted[tuple(ds)], ds, "round %d, after circuits on %s were thrown away" % (r, case["parade"]))
            if case["keep"] and r % (case["keep"] + 1):
                keep.append(qc)
    return {"nontrivial": len(wanted) > 1, "classes": ["parade"]}


def check(case):
    if "parade" in case:
        return parade(case)
    if case.get("threads"):
        return threaded(case)
    from qudiet.core.quantum_circuit import QuantumCircuit

    shared, classes, outputs = Shared(), {}, {}
    live, done = {}, {}
    progress = {i: 0 for i in range(len(case["circuits"]))}
    spoiled = 0
    for i in case["steps"]:
        c = case["circuits"][i]
        dims, init, ops = c["dims"], c["init"], c["ops"]
        step = progress[i]
        progress[i] += 1
        if step == 0:
            d = shared.get("dims", dims)
            kw = {}
            if init is not None:
                kw["init_states"] = shared.get("init", init)
            if c["backend"]:
                kw["backend"] = sutil.backend(c["backend"])
            if i % 2:
                kw["output"] = outputs.setdefault(tuple(dims), sutil.output(dims, "print", "amplitude"))
            regs = (len(dims), dims[0]) if c["tuple"] and len(set(dims)) == 1 else d
            with sut("building a circuit on %s" % (regs,)):
                live[i] = QuantumCircuit(regs, **kw)
            require(d == dims, "the register list %s became %s", dims, d)
            if init is not None:
                require(kw["init_states"] == init, "the initial states %s became %s", init, kw["init_states"])
            if case["overwrite"]:
                shared.spoil("dims", dims)
                if init is not None:
                    shared.spoil("init", init)
                spoiled += 1
        elif step <= len(ops):
            op = ops[step - 1]
            args = {}
            with sut("circuit %d, gate %s" % (i, op)):
                qc = live[i]
                if op[0] == "cx":
                    args["pair"] = (shared.get("regs", op[1:3]), op[1:3])
                    got = qc.cx(args["pair"][0], op[3])
                elif op[0] == "tof":
                    args["controls"] = (shared.get("regs", op[1]), op[1])
                    got = qc.toffoli((args["controls"][0], op[2]), plus=op[3])
                elif op[0] == "arb":
                    size = ref.size([dims[r] for r in op[1]])
                    key = (repr(op[2]), size)
                    if key not in classes:
                        classes[key] = sutil.arbitrary(ref.matrix(op[2], size))
                    args["registers"] = (shared.get("regs", op[1]), op[1])
                    got = qc.gate(classes[key], args["registers"][0])
                else:
                    got = sutil.place(qc, op, dims)
            require(got is True, "circuit %d refused gate %s", i, op)
            for name, (obj, before) in args.items():
                require(obj == list(before), "the %s %s became %s", name, before, obj)
                if case["overwrite"]:
                    shared.spoil("regs", before)
                    spoiled += 1
        elif step == len(ops) + 1:
            with sut("measure_all()"):
                require(live[i].measure_all() is True, "measure_all() did not return True")
        else:
            verify(c, live[i], "circuit %d" % i)
            done[i] = live[i]
    if case["rerun"]:
        for i, qc in done.items():
            verify(case["circuits"][i], qc, "circuit %d, after all others" % i)
    busy = sum(bool(c["ops"]) for c in case["circuits"])
    return {"nontrivial": busy >= 2 or spoiled > 0,
            "classes": ["circuits=%d" % len(case["circuits"])] + (["overwritten"] if spoiled else [])
            + (["shared-class"] if len(classes) < sum(o[0] == "arb" for c in case["circuits"] for o in c["ops"]) else [])}


def verify(c, qc, what):
    got = sutil.vector(sutil.run(qc, what + ": run()"), c["dims"])
    sutil.same(got, ref.simulate(c["dims"], c["init"], c["ops"]).ravel(), c["dims"], what)
    alone = sutil.build(c["dims"], c["init"], c["ops"], c["backend"])
    with sut("str"), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        require(str(qc) == str(alone), "%s is drawn as\n%s\ninstead of\n%s", what, qc, alone)
        require(qc.get_circuit_info() == alone.get_circuit_info(), "%s: %s instead of %s", what,
                qc.get_circuit_info(), alone.get_circuit_info())


FIXED = [
    {"circuits": [{"dims": [2, 3], "init": [1], "ops": [["tof", [0], 1, 1], ["cx", 1, 0, 1]], "backend": None, "tuple": False},
                  {"dims": [2, 3], "init": [1], "ops": [["arb", [0, 1], ["perm", [2, 1]]]], "backend": "numpy", "tuple": False}],
     "steps": [0, 1, 0, 1, 0, 1, 0, 1, 0], "overwrite": True, "rerun": True},
]
