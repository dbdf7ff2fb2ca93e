"""Gate objects and layers say truthfully what they are."""
import numpy as np
from hypothesis import strategies as st

from .. import gen, ref, sutil
from ..core import require, sut

ID = "C25"
RULE = ("either one object of the gate library made directly (H, X, Z, I, CX, Toffoli, a custom class of "
        "the right or of a wrong size, Measurement, InitState) on sampled dimensions, registers, increments and backends, whose operator, registers and kind are "
        "asked for several times and compared with the closed form; or a random circuit whose layers are read through "
        "op_flow.peek() and peek_list() and compared gate by gate with the layering rule, the registers they cover "
        "and, multiplied up, with the reference simulator; non-trivial: an object of dimension >= 3 or on two or more "
        "registers, or a circuit with a gate on several registers")
ASSUMPTIONS = ["operators are compared to 1e-10"]
QUICK, THOROUGH = 1500, 4000
SINGLE = ("h", "x", "z", "i", "arb1")


def strategy(tier):
    big = tier == "thorough"

    @st.composite
    def cases(draw):
        back = draw(st.sampled_from(["numpy", "sparse"]))
        kind = draw(st.sampled_from(["circuit", "circuit", "circuit", "single", "single", "cx", "cx", "tof", "tof",
                                     "arb", "misfit", "init", "measure"]))
        if kind == "circuit" and draw(st.integers(0, 5)) == 0:
            c = draw(gen.crowd(8, 80, kinds=gen.ALL, max_ops=7, stretch=4))
            return dict(c, kind=kind, backend=back, measured=draw(st.booleans()), ran=False, apart=True)
        if kind == "circuit":
            c = draw(gen.circuit(cap=200 if big else 90, max_regs=7, max_ops=12, min_regs=1, span_cap=90))
            return dict(c, kind=kind, backend=back, measured=draw(st.booleans()), ran=draw(st.booleans()))
        at = draw(st.integers(0, 9))
        if kind == "single":
            d = draw(st.one_of(st.integers(2, 9), st.integers(2, 70)))
            return {"kind": draw(st.sampled_from(SINGLE)), "d": d, "at": at, "backend": back,
                    "plus": draw(st.one_of(gen.increments(d), st.integers(-10**6, 10**6))), "spec": draw(gen.specs())}
        if kind == "init":
            d = draw(st.integers(2, 40))
            return {"kind": kind, "d": d, "at": at, "state": draw(st.integers(0, d - 1)), "backend": back}
        if kind == "measure":
            return {"kind": kind, "at": at}
        if kind == "misfit":
            ds = list(draw(gen.dims(cap=60, max_regs=2, max_dim=9)))
            return {"kind": kind, "dims": ds, "at": at, "backend": back, "spec": draw(gen.specs()),
                    "size": draw(st.integers(1, 2 * ref.size(ds)).filter(lambda s: s != ref.size(ds))), "whole": draw(st.booleans())}
        ds = draw(gen.dims(cap=400 if big else 120, max_regs=6, max_dim=9, min_regs=2))
        if kind == "arb":
            return {"kind": kind, "dims": list(ds), "at": at, "spec": draw(gen.specs()), "backend": back}
        op = draw(gen.op(ds, [kind], span_cap=10**6))
        return {"kind": kind, "dims": list(ds), "op": op, "backend": back}

    return cases()


def dense(m):
    m = m.toarray() if hasattr(m, "toarray") else m
    require(isinstance(m, np.ndarray), "the operator is a %s", type(m).__name__)
    return m


def describe(gate, what, want, controlled, single):
    """Everything a gate object says, twice."""
    for again in ("", " asked again"):
        with sut("%s.unitary%s" % (what, again)):
            u = gate.unitary
        if want is None:
            require(u is None, "%s has the operator %r", what, u)
        else:
            u = dense(u)
            require(u.shape == want.shape, "the operator of %s has the shape %s, should be %s", what, u.shape, want.shape)
            bad = np.argwhere(~(np.abs(u - want) <= 1e-10))
            if len(bad):
                r, c = bad[0]
                require(False, "the operator of %s%s has %s at row %d, column %d, should be %s",
                        what, again, sutil.fmt(u[r, c]), r, c, sutil.fmt(want[r, c]))
        with sut("kind of " + what):
            got = (gate.is_controlled, gate.is_single_qudit) if controlled is not None else None
        if got is not None:
            require(got[0] is controlled or got[0] == controlled, "%s says is_controlled %r", what, got[0])
            require(got[1] is single or got[1] == single, "%s says is_single_qudit %r", what, got[1])


def flat(x):
    if isinstance(x, (int, np.integer)):
        return [int(x)]
    return [int(y) for z in x for y in flat(z)]


def on(gate, what, want):
    with sut("acting_on of " + what):
        got = flat(gate.acting_on)
    require(got == want, "%s says it acts on registers %s, should be %s", what, got, want)


def check(case):
    kind = case["kind"]
    if kind == "circuit":
        return layers(case)
    from qudiet.circuit_library.standard_gates.cx import CXGate
    from qudiet.circuit_library.standard_gates.h import HGate
    from qudiet.circuit_library.standard_gates.i import IGate
    from qudiet.circuit_library.standard_gates.measurement import Measurement
    from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
    from qudiet.circuit_library.standard_gates.x import XGate
    from qudiet.circuit_library.standard_gates.z import ZGate
    from qudiet.core.init_states import InitState

    name = case.get("backend")
    back = sutil.backend(name)
    info = {"nontrivial": case.get("d", 3) > 2 and kind != "measure", "classes": ["object=" + kind, "backend=%s" % name]}
    if kind == "measure":
        what = "Measurement(%d)" % case["at"]
        with sut(what):
            m = Measurement(case["at"])
        describe(m, what, None, False, True)
        on(m, what, [case["at"]])
        return info
    if kind == "init":
        d, s = case["d"], case["state"]
        what = "InitState(%d, %d)" % (d, s)
        with sut(what):
            i = InitState(d, s, case["at"], back)
        want = np.zeros((d, 1))
        want[s] = 1
        describe(i, what, want, None, None)
        with sut("get_init_states()"):
            again = dense(i.get_init_states())
        require(again.shape == want.shape and (again == want).all(), "get_init_states() of %s is %s", what, again.ravel())
        return info
    if kind == "misfit":
        dims, size = case["dims"], case["size"]
        whole = len(dims) == 1 and case["whole"]
        g = sutil.arbitrary(ref.matrix(case["spec"], size))(
            *((case["at"], dims[0]) if whole else (list(range(case["at"], case["at"] + len(dims))), list(dims))), back)
        try:
            u = g.unitary
        except Exception:
            return {"nontrivial": True, "classes": ["object=misfit", "backend=%s" % name]}
        require(False, "a custom gate with an operator of size %d on registers of dimensions %s gives the operator %s", size, dims, u)
    if kind in SINGLE:
        d, q = case["d"], case["at"]
        what = "the %s gate of dimension %d" % (kind, d)
        with sut(what):
            if kind == "h":
                g, want = HGate(q, d, back), ref.hadamard(d)
            elif kind == "z":
                g, want = ZGate(q, d, back), ref.clock(d)
            elif kind == "i":
                g, want = IGate(q, d, back), np.eye(d)
            elif kind == "x":
                what += " by %d" % case["plus"]
                g, want = XGate(q, d, case["plus"], back), ref.shift(d, case["plus"])
            else:
                want = ref.matrix(case["spec"], d)
                g = sutil.arbitrary(want.copy())(q, d, back)
        describe(g, what, want, False, True)
        on(g, what, [q])
        require(g.dims == d, "%s says its dimension is %s", what, g.dims)
        return info
    dims = case["dims"]
    if kind == "arb":
        want = ref.matrix(case["spec"], ref.size(dims))
        regs = list(range(case["at"], case["at"] + len(dims)))
        what = "a custom gate on registers %s" % dims
        with sut(what):
            g = sutil.arbitrary(want.copy())(list(regs), list(dims), back)
        describe(g, what, want, False, False)
        on(g, what, regs)
        return info
    op = case["op"]
    regs = ref.registers(op)
    lo, hi = min(regs), max(regs)
    span = dims[lo:hi + 1]
    want = ref.controlled_shift(span, [r - lo for r in regs[:-1]], regs[-1] - lo, op[3])
    what = "%s on registers %s" % (op, dims)
    with sut(what):
        if kind == "cx":
            g = CXGate(qreg=list(span), acting_on=(op[1], op[2]), plus=op[3], backend=back)
        else:
            more = {} if op[3] == 1 else {"plus": op[3]}
            g = Toffoli(qreg=(list(op[1]), op[2]), dims=list(dims), backend=back, **more)
    describe(g, what, want, True, False)
    on(g, what, regs)
    if kind == "cx":
        require(g.dims == ref.size(span), "%s says its dimension is %s", what, g.dims)
    info["classes"] += gen.classify({"dims": dims, "ops": [op]})
    return info


def layers(case):
    dims, init, ops, name = case["dims"], case["init"], case["ops"], case["backend"]
    n = len(dims)
    from qudiet.circuit_library import ArbitaryGate
    from qudiet.circuit_library.standard_gates.cx import CXGate
    from qudiet.circuit_library.standard_gates.h import HGate
    from qudiet.circuit_library.standard_gates.i import IGate
    from qudiet.circuit_library.standard_gates.measurement import Measurement
    from qudiet.circuit_library.standard_gates.toffoli_utility import Toffoli
    from qudiet.circuit_library.standard_gates.x import XGate
    from qudiet.circuit_library.standard_gates.z import ZGate
    from qudiet.core.init_states import InitState

    classes = {"h": HGate, "x": XGate, "z": ZGate, "cx": CXGate, "tof": Toffoli, "arb": ArbitaryGate}
    qc = sutil.build(dims, init, ops, name, measure=case["measured"])
    if case["measured"] and case["ran"]:
        sutil.run(qc)
    with sut("reading the layers"):
        flow = [list(m.peek_list()) for m in qc.op_flow.peek()]
    when = ref.schedule(n, ops)
    depth = max(when, default=-1) + 1
    require(len(flow) == 1 + depth + case["measured"], "%d layers, should be the initial states, %d layers of gates%s",
            len(flow), depth, " and the measurement" if case["measured"] else "")
    require([type(g) for g in flow[0]] == [InitState] * n, "the first layer is %s", [type(g).__name__ for g in flow[0]])
    if case["measured"]:
        last = flow.pop()
        require(len(last) == n and all(isinstance(g, Measurement) for g in last), "the last layer is %s",
                [type(g).__name__ for g in last])
        require([flat(g.acting_on) for g in last] == [[q] for q in range(n)], "the measurement layer covers %s",
                [g.acting_on for g in last])
    full = list(init or []) + [0] * (n - len(init or []))
    for q, g in enumerate(flow[0]):
        v = dense(g.unitary).ravel()
        require(len(v) == dims[q] and v[full[q]] == 1 and np.count_nonzero(v) == 1,
                "register %d of dimension %d starts as %s, should be level %d", q, dims[q], v, full[q])
    state = ref.start(dims, init) if not case.get("apart") else None
    for k in range(depth):
        here = {min(ref.registers(ops[i])): ops[i] for i in range(len(ops)) if when[i] == k}
        gates, q = flow[k + 1], 0
        for g in gates:
            require(q < n, "layer %d covers more than the %d registers", k, n)
            op = here.pop(q, None)
            what = "%s in layer %d at register %d" % (type(g).__name__, k, q)
            if op is None:
                require(isinstance(g, IGate), "%s, should be idle", what)
                on(g, what, [q])
                regs = [q]
            else:
                require(isinstance(g, classes[op[0]]) and isinstance(g, Toffoli) == (op[0] == "tof"),
                        "%s, should be the gate %s", what, op)
                on(g, what, ref.registers(op))
                regs = list(ref.span(op))
            size = ref.size([dims[r] for r in regs])
            q = regs[-1] + 1
            if state is None and (size > 60 or len(ops) > 40 and len(regs) < 2):
                continue  # operators of circuits that are not multiplied up
            with sut("operator of " + what):
                u = dense(g.unitary)
            require(u.shape == (size, size), "%s has an operator of shape %s, should be %d", what, u.shape, size)
            if state is None:
                here_dims = [dims[r] for r in regs]
                if op is None:
                    mine = np.eye(size)
                elif op[0] in ("h", "z", "x"):
                    mine = {"h": ref.hadamard, "z": ref.clock}[op[0]](size) if op[0] != "x" else ref.shift(size, op[2])
                elif op[0] == "arb":
                    mine = ref.matrix(op[2], size)
                else:
                    at = [r - regs[0] for r in ref.registers(op)]
                    mine = ref.controlled_shift(here_dims, at[:-1], at[-1], op[3])
                require(np.abs(u - mine).max() <= 1e-10, "%s has another operator than %s on registers of %s", what, op, here_dims)
                continue
            state = ref.contract(state, u, regs)
        require(q == n and not here, "layer %d covers registers 0 to %d of %d; missing: %s", k, q - 1, n, sorted(here.values()))
    if state is not None:
        want = ref.simulate(dims, init, ops)
        sutil.same(state, want, dims, "the layers multiplied up")
    return {"nontrivial": gen.key_ops(case) > 0, "classes": gen.classify(case) + ["layers", "backend=%s" % name]}


FIXED = (
    [{"kind": k, "d": d, "at": d % 4, "backend": b, "plus": p, "spec": ["perm", [1, 2, 3]]}
     for d in range(2, 9) for b in ("numpy", "sparse") for k, p in (("h", 0), ("z", 0), ("i", 0), ("x", 1), ("x", -1), ("x", d), ("x", 2 * d + 1))]
    + [{"kind": "cx", "dims": [a, 2, b], "op": ["cx", c, t, p], "backend": "numpy" if (a + b) % 2 else "sparse"}
       for a in (2, 3, 4) for b in (2, 3, 5) for c, t in ((0, 1), (1, 0), (1, 2), (2, 1), (0, 2), (2, 0)) for p in (1, -1)]
    + [{"kind": "tof", "dims": [2, 3, 2, 3], "op": ["tof", c, t, 1], "backend": "numpy" if t % 2 else "sparse"}
       for c, t in (([0], 1), ([0, 1], 2), ([2, 0], 1), ([3, 1], 0), ([1, 2], 3), ([3, 0, 1], 2), ([1, 3], 2))]
    + [{"kind": "measure", "at": q} for q in range(3)]
    + [{"kind": "misfit", "dims": ds, "at": 1, "backend": "numpy", "spec": ["perm", [1, 2, 3]], "size": s, "whole": w}
       for ds in ([2], [3], [5], [2, 2], [2, 3], [3, 2]) for w in (True, False) for s in range(2, 9) if s != ref.size(ds)]
)
