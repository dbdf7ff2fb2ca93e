"""Drives the public API of QuDiet with the plain-data operations of ref.py."""
import numpy as np

from . import ref
from .core import Violation, require, sut

TOL = 1e-10


def backend(name):
    if name is None:
        return None
    if name == "numpy":
        from qudiet.core.backend.NumpyBackend import NumpyBackend

        return NumpyBackend
    if name == "sparse":
        from qudiet.core.backend.SparseBackend import SparseBackend

        return SparseBackend
    raise ValueError(name)


def output(dims, kind, method):
    from qudiet.core.output import Output, OutputMethod, OutputType

    return Output(list(dims), getattr(OutputType, kind), getattr(OutputMethod, method))


def arbitrary(u, made=None):
    """A custom gate class, written as the README shows; made collects what its gates are made with."""
    from qudiet.circuit_library import ArbitaryGate

    class CustomGate(ArbitaryGate):
        def __init__(self, *args, **kwargs):
            super().__init__(*args, **kwargs)
            self._unitary = u
            if made is not None:
                made.append((self.qreg, self.dims, self.backend))

    return CustomGate


def new(dims, init=None, back=None, out=None):
    from qudiet.core.quantum_circuit import QuantumCircuit

    kw = {}
    if init is not None:
        kw["init_states"] = list(init)
    if back is not None:
        kw["backend"] = backend(back)
    if out is not None:
        kw["output"] = out
    if isinstance(dims, list) and sum(dims) % 3 == 0:  # arguments without influence on results
        kw.update(name="a circuit", cregs=sum(dims) % 4, debug=False)
    with sut("building a circuit on registers %s" % (dims,)):
        return QuantumCircuit(dims, **kw)


def spell(op, dims):
    """A third of the single-register gates, by their place and kind."""
    q = op[1] if isinstance(op[1], int) else op[1][0]
    return 0 <= q < len(dims) and (q + len(dims) + dims[q] + ord(op[0][0])) % 3 == 0


def place(qc, op, dims):
    """Adds one operation; returns what the API returned."""
    kind = op[0]
    # the dimension may be spelled out; it says nothing new when it is the register's
    more = {"dims": dims[op[1]]} if kind in ("h", "z", "x") and spell(op, dims) else {}
    if kind == "h":
        return qc.h(op[1], **more)
    if kind == "z":
        return qc.z(op[1], **more)
    if kind == "x":
        return qc.x(op[1], **more) if op[2] == 1 else qc.x(op[1], plus=op[2], **more)
    if kind == "cx":
        pair = (op[1], op[2]) if (op[1] + op[2]) % 2 else [op[1], op[2]]
        return qc.cx(pair, op[3]) if op[3] % 2 else qc.cx(acting_on=pair, plus=op[3])
    if kind == "tof":
        arg = (list(op[1]), op[2])
        return qc.toffoli(arg) if op[3] == 1 else qc.toffoli(arg, plus=op[3])
    if kind == "arb":
        regs = list(op[1])
        u = ref.matrix(op[2], ref.size([dims[r] for r in regs]))
        if len(regs) == 1 and len(op[2][1]) % 2 == 0:
            return qc.gate(arbitrary(u), regs[0], **({"dims": dims[regs[0]]} if spell(op, dims) else {}))
        return qc.gate(arbitrary(u), regs)
    raise ValueError(kind)


def build(dims, init, ops, back=None, out=None, measure=True):
    qc = new(list(dims), init, back, out)
    for i, op in enumerate(ops):
        with sut("gate %d %s" % (i, op)):
            got = place(qc, op, dims)
        require(got is True, "gate %d %s returned %r instead of True", i, op, got)
    if measure:
        with sut("measure_all()"):
            qc.measure_all()
    return qc


def run(qc, what="run()"):
    with sut(what):
        return qc.run()


def entries(result):
    """[(key, value)] of a result, checking its documented shape."""
    require(isinstance(result, list), "the result is a %s, not a list", type(result).__name__)
    out = []
    for e in result:
        require(isinstance(e, dict) and len(e) == 1, "result entry %r is not a one-state dict", e)
        out.append(next(iter(e.items())))
    return out


def keys(dims, kind):
    states = ref.basis(dims)
    return [ref.label(s) for s in states] if kind == "print" else states


def vector(result, dims, kind="print"):
    """The result as a dense array over the basis; checks labels and their order."""
    table = {}
    for i, k in enumerate(keys(dims, kind)):
        table.setdefault(k, i)
    vec = np.zeros(ref.size(dims), dtype=complex)
    last = -1
    for k, v in entries(result):
        require(k in table, "label %r is not a basis state of registers %s", k, list(dims))
        i = table[k]
        if i <= last:
            require(False, "label %r is repeated or out of order in %s", k, str(result)[:300])
        last = i
        vec[i] = complex(v)
    return vec


def same(got, want, dims, what, tol=TOL):
    got, want = np.asarray(got).ravel(), np.asarray(want).ravel()
    require(got.shape == want.shape, "%s: size %s instead of %s", what, got.shape, want.shape)
    diff = np.abs(got - want)
    bad = int(np.argmax(np.where(np.isnan(diff), np.inf, diff)))
    if not diff[bad] <= tol:
        raise Violation("%s: amplitude of %s is %s, should be %s (registers %s)" % (
            what, ref.label(ref.digits_of(bad, dims)), fmt(got[bad]), fmt(want[bad]), list(dims)))


def fmt(z):
    z = complex(z)
    return "%.6g%+.6gj" % (z.real, z.imag)
