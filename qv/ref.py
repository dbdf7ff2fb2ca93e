"""An independent state-vector simulator: the oracle.

Shares no code with QuDiet.  The state is a tensor with one axis per register;
permuting gates are index arithmetic on that tensor, the others contract one or more
axes with a small matrix written down from its definition.

Operations, as plain data:
  ["h", q]  ["z", q]  ["x", q, p]  ["cx", c, t, p]  ["tof", [c...], t, p]
  ["arb", [q, q+1, ...], spec]     spec as understood by matrix()
"""
import cmath
import itertools
import math

import numpy as np


def size(dims):
    return math.prod(dims)


def label(digits):
    return "|" + "".join(str(int(x)) for x in digits) + ">"


def digits_of(index, dims):
    out = []
    for d in reversed(dims):
        index, r = divmod(index, d)
        out.append(r)
    return tuple(reversed(out))


def index_of(digits, dims):
    index = 0
    for x, d in zip(digits, dims):
        index = index * d + x
    return index


def basis(dims):
    return list(itertools.product(*(range(d) for d in dims)))


def hadamard(d):
    return np.array([[cmath.exp(2j * math.pi * ((j * k) % d) / d) for k in range(d)]
                     for j in range(d)]) / math.sqrt(d)


def clock(d):
    return np.diag([cmath.exp(2j * math.pi * j / d) for j in range(d)])


def shift(d, p):
    m = np.zeros((d, d))
    for j in range(d):
        m[(j + p) % d, j] = 1
    return m


def controlled_shift(dims, controls, target, p):
    """Matrix over all of dims; controls fire on their highest level."""
    m = np.zeros((size(dims),) * 2)
    for col, digits in enumerate(basis(dims)):
        out = list(digits)
        if all(digits[c] == dims[c] - 1 for c in controls):
            out[target] = (out[target] + p) % dims[target]
        m[index_of(out, dims), col] = 1
    return m


def matrix(spec, n):
    """A unitary n x n matrix from integers.

    ["herm", [ints]]   exp(iH), H hermitian, filled from the integers (cyclically)
    ["perm", [ints]]   a permutation: Lehmer code taken from the integers
    ["diag", [ints]]   diagonal of 12th roots of unity
    ["real", [ints]]   product of plane rotations
    ["tiny", [ints]]   product of plane rotations by small angles (amplitudes down to 1e-7 and their products)
    """
    kind, ints = spec
    ints = [int(i) for i in ints] or [0]
    at = lambda i: ints[i % len(ints)]
    if kind == "perm":
        left, order = list(range(n)), []
        for i in range(n):
            order.append(left.pop(at(i) % len(left)))
        m = np.zeros((n, n))
        for col, row in enumerate(order):
            m[row, col] = 1
        return m
    if kind == "diag":
        return np.diag([cmath.exp(2j * math.pi * (at(i) % 12) / 12) for i in range(n)])
    if kind in ("real", "tiny"):
        m = np.eye(n)
        for i in range(n - 1):
            a = at(i) * 0.4 + 0.1 * i if kind == "real" else 10.0 ** -(1 + abs(at(i)) % 7)
            g = np.eye(n)
            g[i, i] = g[i + 1, i + 1] = math.cos(a)
            g[i, i + 1], g[i + 1, i] = -math.sin(a), math.sin(a)
            m = g @ m
        return m
    if kind == "herm":
        h = np.zeros((n, n), dtype=complex)
        k = 0
        for i in range(n):
            for j in range(i, n):
                if i == j:
                    h[i, i] = at(k) / 3
                else:
                    h[i, j] = (at(k) + 1j * at(k + 1)) / 3
                    h[j, i] = h[i, j].conjugate()
                    k += 1
                k += 1
        w, v = np.linalg.eigh(h)
        return v @ np.diag(np.exp(1j * w)) @ v.conj().T
    raise ValueError(kind)


def start(dims, init):
    t = np.zeros(dims, dtype=complex)
    full = list(init or []) + [0] * (len(dims) - len(init or []))
    t[tuple(full)] = 1
    return t


def contract(t, m, axes):
    """Apply matrix m (row-major over the axes, in this order) to axes of t."""
    dims = [t.shape[a] for a in axes]
    k = len(axes)
    m = np.asarray(m, dtype=complex).reshape(dims + dims)
    out = np.tensordot(m, t, axes=(list(range(k, 2 * k)), list(axes)))
    return np.moveaxis(out, list(range(k)), list(axes))


def apply(t, op):
    kind = op[0]
    if kind == "h":
        return contract(t, hadamard(t.shape[op[1]]), [op[1]])
    if kind == "z":
        return contract(t, clock(t.shape[op[1]]), [op[1]])
    if kind == "x":
        return np.roll(t, op[2] % t.shape[op[1]], axis=op[1])
    if kind in ("cx", "tof"):
        controls = [op[1]] if kind == "cx" else op[1]
        target, p = op[2], op[3]
        idx = [slice(None)] * t.ndim
        for c in controls:
            idx[c] = slice(t.shape[c] - 1, t.shape[c])
        idx = tuple(idx)
        out = t.copy()
        out[idx] = np.roll(t[idx], p % t.shape[target], axis=target)
        return out
    if kind == "arb":
        n = size([t.shape[a] for a in op[1]])
        return contract(t, matrix(op[2], n), op[1])
    raise ValueError(kind)


def simulate(dims, init, ops):
    t = start(dims, init)
    for op in ops:
        t = apply(t, op)
    return t


def registers(op):
    """Registers an operation names."""
    kind = op[0]
    if kind in ("h", "z", "x"):
        return [op[1]]
    if kind == "cx":
        return [op[1], op[2]]
    if kind == "tof":
        return list(op[1]) + [op[2]]
    return list(op[1])


def span(op):
    r = registers(op)
    return range(min(r), max(r) + 1)


def classical(dims, init, ops):
    """Basis state reached by X / CX / Toffoli gates (and permuting arbitrary gates)."""
    s = list(init or []) + [0] * (len(dims) - len(init or []))
    for op in ops:
        if op[0] == "x":
            s[op[1]] = (s[op[1]] + op[2]) % dims[op[1]]
        else:
            controls = [op[1]] if op[0] == "cx" else op[1]
            if all(s[c] == dims[c] - 1 for c in controls):
                s[op[2]] = (s[op[2]] + op[3]) % dims[op[2]]
    return s


def schedule(n, ops):
    """The layer (0, 1, ...) of each operation: a single-register H, X or Z joins the latest layer when its
    register is idle there; any other gate opens a layer and occupies every register it spans."""
    layers, idle, out = 0, set(), []
    for op in ops:
        if op[0] in ("h", "x", "z") and op[1] in idle:
            idle.discard(op[1])
        else:
            layers += 1
            idle = set(range(n)) - set(span(op))
        out.append(layers - 1)
    return out


def depth(n, ops):
    return max(schedule(n, ops), default=-1) + 1
