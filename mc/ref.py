"""Independent reference semantics.

Everything here is written from the *documentation* of qosy (what an
OperatorString means as a matrix on Fock space), not from its code.  Operators
are dense complex matrices; the only thing read from a qosy object is its
public description (operators, labels, type, prefactor, coefficients).
"""
import functools
import itertools as it
import numpy as np

I2 = np.eye(2, dtype=complex)
X = np.array([[0, 1], [1, 0]], dtype=complex)
Y = np.array([[0, -1j], [1j, 0]], dtype=complex)
Z = np.array([[1, 0], [0, -1]], dtype=complex)
SP = {'X': X, 'Y': Y, 'Z': Z}

PAULI = ('X', 'Y', 'Z')
MAJO = ('A', 'B', 'D')


def kron_all(ms):
    m = np.eye(1, dtype=complex)
    for x in ms:
        m = np.kron(m, x)
    return m


@functools.lru_cache(maxsize=None)
def _site(kind, pos, n):
    """One-orbital operator `kind` on position `pos` among n orbitals.

    Position 0 is the most significant tensor factor.  Fermions use
    the Jordan-Wigner embedding with the string on the smaller positions.
    """
    if kind in SP:
        ms = [I2] * n
        ms = list(ms)
        ms[pos] = SP[kind]
        return kron_all(ms)
    if kind == 'C':
        # n_j = 1 is the state |1>, so c = |0><1| = (X + iY)/2
        low = np.array([[0, 1], [0, 0]], dtype=complex)
        return kron_all([Z] * pos + [low] + [I2] * (n - pos - 1))
    if kind == 'CDag':
        return _site('C', pos, n).conj().T
    if kind == 'A':
        return _site('C', pos, n) + _site('CDag', pos, n)
    if kind == 'B':
        return -1j * (_site('C', pos, n) - _site('CDag', pos, n))
    if kind == 'D':
        return np.eye(2 ** n, dtype=complex) - 2 * _site('CDag', pos, n) @ _site('C', pos, n)
    raise ValueError(kind)


@functools.lru_cache(maxsize=200000)
def raw(ops, labels, orbs):
    """Ordered product of the one-orbital operators (no prefactor, no H.c.)."""
    n = len(orbs)
    m = np.eye(2 ** n, dtype=complex)
    for o, l in zip(ops, labels):
        m = m @ _site(o, orbs.index(l), n)
    return m


@functools.lru_cache(maxsize=200000)
def string_matrix(op_type, ops, labels, phase, orbs):
    """Matrix of an operator string.  `phase` is only used for fermion
    strings; a Majorana string carries the phase 1 or i that makes it Hermitian."""
    m = raw(ops, labels, orbs)
    if op_type == 'Pauli':
        r = m
    elif op_type == 'Majorana':
        if np.allclose(m, m.conj().T):
            r = m
        else:
            r = 1j * m
            assert np.allclose(r, r.conj().T)
    elif op_type == 'Fermion':
        cd = [l for o, l in zip(ops, labels) if o == 'CDag']
        c = [l for o, l in zip(ops, labels) if o == 'C']
        if cd == c[::-1] and phase == 1:
            r = m
        else:
            r = phase * m
            r = r + r.conj().T
    else:
        raise ValueError(op_type)
    r.setflags(write=False)
    return r


def key(os):
    """Canonical plain-data description of an OperatorString."""
    return (os.op_type, tuple(str(o) for o in os.orbital_operators),
            tuple(int(l) for l in os.orbital_labels), complex(os.prefactor))


def mat(os, orbs):
    t, ops, labs, ph = key(os)
    return string_matrix(t, ops, labs, ph, tuple(orbs))


def opmat(operator, orbs):
    n = len(orbs)
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, os in operator:
        m = m + c * mat(os, orbs)
    return m


def combo(coeffs, ms, n):
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for c, x in zip(coeffs, ms):
        m = m + c * x
    return m


def strings(alphabet, labels, min_w=0, max_w=None):
    """All (ops, labels) with support weight in [min_w,max_w], sorted labels."""
    labels = tuple(sorted(labels))
    if max_w is None:
        max_w = len(labels)
    out = []
    for w in range(min_w, max_w + 1):
        for labs in it.combinations(labels, w):
            for ops in it.product(alphabet, repeat=w):
                out.append((ops, labs))
    return out


def close(a, b, tol=1e-9):
    a = np.asarray(a)
    b = np.asarray(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return False
    return float(np.max(np.abs(a - b))) <= tol * max(1.0, float(np.max(np.abs(b))))


def rank(m, tol=1e-8):
    m = np.asarray(m)
    if m.size == 0 or min(m.shape) == 0:
        return 0
    s = np.linalg.svd(m, compute_uv=False)
    return int(np.sum(s > tol * max(1.0, s[0])))


def same_span(a, b, tol=1e-7):
    """Columns of a and b span the same space."""
    ra, rb = rank(a), rank(b)
    if ra != rb:
        return False
    if ra == 0:
        return True
    return rank(np.hstack([a, b]), tol) == ra


def nullspace(m, tol=1e-8):
    m = np.asarray(m)
    if m.shape[0] == 0:
        return np.eye(m.shape[1], dtype=complex)
    u, s, vh = np.linalg.svd(m)
    r = int(np.sum(s > tol * max(1.0, s[0] if len(s) else 0)))
    return vh[r:].conj().T
