"""Exact reference semantics of long operator strings.

A string is i^p times a monomial.  Majorana monomials are ordered products of
the modes a_0 b_0 a_1 b_1 ... (bit 2*label for a, 2*label+1 for b); Pauli monomials are
products of X^x Z^z.  Written from the algebra of the operators alone:
{m_i, m_j} = 2 delta_ij,  d = -i a b,  Z X = -X Z,  Y = i X Z.
Everything is integer arithmetic, so strings of any length can be compared exactly.
"""
from . import ref

UNIT = (1, 1j, -1, -1j)


class Majo:
    """i^p * product of modes in increasing order"""
    @staticmethod
    def mul(s, t):
        (p, m), (q, n) = s, t
        swaps, k = 0, n
        while k:
            low = k & -k
            swaps += bin(m & ~(2 * low - 1)).count('1')
            k ^= low
        return ((p + q + 2 * swaps) % 4, m ^ n)

    @staticmethod
    def one(op, label):
        a, b = 1 << (2 * label), 1 << (2 * label + 1)
        return {'A': (0, a), 'B': (0, b), 'D': (3, a | b)}[op]

    @staticmethod
    def dag(s):
        p, m = s
        k = bin(m).count('1')
        return ((-p + (2 if (k * (k - 1) // 2) % 2 else 0)) % 4, m)


class Pauli:
    """i^p * prod_j X_j^{x_j} Z_j^{z_j}"""
    @staticmethod
    def mul(s, t):
        (p, (x, z)), (q, (u, w)) = s, t
        return ((p + q + 2 * bin(z & u).count('1')) % 4, (x ^ u, z ^ w))

    @staticmethod
    def one(op, label):
        b = 1 << label
        return {'X': (0, (b, 0)), 'Z': (0, (0, b)), 'Y': (1, (b, b))}[op]

    @staticmethod
    def dag(s):
        p, (x, z) = s
        return ((-p + 2 * bin(x & z).count('1')) % 4, (x, z))


ALG = {'Majorana': (Majo, (0, 0)), 'Pauli': (Pauli, (0, (0, 0)))}


def prod(op_type, ops, labels):
    A, m = ALG[op_type]
    for o, l in zip(ops, labels):
        m = A.mul(m, A.one(str(o), int(l)))
    return m


def mono(op_type, ops, labels):
    """the Hermitian string made of these operators (phase 1 or i)"""
    A, _ = ALG[op_type]
    m = prod(op_type, ops, labels)
    if A.dag(m) != m:
        m = ((m[0] + 1) % 4, m[1])
        assert A.dag(m) == m
    return m


def of(os):
    t, ops, labs, _ = ref.key(os)
    return mono(t, ops, labs)


def op(operator):
    """{monomial: coefficient of the monomial without phase}"""
    d = {}
    for c, os in operator:
        p, m = of(os)
        d[m] = d.get(m, 0) + complex(c) * UNIT[p]
    return {m: c for m, c in d.items() if abs(c) > 1e-12}


def same(d, e, tol=1e-9):
    return all(abs(d.get(m, 0) - e.get(m, 0)) <= tol for m in set(d) | set(e))


def term(s, c=1):
    return {s[1]: c * UNIT[s[0]]}


def image(op_type, ops, labels, one, phase_conj=False):
    """Image of the Hermitian string under the (anti)automorphism with the given images of
    the one-orbital operators; phase_conj for antilinear maps."""
    A, m = ALG[op_type]
    for o, l in zip(ops, labels):
        m = A.mul(m, one(str(o), int(l)))
    p = mono(op_type, ops, labels)[0] - prod(op_type, ops, labels)[0]
    return ((m[0] + (-p if phase_conj else p)) % 4, m[1])


def _selftest():
    import itertools as it
    import numpy as np
    for t, alph in (('Pauli', ref.PAULI), ('Majorana', ref.MAJO)):
        A, _ = ALG[t]
        fam = ref.strings(alph, range(3), 0, 3)
        ms = [(ref.string_matrix(t, o, l, 1, (0, 1, 2)), mono(t, o, l)) for o, l in fam]
        byk = {m[1]: (m[0], M) for M, m in ms}
        for (M, m), (N, n) in it.product(ms[::3], ms[::2]):
            p, k = A.mul(m, n)
            q, R = byk[k]
            assert np.allclose(M @ N, UNIT[(p - q) % 4] * R)
            assert np.allclose(M.conj().T, M) and A.dag(m) == m


_selftest()


_JW = {}


def _jw(o, l):
    """one-orbital operator as {ordered product of Majorana modes: coefficient}"""
    k = (o, l)
    if k not in _JW:
        a, b = 1 << (2 * l), 1 << (2 * l + 1)
        if o in 'ABD':
            d = term(Majo.one(o, l))
        elif o == 'C':
            d = {a: 0.5, b: 0.5j}
        elif o == 'CDag':
            d = {a: 0.5, b: -0.5j}
        elif o == 'Z':
            d = term(Majo.one('D', l))
        else:
            m = (0, 0)
            for j in range(l):
                m = Majo.mul(m, Majo.one('D', j))
            d = term(Majo.mul(m, Majo.one('A' if o == 'X' else 'B', l)))
        _JW[k] = d
    return _JW[k]


def _mul(d, e):
    out = {}
    for m, x in d.items():
        for n, y in e.items():
            p, q = Majo.mul((0, m), (0, n))
            out[q] = out.get(q, 0) + UNIT[p] * x * y
    return out


def modes(t, ops, labels, phase=1):
    """Any string as {ordered product of Majorana modes: coefficient} (Jordan-Wigner for spins)."""
    d = {0: 1}
    for o, l in zip(ops, labels):
        d = _mul(d, _jw(str(o), int(l)))
    if t == 'Pauli':
        return d
    adj = {}
    for m, x in d.items():
        p, q = Majo.dag((0, m))
        adj[q] = UNIT[p] * complex(x).conjugate()
    if t == 'Majorana':
        return d if same(d, adj) else {m: 1j * x for m, x in d.items()}
    cd = [int(l) for o, l in zip(ops, labels) if o == 'CDag']
    c = [int(l) for o, l in zip(ops, labels) if o == 'C']
    if cd == c[::-1] and phase == 1:
        return d
    phase = complex(phase)
    return {m: phase * d.get(m, 0) + phase.conjugate() * adj.get(m, 0) for m in set(d) | set(adj)}


def opmodes(operator):
    out = {}
    for c, s in operator:
        t, ops, labs, ph = ref.key(s)
        for m, x in modes(t, ops, labs, ph).items():
            out[m] = out.get(m, 0) + complex(c) * x
    return out


def _selftest2():
    import numpy as np
    orbs = (0, 1, 2)
    mats = {m: ref.string_matrix('Majorana', (), (), 1, orbs) for m in (0,)}
    one = [ref.string_matrix('Majorana', (o,), (l,), 1, orbs) for l in orbs for o in 'AB']
    for m in range(1, 64):
        top = m.bit_length() - 1
        mats[m] = mats[m ^ (1 << top)] @ one[top]
    menu = [(t, o, l, 1) for t, al in (('Pauli', ref.PAULI), ('Majorana', ref.MAJO)) for o, l in ref.strings(al, orbs, 0, 3)]
    menu += [('Fermion', o, l, p) for p in (1, 1j) for o, l in ((('CDag',), (1,)), (('CDag', 'C'), (2, 0)), (('CDag', 'CDag', 'C'), (0, 2, 1)),
                                                               (('CDag', 'C'), (1, 1)), (('CDag', 'CDag', 'C', 'C'), (0, 1, 2, 0)))
             if not (p == 1j and l == (1, 1))]
    for t, o, l, p in menu:
        want = ref.string_matrix(t, o, l, p, orbs)
        got = sum(x * mats[m] for m, x in modes(t, o, l, p).items())
        assert np.allclose(got, want), (t, o, l, p)


_selftest2()
