"""Ladder operators of an operator, and operators with a given ladder operator."""
import collections
import itertools as it
import numpy as np
import qosy as qy
from qosy import core
from mc import ref
from mc.harness import check

ID = 'P31'
BOUND = {
    'quick': 'Pauli and Majorana strings on two orbitals: every basis with 1 or 2 strings, every fourth one with 3, and the full ones, with every operator with 1 or 2 terms '
             '(relative coefficients 1 and 0.5); 3 orbitals: 18 operators (also with close frequencies) x (cluster bases, closures of every second string under the terms of the operator, also without any one '
             'of their strings), 4-orbital quadratic fermions; vectors and Operators, with and without sparsification; the way back from every ladder operator found, from '
             'every string and from sums of two in the same bases',
    'thorough': 'as quick with all 3-string bases and strings, also without any two strings of the closures',
}
CHUNK = 4
_a = {}


class Alg:
    def __init__(self, t, n):
        self.orbs = tuple(range(n))
        self.fam = ref.strings('XYZ' if t == 'Pauli' else 'ABD', self.orbs)
        self.strings = [qy.OperatorString(list(o), list(l), t) for o, l in self.fam]
        self.pos = {ref.key(s): i for i, s in enumerate(self.strings)}
        self.m = [ref.mat(s, self.orbs) for s in self.strings]
        self.M = np.array([m.ravel() for m in self.m])
        self.n = n
        self._c = {}

    def com(self, i, j):
        """coefficients of [S_i, S_j]: (index, value) or None"""
        if (i, j) not in self._c:
            m = self.m[i] @ self.m[j] - self.m[j] @ self.m[i]
            c = self.M.conj() @ m.ravel() / 2 ** self.n
            k = np.nonzero(np.abs(c) > 1e-9)[0]
            self._c[i, j] = (int(k[0]), c[k[0]]) if len(k) else None
        return self._c[i, j]

    def liou(self, terms, basis):
        """matrix of O -> [terms, O], columns: basis"""
        L = np.zeros((len(self.fam), len(basis)), complex)
        for b, j in enumerate(basis):
            for i, c in terms:
                r = self.com(i, j)
                if r:
                    L[r[0], b] += c * r[1]
        return L

    def closure(self, i, terms):
        out = [i]
        for j in out:
            for k, _ in terms:
                r = self.com(k, j)
                if r and r[0] not in out:
                    out.append(r[0])
        return out


def alg(t, n):
    if (t, n) not in _a:
        _a[t, n] = Alg(t, n)
    return _a[t, n]


def models(t):
    """operators on three orbitals: lists of (text, coefficient)"""
    if t == 'Pauli':
        return [[('Z 0', 1.0), ('Z 1', 1.0), ('Z 2', 1.0)], [('Z 0', 1.0), ('Z 1', 0.5), ('Z 2', 0.25)], [('X 0 X 1', 1.0), ('Y 0 Y 1', 1.0), ('Z 0 Z 1', 1.0)],
                [('X 0 X 1', 1.0), ('X 1 X 2', 0.7), ('Z 0', 0.3), ('Z 1', 0.3), ('Z 2', 0.3)], [('X 0 X 1', 1.0), ('Y 1 Y 2', -0.4), ('Z 2', 2.0)],
                [('Z 0 Z 1', 1.0), ('Z 1 Z 2', 1.0), ('X 1', 0.5)], [('X 0 Y 1 Z 2', 1.5), ('Z 0', -1.0)],
                # frequencies that are close, but different
                [('Z 0', 1.0), ('Z 1', 1.00005), ('Z 2', 3.0), ('Z 0 Z 1', 0.4)], [('Z 0', 1.0), ('Z 1', 1.00003), ('Z 2', 0.5), ('Z 1 Z 2', 0.25)]]
    return [[('D 0', 1.0), ('D 1', 1.0), ('D 2', 1.0)], [('D 0', 1.0), ('D 1', 0.5), ('D 2', -0.25)], [('A 0 B 1', 1.0), ('B 0 A 1', -1.0), ('A 1 B 2', 0.6)],
            [('A 0 B 1', 1.0), ('A 1 B 2', 0.7), ('D 0', 0.3)], [('D 0 D 1', 1.0), ('A 1 B 2', 0.5)], [('D 0 D 1', 0.5), ('D 1 D 2', 0.25), ('D 0', 1.0)],
            [('A 0 A 1', 1.0), ('B 0 B 2', 2.0), ('D 0', 0.1)],
            [('D 0', 1.0), ('D 1', 1.00005), ('D 2', 3.0), ('D 0 D 1', 0.4)], [('D 0', 1.0), ('D 1', 1.00003), ('D 2', 0.5), ('D 1 D 2', 0.25)]]


def parse(a, t, terms):
    return [(a.pos[ref.key(qy.opstring(x, t))], c) for x, c in terms]


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        bs = [b for r in (1, 2) for b in it.combinations(range(1, 16), r)] + [tuple(range(1, 16)), tuple(range(16))]
        three = list(it.combinations(range(1, 16), 3))
        bs += three if tier == 'thorough' else three[::4]
        for b in bs:
            yield ['two', t, list(b)]
        for k in range(len(models(t))):
            for i in range(1, 64) if tier == 'thorough' else range(1 + k % 2, 64, 2):
                yield ['three', t, k, i, tier]
            yield ['cluster', t, k]
    for k in range(6):
        yield ['quad', k]


def judge(a, t, basis, terms, ctx, full=True):
    B = qy.Basis([a.strings[i] for i in basis])
    O = qy.Operator([c for _, c in terms], [a.strings[i] for i, _ in terms])
    L = a.liou(terms, basis)
    what = 'ladder({}, [{}]): '.format(str(O).replace('\n', ' '), str(B).replace('\n', ', '))
    # reference: [O, R] = l R for R in the space, l > 0
    inside = np.zeros((len(a.fam), len(basis)))
    for k, i in enumerate(basis):
        inside[i, k] = 1
    # the largest invariant subspace
    V = np.eye(len(basis))
    while V.shape[1]:
        Q = np.eye(len(a.fam)) - inside @ V @ V.conj().T @ inside.T
        N = ref.nullspace(Q @ L @ V)
        if N.shape[1] == V.shape[1]:
            break
        V = V @ N
    w = np.linalg.eigvalsh(V.conj().T @ inside.T @ L @ V) if V.shape[1] else np.zeros(0)
    want = np.sort(w[w > 1e-9])
    text = str(B), str(O)
    found = []
    for sp in (False, True):
        for ops in (False, True):
            if not full and (sp or not ops):
                continue
            v, e = core._ladder_operators(B, O, sparsification=sp, return_operators=ops)
            ctx.step()
            e = np.asarray(e)
            check(len(e) == len(want) and np.allclose(np.sort(e), want, atol=1e-7), what + 'eigenvalues {}, expected {}', e, want)
            if ops:
                check(isinstance(v, list) and len(v) == len(e), what + '{} operators for {} eigenvalues', len(v), len(e))
                v = np.array([o.to_vector(B) for o in v]).T.reshape(len(basis), len(e))
            v = np.asarray(v)
            check(v.shape == (len(basis), len(e)), what + 'shape {}', v.shape)
            if len(e):
                check(np.abs(L @ v - inside @ v * e).max() < 1e-7, what + '[O,R] is not l R')
                check(np.abs(np.linalg.norm(v, axis=0) - 1).max() < 1e-7, what + 'not normalized')
                check(np.linalg.svd(v)[1].min() > 1e-6, what + 'linearly dependent')
            found.append(v)
    check((str(B), str(O)) == text, what + 'an argument was modified')
    ctx.state((tuple(basis), tuple(terms), len(want)))
    ctx.outcome((len(basis), len(want)))
    return found[0]


def inverse(a, t, basis, R, ctx, full=True):
    """R: list of (index, coefficient)"""
    B = qy.Basis([a.strings[i] for i in basis])
    rop = qy.Operator([c for _, c in R], [a.strings[i] for i, _ in R])
    L = -a.liou(R, basis)             # O -> [O, R]
    r = np.zeros(len(a.fam), complex)
    for i, c in R:
        r[i] += c
    sv = np.linalg.svd(L)[1]
    if np.any((sv > 1e-14) & (sv < 1e-6)):
        # rounding errors of R: the rank is not well defined
        return
    x = np.linalg.lstsq(L, r, rcond=1e-9)[0]
    res = np.linalg.norm(L @ x - r) / np.linalg.norm(r)
    if 1e-11 < res < 1e-3:
        return
    solvable = res < 1e-7
    N = ref.nullspace(L)
    what = 'inverse ladder({}, [{}]): '.format(str(rop).replace('\n', ' '), str(B).replace('\n', ', '))
    text = str(B), str(rop)
    for sp in (False, True):
        for ops in (False, True):
            if not full and (sp or not ops):
                continue
            o, z = core._inverse_ladder_operators(B, rop, sparsification=sp, return_operators=ops)
            ctx.step()
            check((o is not None) == solvable, what + 'there is {} solution', 'a' if solvable else 'no')
            if ops:
                check(isinstance(z, list), what + 'not a list')
                z = np.array([q.to_vector(B) for q in z]).T.reshape(len(basis), len(z))
                o = o if o is None else o.to_vector(B)
            z = np.asarray(z)
            check(z.shape == (len(basis), N.shape[1]), what + '{} commuting operators, expected {}', z.shape, N.shape[1])
            if z.shape[1]:
                check(np.abs(L @ z).max() < 1e-7 and np.linalg.svd(z)[1].min() > 1e-6, what + 'not a basis of the commuting operators')
            if o is not None:
                check(abs(np.linalg.norm(o) - 1) < 1e-7, what + 'not normalized')
                y = L @ o
                d = np.vdot(r, y) / np.vdot(r, r)
                check(np.linalg.norm(y - d * r) < 1e-7 * np.linalg.norm(r) and d.real > 1e-9 and abs(d.imag) < 1e-9, what + '[O,R] is not d R with positive d')
    check((str(B), str(rop)) == text, what + 'an argument was modified')
    ctx.outcome(('inverse', solvable, N.shape[1]))


def run(case, ctx):
    kind, t = case[0], case[1]
    if kind == 'two':
        a, basis = alg(t, 2), case[2]
        full = len(basis) < 3 or len(basis) > 3
        seen = 0
        for i in range(1, 16):
            for j in range(i, 16):
                for c in (1, 0.5):
                    if i == j and c != 1:
                        continue
                    terms = [(i, 1.0)] + ([(j, c)] if j > i else [])
                    v = judge(a, t, basis, terms, ctx, full)
                    if v.shape[1] and seen < 6:
                        seen += 1
                        for k in range(v.shape[1]):
                            R = [(b, complex(x)) for b, x in zip(basis, v[:, k]) if abs(x) > 1e-9]
                            inverse(a, t, range(1, 16), R, ctx, full)
                            inverse(a, t, basis, R, ctx, full)
                    # sums with a phase as candidates
                    if j > i:
                        inverse(a, t, basis, [(i, 1.0), (j, 1j * c)], ctx, False)
            inverse(a, t, basis, [(i, 2.0)], ctx, False)
    elif kind == 'three':
        _, _, k, i, tier = case
        a = alg(t, 3)
        terms = parse(a, t, models(t)[k])
        cl = a.closure(i, terms)
        v = judge(a, t, cl, terms, ctx)
        if v.shape[1]:
            R = [(b, complex(x)) for b, x in zip(cl, v[:, -1]) if abs(x) > 1e-9]
            inverse(a, t, sorted({j for j, _ in terms} | {1, 9, 30}), R, ctx)
        for drop in it.chain(it.combinations(cl, 1), it.combinations(cl, 2) if tier == 'thorough' else ()):
            b = [x for x in cl if x not in drop]
            if b:
                judge(a, t, b, terms, ctx, False)
                # another order, and unrelated strings
                judge(a, t, b[::-1] + [x for x in (1, 22, 63) if x not in cl], terms, ctx, False)
    elif kind == 'cluster':
        a = alg(t, 3)
        terms = parse(a, t, models(t)[case[2]])
        for w in ((1,), (2,), (3,), (1, 2), (1, 3), (0, 1), (1, 2, 3)):
            b = [i for i, (o, l) in enumerate(a.fam) if len(o) in w]
            if t == 'Majorana' and len(b) > 40:
                b = b[::2]
            judge(a, t, b, terms, ctx, len(b) < 20)
    elif kind == 'quad':
        t, n = 'Majorana', 4
        a = alg(t, n)
        k = case[1]
        c = lambda x, y: round(np.cos(1.7 * x + 2.3 * y + k) * 1.5, 3)
        terms = [(a.pos[ref.key(qy.opstring('D {}'.format(x), t))], c(x, x)) for x in range(n)]
        for x in range(n - 1):
            terms.append((a.pos[ref.key(qy.opstring('A {} B {}'.format(x, x + 1), t))], c(x, x + 1)))
            terms.append((a.pos[ref.key(qy.opstring('B {} A {}'.format(x, x + 1), t))], c(x + 1, x) if k % 2 else -c(x, x + 1)))
        one = [i for i, (o, l) in enumerate(a.fam) if len(o) == 1 and o[0] in 'AB']
        v = judge(a, t, one, terms, ctx)
        check(v.shape[1] == n, 'quad {}: {} quasi-particles', k, v.shape[1])
        quad = [i for i, (o, l) in enumerate(a.fam) if o == ('D',) or (len(o) == 2 and 'D' not in o)]
        judge(a, t, quad, terms, ctx, False)
        for j in range(n):
            R = [(b, complex(x)) for b, x in zip(one, v[:, j]) if abs(x) > 1e-9]
            inverse(a, t, quad, R, ctx, False)
