"""generate_lie_algebra returns the smallest Lie algebra which contains the operators."""
import itertools as it
import functools
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P13'
BOUND = {
    'quick': 'Pauli and Majorana; every basis with <=3 of the 16 strings on two orbitals and every pair of the 64 strings '
             'on labels {0,2,10} (two orders), 3-5-string chains; lists of operators: every pair of '
             'one- and two-term operators on two orbitals (every second one), every triple of a 12-operator menu, linearly dependent and '
             'zero generators, ladder-type operators with complex coefficients with every string and with each other, 100 lists of many-term operators with irregular coefficients on two and 5 on three orbitals (dimension up to 63)',
    'thorough': 'as quick; every basis with <=4 strings on two and every weight<=2 triple on three orbitals; 3 relative coefficients for pairs; 1000 and 100 irregular lists',
}
CHUNK = 2
CASE_TIMEOUT = 300
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
LAB = {2: (0, 1), 3: (0, 2, 10)}


@functools.lru_cache(maxsize=None)
def table(t, n):
    """strings, bracket tensor: -i[S_a,S_b] = sum_c T[a,b,c] S_c"""
    labs = LAB[n]
    fam = ref.strings(ALPH[t], labs, 0, n)
    M = [ref.string_matrix(t, o, l, 1, labs) for o, l in fam]
    V = np.array([m.reshape(-1) for m in M])
    T = np.zeros((len(fam),) * 3)
    for a in range(len(fam)):
        for b in range(len(fam)):
            c = -1j * (M[a] @ M[b] - M[b] @ M[a])
            x = V.conj() @ c.reshape(-1) / 2 ** n
            assert np.allclose(x.imag, 0)
            T[a, b] = x.real
    S = [qy.OperatorString(list(o), list(l), t) for o, l in fam]
    return fam, S, T, {ref.key(s)[1:3]: i for i, s in enumerate(S)}


def closure_strings(t, n, idx):
    fam, S, T, where = table(t, n)
    out = set(idx)
    work = list(out)
    while work:
        a = work.pop()
        for b in list(out):
            for c in np.nonzero(T[a, b])[0]:
                if c not in out:
                    out.add(int(c))
                    work.append(int(c))
    return out


def closure_space(t, n, vecs):
    """orthonormal rows spanning the Lie algebra generated by the coefficient vectors"""
    T = table(t, n)[2]
    B = []

    def add(v):
        nv = np.linalg.norm(v)
        if nv < 1e-9:
            return
        v = v / nv
        for _ in range(2):
            for b in B:
                v = v - (b.conj() @ v) * b
        if np.linalg.norm(v) > 1e-5:
            B.append(v / np.linalg.norm(v))
    for v in vecs:
        add(np.asarray(v))
    i = 0
    while i < len(B):
        Ta = np.tensordot(B[i], T, axes=(0, 0))
        for j in range(i):
            add(B[j] @ Ta)
        i += 1
    return np.array(B).reshape(len(B), T.shape[0])


def coords(op, t, n):
    fam, S, T, where = table(t, n)
    v = np.zeros(len(fam), dtype=complex)
    for c, s in op:
        k = ref.key(s)[1:3]
        check(k in where, 'unexpected string {}', str(s))
        v[where[k]] += c
    return v


def irregular(k, nstr=63):
    """k-th list of many-term operators with irregular coefficients (deterministic)"""
    cs = [1.0, -0.7, 0.3, 1.4, 2.5, 1 / 3]
    x = 7 * k + 3
    ops = []
    for _ in range(2 + k % 2):
        terms = []
        for j in range(1 + (k + j_(x)) % 4):
            x = (x * 1103515245 + 12345) % 2 ** 31
            terms.append((cs[(x >> 8) % 6], 1 + (x >> 12) % nstr))
        d = {}
        for c, s in terms:
            d[s] = c
        ops.append([(c, s) for s, c in d.items()])
    return ops


def j_(x):
    return (x >> 5) % 3


def twoterm(coefs):
    out = [[(1.0, i)] for i in range(1, 16)]
    for i, j in it.combinations(range(1, 16), 2):
        for c in coefs:
            out.append([(1.0, i), (c, j)])
    return out


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        for k in (0, 1, 2, 4, 5) if tier == 'quick' else range(100):
            yield ['irregular', t, 3, k]
    for t in ('Pauli', 'Majorana'):
        for r in (0, 1, 2, 3) + ((4,) if tier == 'thorough' else ()):
            for sub in it.combinations(range(16), r):
                yield ['basis', t, 2, list(sub)]
        for sub in it.combinations(range(64), 2):
            yield ['basis', t, 3, list(sub)]
        for k in range(0, 40):
            yield ['basis', t, 3, sorted(set([(k * 7 + 5 * j * (j + k % 3) + 1) % 64 for j in range(3 + k % 3)]))]
        if tier == 'thorough':
            w2 = [i for i, s in enumerate(ref.strings('ABC', (0, 1, 2), 0, 3)) if len(s[1]) <= 2]
            for sub in it.combinations(w2, 3):
                if sum(sub) % 4 == 0:
                    yield ['basis', t, 3, list(sub)]
        coefs = (1.0,) if tier == 'quick' else (1.0, -1.0, 0.5)
        m = len(twoterm(coefs))
        for i in range(m):
            yield ['pairs', t, i]
        for i in range(12):
            yield ['triples', t, i]
        yield ['dependent', t]
        for i in range(15):
            yield ['complex', t, i]
        for k in range(100 if tier == 'quick' else 1000):
            yield ['irregular', t, 2, k]
        yield ['errors', t]


def check_list(ops, t, n, ctx, what, indep=True):
    fam, S, T, where = table(t, n)
    Q = [qy.Operator([c for c, _ in o], [S[i] for _, i in o], t) for o in ops]
    before = [[(complex(c), str(s)) for c, s in o] for o in Q]
    L = qy.generate_lie_algebra(Q)
    ctx.step()
    check(isinstance(L, list), '{}: result of type {}', what, type(L))
    check([[(complex(c), str(s)) for c, s in o] for o in Q] == before and len(Q) == len(ops), '{}: the arguments were modified', what)
    C = np.array([coords(o, t, n) for o in L])
    G = np.array([coords(o, t, n) for o in Q])
    if G.size == 0 or np.max(np.abs(G.imag)) == 0:
        check(C.size == 0 or np.max(np.abs(C.imag)) < 1e-8, '{}: generators are not Hermitian', what)
        C, G = C.real, G.real
    check(len(L) >= len(Q), '{}: the given operators are missing', what)
    B = closure_space(t, n, list(G))
    # every generator is in the smallest algebra ...
    P = C - (C @ B.conj().T) @ B if len(B) else C
    check(P.size == 0 or np.max(np.abs(P)) < 1e-4, '{}: an operator outside of the generated Lie algebra was returned', what)
    # ... and they span it
    # (the operators may be badly conditioned, so judge the part of each
    # which is orthogonal to the previous ones)
    r = 0
    if len(B):
        E = []
        for x in C @ B.conj().T:
            x = x / max(np.linalg.norm(x), 1e-300)
            for _ in range(2):
                for e in E:
                    x = x - (e.conj() @ x) * e
            if np.linalg.norm(x) > 1e-8:
                E.append(x / np.linalg.norm(x))
        r = len(E)
    check(r == len(B), '{}: the result has dimension {} instead of {}', what, r, len(B))
    want = len(B) + (len(Q) - int(np.linalg.matrix_rank(G)))
    if indep:
        check(len(L) == len(B), '{}: {} operators for a Lie algebra of dimension {}', what, len(L), len(B))
    else:
        check(len(B) <= len(L) <= want, '{}: {} operators for a Lie algebra of dimension {}', what, len(L), len(B))
    ctx.state((what, len(L)))
    ctx.outcome((t, n, len(L)))


def run(case, ctx):
    kind, t = case[0], case[1]
    if kind == 'basis':
        _, t, n, idx = case
        fam, S, T, where = table(t, n)
        want = closure_strings(t, n, idx)
        orders = [idx, idx[::-1]] if len(idx) > 1 else [idx]
        if len(idx) == 3:
            orders.append(idx[1:] + idx[:1])
        for o in orders:
            b = qy.Basis([S[i] for i in o])
            r = qy.generate_lie_algebra(b)
            ctx.step()
            check(isinstance(r, qy.Basis), '{}: result of type {}', case, type(r))
            got = [where.get(ref.key(s)[1:3], -1) for s in r]
            check(len(set(got)) == len(got) == len(r), '{}: repeated strings', case)
            check(set(got) == want, '{}: {} strings instead of {}', case, len(got), len(want))
            check([ref.key(s) for s in b] == [ref.key(S[i]) for i in o], '{}: the argument was modified', case)
        ctx.state((t, n, tuple(sorted(want))))
        ctx.outcome((t, n, len(want)))
    elif kind == 'pairs':
        f = twoterm((1.0,) if ctx.tier == 'quick' else (1.0, -1.0, 0.5))
        for o in f[case[2] + 1::2 if ctx.tier == "quick" else 1]:
            check_list([f[case[2]], o], t, 2, ctx, 'Lie algebra of %s %s' % (f[case[2]], o))
    elif kind == 'triples':
        f = twoterm((1.0, -0.5))[::21][:12]
        for a, b in it.permutations([i for i in range(len(f)) if i != case[2]], 2):
            if case[2] >= len(f):
                return
            l = [f[case[2]], f[a], f[b]]
            g = np.zeros((3, 16))
            for i, o in enumerate(l):
                for c, s in o:
                    g[i, s] += c
            check_list(l, t, 2, ctx, 'Lie algebra of %s' % (l,), np.linalg.matrix_rank(g) == 3)
    elif kind == 'complex':
        i = case[2] + 1
        for j in range(1, 16):
            if j == i:
                continue
            for c in (1j, 0.5 - 2j):
                o = [(1.0, i), (c, j)]
                for k in range(1, 16):
                    check_list([o, [(1.0, k)]], t, 2, ctx, 'Lie algebra of %s S_%d' % (o, k))
                    if c == 1j and k not in (i, j):
                        check_list([o, [(1.0, j), (-1j, k)]], t, 2, ctx, 'Lie algebra of %s S_%d-iS_%d' % (o, j, k))
                check_list([o, [(1.0, i), (-c, j)]], t, 2, ctx, 'Lie algebra of %s and its conjugate' % (o,))
                check_list([[((2 - 1j) * x, y) for x, y in o], o, [(1.0, 3)]], t, 2, ctx, 'Lie algebra of %s twice and S_3' % (o,), False)
    elif kind == 'dependent':
        f = twoterm((1.0,))
        for a, b in it.combinations(range(0, 120, 9), 2):
            for l in ([f[a], f[a]], [f[a], [(2 * c, s) for c, s in f[a]], f[b]], [f[a], f[b], add(f[a], f[b])], [[], f[a], f[b]],
                      [f[b], [(-1.5 * c, s) for c, s in f[b]], f[a], add(f[b], f[a]), f[a]]):
                check_list(l, t, 2, ctx, 'Lie algebra of the dependent operators %s' % (l,), False)
    elif kind == 'irregular':
        _, t, n, k = case
        l = irregular(k, 4 ** n - 1)
        g = np.zeros((len(l), 4 ** n))
        for i, o in enumerate(l):
            for c, s in o:
                g[i, s] += c
        check_list(l, t, n, ctx, 'Lie algebra of %s' % (l,), np.linalg.matrix_rank(g) == len(l))
    else:
        for bad in ([1, 2], 'X', (1,), None, ['X 0']):
            try:
                qy.generate_lie_algebra(bad)
                check(False, 'generate_lie_algebra accepted {!r}', bad)
            except (ValueError, TypeError):
                ctx.step()


def add(a, b):
    d = {}
    for c, s in a + b:
        d[s] = d.get(s, 0) + c
    return [(c, s) for s, c in d.items() if c]
