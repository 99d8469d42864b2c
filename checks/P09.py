"""Structure constants, Liouvillian and commutant matrices represent the algebra."""
import itertools as it
import numpy as np
import scipy.sparse as ss
import qosy as qy
from mc import ref
from mc.harness import check
from checks import P02

ID = 'P09'
BOUND = {
    'quick': 'Pauli and Majorana; structure constants: all pairs of bases with <=2 of the 16 strings on two orbitals '
             '(both orders) in all three modes and all four return forms; the 67-string basis on {0,2,10,11} against '
             'each of its strings; Liouvillian and commutant matrices of 20 bases/lists of operators (dependent, '
             'complex, non-orthonormal, single, one string repeated in several) with 27 structured operators, three '
             'modes; algebra/zero cases',
    'thorough': 'as quick with all pairs of bases with <=2 of 64 strings on three orbitals restricted to weight<=2, and lists of all pairs and triples of the menu',
}
CHUNK = 2
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
OPS = {'product': lambda a, b: a @ b, 'commutator': lambda a, b: a @ b - b @ a,
       'anticommutator': lambda a, b: a @ b + b @ a}
ORBS = (0, 2, 10, 11)


def small(labels, w):
    ss_ = ref.strings('ABC', labels, 0, w)
    n = len(ss_)
    fam = [[]] + [[i] for i in range(n)] + [list(p) for p in it.permutations(range(n), 2)]
    return fam


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        n = len(small((0, 1), 2))
        for i in range(n):
            yield ['sc', t, [0, 1], 2, i]
        for i in range(67):
            yield ['row', t, i]
        m = len(P02.menu(t))
        for i in range(m):
            for mode in OPS:
                yield ['liou', t, i, mode]
        for i in range(m):
            yield ['list', t, i]
    if tier == 'thorough':
        for t in ('Pauli', 'Majorana'):
            for i in range(len(small((1, 3, 12), 2))):
                yield ['sc', t, [1, 3, 12], 2, i]
            for i in range(len(P02.menu(t))):
                yield ['triples', t, i]


def mk(t, s):
    return qy.OperatorString(list(s[0]), list(s[1]), t)


_m = {}


def mats(t, labels, w):
    k = (t, tuple(labels), w)
    if k not in _m:
        fam = ref.strings(ALPH[t], labels, 0, w)
        _m[k] = ([mk(t, s) for s in fam], [ref.string_matrix(t, s[0], s[1], 1, tuple(labels)) for s in fam], fam)
    return _m[k]


def basis_ok(b, what):
    names = [ref.key(s) for s in b]
    check(len(set(names)) == len(names), '{}: a string occurs twice in the extended basis', what)


def columns(L, ext, orbs, n):
    """matrix of every column of a (dense) coefficient matrix"""
    ms = [ref.mat(s, orbs) for s in ext]
    d = 2 ** len(orbs)
    out = []
    for a in range(n):
        m = np.zeros((d, d), dtype=complex)
        for c in np.nonzero(L[:, a])[0]:
            m = m + L[c, a] * ms[c]
        out.append(m)
    return out


def check_sc(A, MA, B, MB, mode, orbs, ctx, what):
    ba, bb = qy.Basis(A), qy.Basis(B)
    res = qy.structure_constants(ba, bb, operation_mode=mode, return_extended_basis=True)
    sc, ext = res
    basis_ok(ext, what)
    check(len(sc) == len(B), '{}: {} matrices for {} strings', what, len(sc), len(B))
    for b, mb in zip(B, MB):
        M = sc[b]
        check(M.shape == (len(ext), len(A)), '{}: shape {}', what, M.shape)
        cols = columns(M.toarray(), ext, orbs, len(A))
        for a, (ma, col) in enumerate(zip(MA, cols)):
            ctx.step()
            check(ref.close(col, OPS[mode](ma, mb)), '{}: {} of {} and {} is wrong', what, mode, str(A[a]), str(b))
    return sc, ext


def forms(A, B, mode, sc, ext, what):
    ba, bb = qy.Basis(A), qy.Basis(B)
    only = qy.structure_constants(ba, bb, operation_mode=mode)
    for b in B:
        check((only[b] != sc[b]).nnz == 0, '{}: result depends on return_extended_basis', what)
    for e in (True, False):
        r = qy.structure_constants(ba, bb, operation_mode=mode, return_extended_basis=e, return_data_tuple=True)
        d = r[0] if e else r
        for b in B:
            (ic, ia, data) = d[b]
            D = np.zeros(sc[b].shape, dtype=complex)
            for c, a, x in zip(ic, ia, data):
                D[c, a] += x
            check(ref.close(D, sc[b].toarray()), '{}: the data tuple differs from the matrix', what)
    if mode == 'commutator':
        dflt = qy.structure_constants(ba, bb)
        for b in B:
            check((dflt[b] != sc[b]).nnz == 0, '{}: default mode is not the commutator', what)


def snapshot(o):
    return [(complex(c), str(s)) for c, s in o]


def check_liou(basis, MB, O, MO, mode, orbs, ctx, what, ortho):
    before = snapshot(O)
    L, ext = qy.liouvillian_matrix(basis, O, operation_mode=mode, return_extended_basis=True)
    basis_ok(ext, what)
    check(L.shape == (len(ext), len(MB)), '{}: Liouvillian of shape {}', what, L.shape)
    Ld = L.toarray()
    cols = columns(Ld, ext, orbs, len(MB))
    want = [OPS[mode](m, MO) for m in MB]
    for a in range(len(MB)):
        ctx.step()
        check(ref.close(cols[a], want[a]), '{}: column {} of the Liouvillian is wrong', what, a)
    L2 = qy.liouvillian_matrix(basis, O, operation_mode=mode)
    check(ref.close(L2.toarray(), Ld), '{}: result depends on return_extended_basis', what)
    C = qy.commutant_matrix(basis, O, operation_mode=mode)
    C2, ext2 = qy.commutant_matrix(basis, O, operation_mode=mode, return_extended_basis=True)
    check([ref.key(s) for s in ext2] == [ref.key(s) for s in ext], '{}: extended bases differ', what)
    check(ref.close(C.toarray(), C2.toarray()), '{}: commutant matrices differ', what)
    check(C.shape == (len(MB), len(MB)), '{}: commutant matrix of shape {}', what, C.shape)
    # <[S_a,O],[S_b,O]> with the normalised trace: strings are orthonormal
    d = 2 ** len(orbs)
    if MB:
        W = np.array([w.reshape(-1) for w in want]).T
        check(ref.close(C.toarray(), W.conj().T @ W / d, 1e-8), '{}: commutant matrix is wrong', what)
    if mode == 'commutator':
        check(ref.close(qy.commutant_matrix(basis, O).toarray(), C.toarray())
              and ref.close(qy.liouvillian_matrix(basis, O).toarray(), Ld), '{}: default mode', what)
    check(snapshot(O) == before, '{}: the operator was modified', what)
    ctx.state((what, L.nnz, len(ext)))
    ctx.outcome((mode, len(ext)))


def bases(t):
    """bases and lists of operators on ORBS with their matrices"""
    out = []
    S, M, _ = mats(t, ORBS, 2)
    out.append(qy.Basis(S))
    out.append(qy.Basis(S[::-1]))
    out.append(qy.Basis(S[1:13]))
    out.append(qy.Basis(S[::7]))
    out.append(qy.Basis([S[0]]))
    out.append(qy.Basis())
    out.append(qy.Basis([mk(t, s) for s in ref.strings(ALPH[t], ORBS, 3, 4)][::3]))
    return [(b, [ref.mat(s, ORBS) for s in b]) for b in out]


def run(case, ctx):
    kind, t = case[0], case[1]
    if kind == 'sc':
        _, t, labels, w, i = case
        S, M, _f = mats(t, labels, w)
        fam = small(labels, w)
        A, MA = [S[x] for x in fam[i]], [M[x] for x in fam[i]]
        for ib in fam:
            if len(ib) == 2 and ib[0] > ib[1]:
                continue
            B, MB = [S[x] for x in ib], [M[x] for x in ib]
            for mode in OPS:
                what = '%s structure constants of %s and %s' % (mode, [str(x) for x in A], [str(x) for x in B])
                sc, ext = check_sc(A, MA, B, MB, mode, tuple(labels), ctx, what)
                if len(ib) <= 1 or sum(ib) % 5 == 0:
                    forms(A, B, mode, sc, ext, what)
                ctx.outcome((mode, len(ext)))
                ctx.state((t, mode, tuple(sorted(fam[i])), tuple(ib), len(ext)))
    elif kind == 'row':
        S, M, _f = mats(t, ORBS, 2)
        i = case[2]
        for mode in OPS:
            what = '%s structure constants with %s' % (mode, str(S[i]))
            sc, ext = check_sc(S, M, [S[i]], [M[i]], mode, ORBS, ctx, what)
            forms(S, [S[i]], mode, sc, ext, what)
        B = [S[(i + k) % len(S)] for k in (0, 5, 17)]
        MB = [M[(i + k) % len(S)] for k in (0, 5, 17)]
        check_sc(S, M, B, MB, 'commutator', ORBS, ctx, 'structure constants with three strings')
    elif kind == 'liou':
        O, MO = P02.menu(t)[case[2]]
        for b, (basis, MB) in enumerate(bases(t)):
            check_liou(basis, MB, O, MO, case[3], ORBS, ctx, '%s, basis %d' % (case, b), True)
    elif kind == 'list':
        m = P02.menu(t)
        O, MO = m[case[2]]
        nz = [x for x in m if len(x[0]) > 0]
        lists = [[x] for x in nz[:3]] + [nz[:4], nz[::-1], nz[::3], [nz[0], nz[0]], [nz[4], (2.0 * nz[4][0], 2 * nz[4][1])],
                                         [m[0], nz[1]], nz[5:9] + nz[5:7], nz]
        for k, l in enumerate(lists):
            for mode in OPS:
                check_liou([x[0] for x in l], [x[1] for x in l], O, MO, mode, ORBS, ctx, '%s, list %d, %s' % (case, k, mode), False)
    elif kind == 'triples':
        m = P02.menu(t)
        O, MO = m[case[2]]
        for r in (1, 2, 3):
            for l in it.combinations(m[::2], r):
                check_liou([x[0] for x in l], [x[1] for x in l], O, MO, 'commutator', ORBS, ctx, '%s %d' % (case, r), False)
