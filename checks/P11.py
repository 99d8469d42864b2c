"""invariant_operators finds exactly the operators that are even/odd under a transformation."""
import itertools as it
import warnings
import numpy as np
import qosy as qy
from mc import ref, reftrans, usertrans
from mc.harness import check

ID = 'P11'
BOUND = {
    'quick': 'Pauli and Majorana strings on 2, 3 and 4 orbitals; all permutations of the orbitals, time reversal, '
             'particle-hole (Majorana), user-defined rotations (up to 3 orbitals) and their products; every 1-, 2- and 3-string basis on two orbitals, full, '
             'weight-limited, non-closed and reordered bases on 3 and 4 orbitals, and 14 lists of operators '
             '(non-orthonormal, complex, partly leaving the space); both modes; dense and sparse (num_vecs) solver',
    'thorough': 'as quick with every 4-string basis on two orbitals and 46 lists of operators',
}
CHUNK = 4
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
SIGN = {'commutator': 1.0, 'anticommutator': -1.0}


def transforms(n, t):
    out = []
    for p in it.permutations(range(n)):
        out.append(['perm', list(p)])
    out.append(['T'])
    out.append(['perm', list(range(1, n)) + [0], 'T'])
    out.append(['T', 'perm', list(range(n))[::-1]])
    if t == 'Majorana':
        out += [['C'], ['C', 'T'], ['perm', list(range(n))[::-1], 'C']]
    if n < 4:
        for k in usertrans.specs(t, n):
            out.append(['U', k])
        out.append(['U', 0, 'perm', list(range(n))[::-1]])
    return out


def make(d, n, t):
    """-> (qosy Transformation, reference action); the last entry acts first"""
    tr, ac = None, None
    i = 0
    while i < len(d):
        if d[i] == 'perm':
            a, b = qy.label_permutation(d[i + 1]), reftrans.permutation(d[i + 1], t)
            i += 1
        elif d[i] == 'U':
            a, b = usertrans.make(t, d[i + 1], n)
            i += 1
        elif d[i] == 'T':
            a, b = qy.time_reversal(), reftrans.time_reversal(n, t)
        else:
            a, b = qy.particle_hole(), reftrans.particle_hole(n)
        i += 1
        tr, ac = (a, b) if tr is None else (tr * a, ac.after(b))
    return tr, ac


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        for n in (2, 3, 4):
            for d in transforms(n, t):
                if n == 2:
                    for size in (0, 1, 2, 3) + ((4,) if tier == 'thorough' else ()):
                        yield ['sub', t, n, d, size]
                yield ['full', t, n, d]
                yield ['list', t, n, d]
        yield ['sparse', t]


_c = {}


def strs(t, n, w):
    k = (t, n, w)
    if k not in _c:
        fam = ref.strings(ALPH[t], range(n), 0, w)
        _c[k] = ([qy.OperatorString(list(o), list(l), t) for o, l in fam],
                 [ref.string_matrix(t, o, l, 1, tuple(range(n))) for o, l in fam])
    return _c[k]


def verify(basis, MB, tr, ac, mode, ctx, what, ortho):
    n = len(MB)
    V = qy.invariant_operators(basis, tr, operation_mode=mode)
    ctx.step()
    sg = SIGN[mode]
    check(V.ndim == 2 and V.shape[0] == n, '{}: shape {}', what, V.shape)
    if n == 0:
        check(V.shape[1] == 0, '{}: shape {}', what, V.shape)
        return
    A = np.array([ac(m).reshape(-1) for m in MB]).T
    B = np.array([m.reshape(-1) for m in MB]).T
    W = (A - sg * B) / np.sqrt(MB[0].shape[0])
    N = ref.nullspace(W)
    check(V.shape[1] == 0 or ref.close(W @ V, np.zeros((W.shape[0], V.shape[1])), 1e-4),
          '{}: a returned operator is not {}', what, 'even' if sg > 0 else 'odd')
    check(ref.rank(V) == V.shape[1], '{}: the returned operators are dependent', what)
    check(V.shape[1] == N.shape[1], '{}: {} operators returned, {} exist', what, V.shape[1], N.shape[1])
    check(ref.same_span(V, N), '{}: the returned operators span a different space', what)
    if mode == 'commutator':
        check(ref.same_span(qy.invariant_operators(basis, tr), N), '{}: default mode', what)
    r = qy.invariant_operators(basis, tr, operation_mode=mode, return_superoperator=True)
    check(len(r) == 4, '{}: {} values returned', what, len(r))
    (V2, S, ev, U) = r
    check(ref.same_span(V2, N), '{}: result depends on return_superoperator', what)
    Sd = S.toarray()
    check(Sd.shape == (n, n) and ref.close(Sd, Sd.conj().T), '{}: superoperator is not Hermitian', what)
    ker = ref.nullspace(Sd, 1e-9)
    check(ref.same_span(ker, N), '{}: the null space of the superoperator is not the space of symmetric operators', what)
    if ortho:
        Mref = B.conj().T @ A / MB[0].shape[0]
        E = np.eye(n) - sg * 0.5 * (Mref + Mref.conj().T)
        check(ref.close(Sd, E, 1e-8), '{}: the superoperator is wrong', what)
        check(ref.close(E @ U, U * ev, 1e-7), '{}: eigenvalues and eigenvectors do not belong to it', what)
    check(int(np.sum(np.abs(ev) < 1e-8)) == N.shape[1], '{}: {} zero eigenvalues for {} symmetric operators', what,
          int(np.sum(np.abs(ev) < 1e-8)), N.shape[1])
    ctx.state((what, mode, V.shape[1], n))
    ctx.outcome((mode, n, V.shape[1]))


def combos(t, n, tier):
    S, M = strs(t, n, 2)
    k = len(S)

    def op(terms):
        o = qy.Operator([c for c, _ in terms], [S[i % k] for _, i in terms])
        m = sum(c * M[i % k] for c, i in terms)
        return o, m
    L = [
        [op([(1, 1)])],
        [op([(1, 1), (1, 2)]), op([(1, 1)])],
        [op([(1, 1), (1, 4)]), op([(1, 1)]), op([(2, 4), (-1, 7)])],
        [op([(1, i), (1, i + 3)]) for i in range(1, min(7, k - 3))],
        [op([(1, i), (0.5, i + 1)]) for i in range(k - 1)],
        [op([(1, i)]) for i in range(1, min(k, 10))][::-1],
        [op([(1, 0)]), op([(1, 0), (2, 1)]), op([(1, 1), (-3, 2), (0.25, k - 1)])],
        [op([(1, i), (1, 2 * i + 1 if (2 * i + 1) % k != i else i + 1), (3, 0)]) if i and (2 * i + 1) % k != 0 else op([(1, i)])
         for i in range(0, min(k, 8))],
        # complex coefficients
        [op([(1, 1), (1j, 4)]), op([(1, 1), (-1j, 4)])],
        [op([(1, i), (1j, i + 1)]) for i in range(1, k - 1, 2)],
        [op([(1, i), (1j, (2 * i + 1) % k)]) for i in range(1, k - 1) if (2 * i + 1) % k != i] + [op([(2 - 1j, 0)])],
        [op([(1j, 1), (1, 2)]), op([(1, 1), (1 + 2j, 3)]), op([(0.5, 1), (-2j, 2), (1 - 1j, 3)]), op([(1j, 4), (1, 5), (-1, 1)])],
    ]
    if n < 4:
        # the lowering and raising operators, and a change of basis by a unitary matrix
        L.append([op([(1, 2 * i + 1), (s * 1j, 2 * i + 2)]) for i in range((k - 1) // 2) for s in (1, -1)])
        m = min(k, 9)
        L.append([op([(np.round(np.cos(2.0 * i * j) + 1j * np.sin(1.0 * i * j * j), 3), j) for j in range(m)]) for i in range(m - 1)])
    if tier == 'thorough':
        for a in range(1, 6):
            for b in range(1, 6):
                L.append([op([(1, i), (a / b, (i + a) % k)]) for i in range(1, k - b, b) if (i + a) % k != i])
    return [l for l in L if ref.rank(np.array([m.reshape(-1) for _, m in l]).T) == len(l)]


def run(case, ctx):
    kind, t = case[0], case[1]
    if kind == 'sparse':
        for d in transforms(3, t):
            if d[0] == 'U':
                continue
            tr, ac = make(d, 3, t)
            S, M = strs(t, 3, 2)
            S, M = S[:24], M[:24]
            for mode, sg in SIGN.items():
                A = np.array([ac(m).reshape(-1) for m in M]).T
                B = np.array([m.reshape(-1) for m in M]).T
                N = ref.nullspace(A - sg * B)
                for nv in range(1, min(N.shape[1] + 1, 23)):
                    # too few vectors: a warning must be given
                    with warnings.catch_warnings(record=True) as w:
                        warnings.simplefilter('always')
                        V = qy.invariant_operators(qy.Basis(S), tr, operation_mode=mode, num_vecs=nv)
                    ctx.step()
                    D = (A - sg * B) @ V
                    check(V.shape[1] <= nv and (V.shape[1] == 0 or ref.close(D, 0 * D, 1e-4)), '{} {} {} {}: not in the space', case, d, mode, nv)
                    check(V.shape[1] == N.shape[1] or any('num_vecs' in str(x.message) for x in w), '{} {} {}: {} of {} operators found without a warning',
                          case, d, mode, V.shape[1], N.shape[1])
                for nv in range(N.shape[1] + 1, 22, 2):
                    V = qy.invariant_operators(qy.Basis(S), tr, operation_mode=mode, num_vecs=nv)
                    ctx.step()
                    check(V.shape[1] == N.shape[1] and ref.same_span(V, N), '{} {} {}: the sparse solver finds {} of {} operators',
                          case, d, mode, V.shape[1], N.shape[1])
                    ctx.outcome(('sparse', nv, V.shape[1]))
        return
    _, t, n, d = case[:4]
    tr, ac = make(d, n, t)
    if kind == 'sub':
        S, M = strs(t, n, 2)
        for sub in it.combinations(range(len(S)), case[4]):
            sub = sub[::-1] if sum(sub) % 2 else sub
            for mode in SIGN:
                verify(qy.Basis([S[i] for i in sub]), [M[i] for i in sub], tr, ac, mode, ctx,
                       '%s in basis %s' % (d, [str(S[i]) for i in sub]), True)
    elif kind == 'full':
        fams = []
        S, M = strs(t, n, min(n, 2 if n == 4 else 3))
        fams.append((S, M))
        fams.append((S[1:], M[1:]))
        fams.append((S[::-2], M[::-2]))
        fams.append((S[:len(S) // 2], M[:len(S) // 2]))
        fams.append((S[len(S) // 3:], M[len(S) // 3:]))
        for k, (s, m) in enumerate(fams):
            for mode in SIGN:
                verify(qy.Basis(s), m, tr, ac, mode, ctx, '%s basis %d' % (case, k), True)
    else:
        for k, l in enumerate(combos(t, n, ctx.tier)):
            if 'T' in d and any(np.iscomplexobj(q.coeffs) and np.any(q.coeffs.imag) for q, _ in l):
                # for an antilinear transformation, the even combinations of these are no complex vector space
                continue
            for mode in SIGN:
                verify([x[0] for x in l], [x[1] for x in l], tr, ac, mode, ctx, '%s list %d' % (case, k), False)
