"""commuting_operators finds exactly the operators that (anti)commute."""
import itertools as it
import warnings
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check
from checks import P02, P09

ID = 'P10'
BOUND = {
    'quick': 'Pauli and Majorana; every operator with one or two of the 16 strings on two orbitals (relative coefficient 1, -1, 0.5, 1j), '
             'both modes, searched in the full 15- and 16-string bases and, for relative coefficient 1, in every '
             '3-string basis; 27 structured operators on {0,2,10,11} searched in 7 bases and 9 lists of operators '
             '(non-orthonormal, complex); dense and sparse (num_vecs) solvers; 3-orbital 64-string basis with every sum of '
             'two weight-2 strings with a common label',
    'thorough': 'as quick with all two-term operators on three orbitals in the 64-string basis',
}
CHUNK = 4
MODES = {'commutator': lambda a, b: a @ b - b @ a, 'anticommutator': lambda a, b: a @ b + b @ a}


def twos(tier):
    out = [(i, None, None) for i in range(16)]
    for i, j in it.combinations(range(16), 2):
        for c in (0, 1, 2, 3):
            out.append((i, j, c))
    return out


COEF = (1.0, -1.0, 0.5, 1j)


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        for (i, j, c) in twos(tier):
            yield ['two', t, i, j, c]
        for i in range(len(P02.menu(t))):
            yield ['menu', t, i]
            yield ['list', t, i]
        n3 = ref.strings('ABC', (0, 1, 4), 0, 3)
        for i, j in it.combinations(range(len(n3)), 2):
            if tier == 'thorough' or (len(n3[i][1]) == len(n3[j][1]) == 2 and (i + j) % 3 == 0):
                yield ['three', t, i, j]
    for t in ('Pauli', 'Majorana'):
        for i in range(1, len(P02.menu(t)), 3):
            yield ['sparse', t, i]
    yield ['edge']


def verify(basis, MB, O, MO, mode, ctx, what):
    n = len(MB)
    V = qy.commuting_operators(basis, O, operation_mode=mode)
    ctx.step()
    check(V.shape[0] == n and V.ndim == 2, '{}: shape {}', what, V.shape)
    if n == 0:
        check(V.shape[1] == 0, '{}: shape {}', what, V.shape)
        return V
    W = np.array([MODES[mode](m, MO).reshape(-1) for m in MB]).T
    N = ref.nullspace(W)
    # soundness: every returned operator (anti)commutes
    check(V.shape[1] == 0 or ref.close(W @ V, np.zeros((W.shape[0], V.shape[1])), 1e-5),
          '{}: a returned operator does not {} ', what, mode)
    check(ref.rank(V) == V.shape[1], '{}: the returned operators are dependent', what)
    check(V.shape[1] == N.shape[1], '{}: {} operators returned, {} exist', what, V.shape[1], N.shape[1])
    check(ref.same_span(V, N), '{}: the returned operators span a different space', what)
    if mode == 'commutator':
        D = qy.commuting_operators(basis, O)
        check(ref.same_span(D, N), '{}: default mode is not the commutator', what)
    r = qy.commuting_operators(basis, O, operation_mode=mode, return_superoperator=True)
    check(len(r) == 4, '{}: {} values returned', what, len(r))
    (V2, C, ev, U) = r
    check(ref.same_span(V2, N), '{}: result depends on return_superoperator', what)
    Cd = C.toarray()
    G = W.conj().T @ W / MO.shape[0]
    check(ref.close(Cd, G, 1e-8), '{}: the returned commutant matrix is wrong', what)
    check(ref.close(Cd @ U, U * ev, 1e-7), '{}: eigenvalues and eigenvectors do not belong to the matrix', what)
    check(len(ev) == n and ref.close(U.conj().T @ U, np.eye(n), 1e-7), '{}: eigenvectors not orthonormal', what)
    ctx.state((what, mode, n, V.shape[1], round(float(np.sum(np.abs(ev))), 5)))
    ctx.outcome((mode, n, V.shape[1]))
    return V


_c = {}


def two_mats(t, labels=(0, 1)):
    k = (t, labels)
    if k not in _c:
        fam = ref.strings(P09.ALPH[t], labels, 0, len(labels))
        _c[k] = ([P09.mk(t, s) for s in fam], [ref.string_matrix(t, s[0], s[1], 1, tuple(labels)) for s in fam])
    return _c[k]


def run(case, ctx):
    kind = case[0]
    if kind == 'edge':
        for t, a in (('Pauli', 'X'), ('Majorana', 'A')):
            z = qy.Operator(op_type=t)
            b = qy.cluster_basis(2, [0, 1], t)
            V = qy.commuting_operators(b, z)
            check(ref.rank(V) == len(b), 'everything commutes with the zero operator')
            V = qy.commuting_operators(qy.Basis(), qy.Operator([1.0], [qy.opstring(a + ' 0')]))
            check(V.shape == (0, 0), 'empty basis gives shape {}', V.shape)
            ctx.step(2)
            try:
                qy.commuting_operators([], z)
                check(False, 'an empty list of operators was accepted')
            except (ValueError, IndexError):
                pass
        return
    t = case[1]
    if kind == 'two':
        _, t, i, j, c = case
        S, M = two_mats(t)
        if j is None:
            O, MO = qy.Operator([1.0], [S[i]]), M[i]
        else:
            O, MO = qy.Operator([1.0, COEF[c]], [S[i], S[j]]), M[i] + COEF[c] * M[j]
        for mode in MODES:
            what = 'operator %s in the basis of' % str(O).split('\n')
            verify(qy.Basis(S), M, O, MO, mode, ctx, what + ' 16')
            verify(qy.Basis(S[1:]), M[1:], O, MO, mode, ctx, what + ' 15')
            if c in (None, 0):
                for sub in it.combinations(range(16), 3):
                    if (sum(sub) + i + (j or 0)) % 2:
                        continue
                    sub = sub[::-1] if sub[0] % 2 else sub
                    verify(qy.Basis([S[x] for x in sub]), [M[x] for x in sub], O, MO, mode, ctx, '%s %s' % (what, list(sub)))
    elif kind == 'menu':
        O, MO = P02.menu(t)[case[2]]
        for k, (b, MB) in enumerate(P09.bases(t)):
            for mode in MODES:
                verify(b, MB, O, MO, mode, ctx, '%s basis %d' % (case, k))
    elif kind == 'list':
        m = P02.menu(t)
        O, MO = m[case[2]]
        nz = [x for x in m if len(x[0]) > 0]
        for k, l in enumerate([[nz[0]], nz[:4], nz[::-1][:6], nz[::3], nz[2:9], [nz[1], (-2.0 * nz[4][0], -2 * nz[4][1])],
                               [nz[0], (nz[0][0] + nz[1][0], nz[0][1] + nz[1][1]), (nz[0][0] - 3.0 * nz[3][0], nz[0][1] - 3 * nz[3][1])]]):
            for mode in MODES:
                verify([x[0] for x in l], [x[1] for x in l], O, MO, mode, ctx, '%s list %d' % (case, k))
    elif kind == 'three':
        S, M = two_mats(t, (0, 1, 4))
        O, MO = qy.Operator([1.0, 2.0], [S[case[2]], S[case[3]]]), M[case[2]] + 2 * M[case[3]]
        for mode in MODES:
            verify(qy.Basis(S), M, O, MO, mode, ctx, str(case))
    elif kind == 'sparse':
        O, MO = P02.menu(t)[case[2]]
        b, MB = P09.bases(t)[2]
        for mode in MODES:
            W = np.array([MODES[mode](m, MO).reshape(-1) for m in MB]).T
            N = ref.nullspace(W)
            for nv in range(1, N.shape[1] + 1):
                # too few vectors: a warning must be given
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter('always')
                    V = qy.commuting_operators(b, O, operation_mode=mode, num_vecs=nv)
                ctx.step()
                check(V.shape[1] <= nv and (V.shape[1] == 0 or ref.close(W @ V, 0 * (W @ V), 1e-4)), '{} {} {}: not in the null space', case, mode, nv)
                check(V.shape[1] == N.shape[1] or any('num_vecs' in str(x.message) for x in w), '{} {}: {} of {} operators found without a warning', case, mode,
                      V.shape[1], N.shape[1])
                ctx.outcome(('warned', nv == N.shape[1], len(w) > 0))
            for nv in range(N.shape[1] + 1, len(MB) - 1, 3):
                V = qy.commuting_operators(b, O, operation_mode=mode, num_vecs=nv)
                ctx.step()
                check(V.shape[1] == N.shape[1] and ref.same_span(V, N),
                      '{} {}: the sparse solver finds {} of {} operators', case, mode, V.shape[1], N.shape[1])
                (V, C, ev, U) = qy.commuting_operators(b, O, operation_mode=mode, num_vecs=nv, return_superoperator=True)
                check(U.shape == (len(MB), nv) and len(ev) == nv, '{}: {} vectors instead of {}', case, U.shape, nv)
                ctx.outcome(('sparse', nv, V.shape[1]))
