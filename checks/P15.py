"""Composition, powers and matrices of transformations."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, reftrans, usertrans
from mc.harness import check
from checks import P14, P11

ID = 'P15'
BOUND = {
    'quick': 'Pauli and Majorana on three orbitals: all products of <=3 transformations from {6 permutations, time '
             'reversal, particle-hole} (both bracketings), powers 1..6, applied to every string; spinful products on 4 spin-orbitals; '
             'symmetry matrices of all of these in the full, permuted, partial and reversed bases and in 6 lists of operators; '
             'matrix of a product = product of matrices; 10 user-defined rotations that mix strings (irrational coefficients; powers 1..3), their products with all of the others and with each other; every 1..3-string basis on two orbitals; invalid powers',
    'thorough': 'as quick with products of 4 and four orbitals (24 permutations)',
}
CHUNK = 4
ALPH = P14.ALPH


def gens(n, t):
    out = [['perm', list(p)] for p in it.permutations(range(n))] + [['T']]
    if t == 'Majorana':
        out.append(['C'])
    return out


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        g = gens(3, t)
        for a in g:
            yield ['power', t, 3, a]
            for b in g:
                yield ['prod', t, 3, [a, b]]
                for c in g:
                    if tier == 'thorough' or (a[0] != 'perm' or b[0] != 'perm' or c[0] != 'perm') or a == [0, 2, 1]:
                        yield ['prod', t, 3, [a, b, c]]
        for size in (1, 2, 3):
            for a in gens(2, t):
                yield ['sub', t, 2, a, size]
        for a in g:
            yield ['matrix', t, 3, a]
        for k in usertrans.specs(t, 3):
            u = ['U', k]
            yield ['power', t, 3, u]
            yield ['matrix', t, 3, u]
            for a in g + [['U', j] for j in usertrans.specs(t, 3)]:
                yield ['prod', t, 3, [u, a]]
                if a[0] != 'U':
                    yield ['prod', t, 3, [a, u]]
                    yield ['prod', t, 3, [u, a, ['U', 0]]]
        for k in usertrans.specs(t, 2):
            for size in (1, 2, 3):
                yield ['sub', t, 2, ['U', k], size]
        if tier == 'thorough':
            g4 = gens(4, t)
            for a in g4:
                yield ['power', t, 4, a]
                yield ['matrix', t, 4, a]
                for b in g4:
                    yield ['prod', t, 4, [a, b]]
    for s in ('spin1', 'spin2', 'spin4'):
        for h in it.product('fpTtC', repeat=2):
            yield ['spin', s, list(h)]
    yield ['errors']


def mono(s):
    return {'f': 0}


def matrix_of(ac, M):
    B = np.array([m.reshape(-1) for m in M]).T
    A = np.array([ac(m).reshape(-1) for m in M]).T
    return B.conj().T @ A / M[0].shape[0]


def run(case, ctx):
    kind = case[0]
    if kind in ('prod', 'power'):
        t, n = case[1:3]
        orbs = tuple(range(n))
        S, M = P14.strs(t, n, n if n < 4 else 3)
        if kind == 'prod':
            parts = [P14.build(d, n, t) for d in case[3]]
            combos = []
            tr, ac = parts[0]
            for a, b in parts[1:]:
                tr, ac = tr * a, ac.after(b)
            combos.append((tr, ac, 'left to right'))
            if len(parts) == 3:
                combos.append((parts[0][0] * (parts[1][0] * parts[2][0]), ac, 'right to left'))
        else:
            tr0, ac0 = P14.build(case[3], n, t)
            combos = []
            ac = ac0
            for k in range(1, 7 if case[3][0] != 'U' else 4):
                combos.append((tr0 ** k, ac, 'power %d' % k))
                ac = ac0.after(ac)
        for tr, ac, what in combos:
            for s, m in zip(S, M):
                P14.image(tr, ac, s, m, orbs, '%s %s' % (case[3], what), ctx)
            # as a linear map: the matrix in the full basis
            b = qy.Basis(S)
            X = qy.symmetry_matrix(b, tr).toarray()
            check(ref.close(X, matrix_of(ac, M)), '{} {}: symmetry matrix', case, what)
            if kind == 'prod':
                Y = np.eye(len(S), dtype=complex)
                for d in case[3]:
                    Y = Y @ qy.symmetry_matrix(b, P14.build(d, n, t)[0]).toarray()
                check(ref.close(X, Y), '{} {}: the matrix of the product is not the product of the matrices', case, what)
                # a product applied to an operator = one after the other
                o = qy.Operator([1.0, -2.0, 0.5], [S[1], S[5], S[-2]])
                o2 = o
                for d in case[3][::-1]:
                    o2 = P14.build(d, n, t)[0].apply(o2)
                check((tr.apply(o) - o2).norm() < 1e-9, '{} {}: applied to an operator', case, what)
    elif kind == 'sub':
        _, t, n, d, size = case
        tr, ac = P14.build(d, n, t)
        S, M = P14.strs(t, n, n)
        for sub in it.permutations(range(16), size) if size < 3 else it.combinations(range(16), 3):
            m = [M[i] for i in sub]
            X = qy.symmetry_matrix(qy.Basis([S[i] for i in sub]), tr)
            ctx.step()
            check(X.shape == (size, size) and ref.close(X.toarray(), matrix_of(ac, m)), '{}: symmetry matrix in {}', case,
                  [str(S[i]) for i in sub])
            ctx.state((t, str(d), sub, X.nnz))
            ctx.outcome((size, X.nnz))
    elif kind == 'matrix':
        _, t, n, d = case
        tr, ac = P14.build(d, n, t)
        S, M = P14.strs(t, n, min(n, 3))
        for sl in (slice(None), slice(None, None, -1), slice(1, None), slice(None, None, 3), slice(0, 9), slice(-9, None)):
            b, m = qy.Basis(S[sl]), M[sl]
            X = qy.symmetry_matrix(b, tr).toarray()
            ctx.step()
            check(ref.close(X, matrix_of(ac, m)), '{}: symmetry matrix in {}', case, sl)
            ctx.state((str(case), str(sl)))
        # lists of operators whose span is mapped into itself
        full = qy.Basis(S)
        for k, l in enumerate(P11.combos(t, n, 'quick')):
            if 'T' in str(d) and any(np.iscomplexobj(q.coeffs) and np.any(q.coeffs.imag) for q, _ in l):
                continue  # documented: antilinear transformations need real coefficients
            ops, m = [x[0] for x in l], [x[1] for x in l]
            B = np.array([x.reshape(-1) for x in m]).T
            A = np.array([ac(x).reshape(-1) for x in m]).T
            X = qy.symmetry_matrix(ops, tr).toarray()
            check(X.shape == (len(l), len(l)), '{} list {}: shape {}', case, k, X.shape)
            inside = ref.rank(np.hstack([A, B])) == ref.rank(B)
            ctx.step()
            if inside:
                check(ref.close(B @ X, A, 1e-7), '{} list {}: the symmetry matrix is wrong', case, k)
            ctx.outcome(('list', inside))
        if d[0] == 'U':
            return
        # an orbit-closed, non-orthogonal list
        i, j = 1, len(S) // 2
        ops, m = [], []
        seen = set()
        for s, mm in ((S[i], M[i]), (S[j], M[j])):
            for _ in range(4):
                o = tr.apply(s)
                key = str(s)
                if key not in seen:
                    seen.add(key)
                    ops.append(qy.Operator([1.0], [s]))
                    m.append(ref.mat(s, tuple(range(n))))
                s = [x for _, x in o][0]
        for r in range(1, len(ops)):
            ops[r] = ops[r] + 0.5 * ops[r - 1]
            m[r] = m[r] + 0.5 * m[r - 1]
        B = np.array([x.reshape(-1) for x in m]).T
        A = np.array([ac(x).reshape(-1) for x in m]).T
        if ref.rank(np.hstack([A, B])) == ref.rank(B) == len(m):
            X = qy.symmetry_matrix(ops, tr).toarray()
            check(ref.close(B @ X, A, 1e-7), '{}: the symmetry matrix of a closed list is wrong', case)
            ctx.step()
    elif kind == 'spin':
        _, s, h = case
        lat, names, up, dn = P14.spin_lattice(s)
        n = len(lat)
        orbs = tuple(range(n))
        perm = list(range(n))
        for u, v in zip(up, dn):
            perm[u], perm[v] = v, u
        kw = {} if names is None else {'up_name': names[0], 'dn_name': names[1]}
        mk = {'f': lambda: (qy.spin_flip_symmetry(lat, **kw), reftrans.permutation(perm, 'Majorana')),
              'p': lambda: (qy.spin_parity_symmetry(lat, **kw), reftrans.spin_parity(dn, n)),
              'T': lambda: (qy.time_reversal(lat if names is None else (lat,) + tuple(names)), reftrans.spinful_time_reversal(up, dn, n)),
              't': lambda: (qy.time_reversal(), reftrans.time_reversal(n, 'Majorana')),
              'C': lambda: (qy.particle_hole(), reftrans.particle_hole(n))}
        a, b = mk[h[0]](), mk[h[1]]()
        tr, ac = a[0] * b[0], a[1].after(b[1])
        S, M = P14.strs('Majorana', n, 3)
        for os, m in zip(S, M):
            P14.image(tr, ac, os, m, orbs, '%s on %s' % (h, s), ctx)
    else:
        tr = qy.label_permutation([1, 2, 0])
        for bad in (0, -1, 1.5, '2', None):
            try:
                tr ** bad
                check(False, 'power {!r} accepted', bad)
            except ValueError:
                ctx.step()
        for bad in ('X', 3):
            try:
                qy.symmetry_matrix(bad, tr)
                check(False, 'symmetry matrix of {!r}', bad)
            except (ValueError, TypeError):
                ctx.step()
