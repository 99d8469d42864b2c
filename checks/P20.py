"""Matrices, coordinates and state vectors represent the same operators and permutations."""
import itertools as it
import numpy as np
import scipy.sparse as ss
import qosy as qy
from mc import ref, reftrans
from mc.harness import check

ID = 'P20'
BOUND = {
    'quick': 'every Pauli string on 1..5 orbitals (every weight<=2 string on 6 and 7), also with trailing unused orbitals; all '
             'two-term operators on two orbitals with coefficients {1,-1,0.5i}; coordinates of every such matrix and of all '
             'elementary matrices E_ij in full, partial and reordered bases; the way back to operators; every permutation of '
             '1..4 orbitals (24 of 5) on every basis state and on structured superpositions, compared with the action on '
             'operators; single configurations of up to 128 orbitals; invalid input',
    'thorough': 'as quick with strings on 6 orbitals, all permutations of 5 orbitals, elementary matrices on 4 orbitals',
}
CHUNK = 8


def cases(tier):
    yield ['errors']
    for n in (1, 2, 3, 4, 5) + ((6,) if tier == 'thorough' else ()):
        for ops, labs in ref.strings('XYZ', range(n)):
            yield ['string', n, list(ops), list(labs)]
    for n in (6, 7):
        for ops, labs in ref.strings('XYZ', range(n), 0, 2):
            yield ['string', n, list(ops), list(labs)]
    for i in range(16):
        yield ['pairs', i]
    for n in (1, 2, 3) + ((4,) if tier == 'thorough' else ()):
        for i in range(2 ** n):
            yield ['elem', n, i]
    for n in (1, 2, 3, 4, 5):
        for k, p in enumerate(it.permutations(range(n))):
            if n < 5 or k % 5 == 3 or tier == 'thorough':
                yield ['perm', n, list(p)]
    for n in (31, 32, 62, 63, 64, 65, 70, 128):
        yield ['large', n]


def dense(m):
    check(ss.issparse(m), 'the matrix is not sparse')
    return m.toarray()


def coords(basis, n, what, M, ctx):
    v = qy.to_vector(ss.csr_matrix(M), basis, n)
    e = np.array([np.trace(ref.mat(s, range(n)).conj().T @ M) / 2 ** n for s in basis])
    ctx.step()
    check(ref.close(v, e), '{}: coordinates {}, expected {}', what, v, e)
    return e


def run(case, ctx):
    kind = case[0]
    if kind == 'string':
        _, n, ops, labs = case
        s = qy.OperatorString(list(ops), list(labs), 'Pauli')
        m = ref.string_matrix('Pauli', tuple(ops), tuple(labs), 1, tuple(range(n)))
        for obj, c in ((s, 1.0), (qy.Operator([1.0], [s]), 1.0), (qy.Operator([-0.5j], [s]), -0.5j)):
            got = qy.to_matrix(obj, n)
            ctx.step()
            check(got.shape == m.shape and ref.close(dense(got), c * m), 'matrix of {} on {} orbitals', s, n)
        ctx.state((n, str(s)))
        ctx.outcome((len(labs), ops.count('Y')))
    elif kind == 'pairs':
        S = [qy.OperatorString(list(o), list(l), 'Pauli') for o, l in ref.strings('XYZ', range(2))]
        a = S[case[1]]
        full = qy.Basis(S)
        bases = [full, qy.Basis(S[::-1]), qy.Basis(S[3:9]), qy.Basis([S[case[1]]])]
        for b in S:
            for n in (2, 3):
                for c in (1.0, -1.0, 0.5j):
                    op = qy.Operator([1.0, c], [a, b]) if a != b else qy.Operator([1.0 + c], [a])
                    m = ref.opmat(op, range(n))
                    got = dense(qy.to_matrix(op, n))
                    ctx.step()
                    check(ref.close(got, m), 'matrix of\n{}on {} orbitals', op, n)
                    for bs in bases:
                        v = coords(bs, n, str(op), m, ctx)
                        if n == 2:
                            r = qy.to_operator(ss.csr_matrix(m), bs, n)
                            check(r.op_type == 'Pauli' and ref.close(ref.opmat(r, range(n)), ref.combo(v, [ref.mat(s, range(n)) for s in bs], n)),
                                  'operator from the matrix of\n{}', op)
                    check(ref.close(ref.opmat(qy.to_operator(ss.csr_matrix(m), full, n), range(n)), m), 'round trip of\n{}', op)
                    ctx.state((n, str(op)))
        ctx.outcome('pairs')
    elif kind == 'elem':
        _, n, i = case
        S = [qy.OperatorString(list(o), list(l), 'Pauli') for o, l in ref.strings('XYZ', range(n))]
        full = qy.Basis(S)
        part = qy.Basis(S[1::2])
        for j in range(2 ** n):
            M = np.zeros((2 ** n, 2 ** n), dtype=complex)
            M[i, j] = 1.0 - 2.0j
            coords(full, n, 'E_%d,%d' % (i, j), M, ctx)
            coords(part, n, 'E_%d,%d' % (i, j), M, ctx)
            op = qy.to_operator(ss.csr_matrix(M), full, n)
            check(ref.close(ref.opmat(op, range(n)), M) and ref.close(dense(qy.to_matrix(op, n)), M), 'round trip of E_{},{} on {} orbitals', i, j, n)
            ctx.state((n, i, j))
            ctx.outcome((n, len(op)))
    elif kind == 'perm':
        _, n, p = case
        T = qy.label_permutation(p if len(p) % 2 else np.array(p))
        U = reftrans.spin_perm(tuple(p))
        N = 2 ** n
        vecs = [np.eye(N, dtype=complex)[:, k] for k in range(N)]
        vecs.append(np.array([(k + 1) * (1j ** k) for k in range(N)]))
        vecs.append(np.arange(N) - 0.5)
        for v in vecs:
            keep = v.copy()
            w = qy.apply_transformation(T, v, n)
            ctx.step()
            check(ref.close(w, U @ v), 'permutation {} of the state {}: {}', p, v, w)
            check(np.array_equal(v, keep), 'the state was modified')
            ctx.state((tuple(p), str(np.round(w, 6))))
        for k in range(N):
            conf = qy.diagonalization.apply_transformation_conf(T, k, n)
            check(U[conf, k] == 1, 'permutation {} maps configuration {} to {}', p, k, conf)
        # the action on states and the one on operators are the same
        v = vecs[-2]
        for o, l in ref.strings('XYZ', range(n), 1, 2 if n > 2 else n):
            s = qy.OperatorString(list(o), list(l), 'Pauli')
            lhs = qy.to_matrix(T.apply(s), n) @ qy.apply_transformation(T, v, n)
            rhs = qy.apply_transformation(T, qy.to_matrix(s, n) @ v, n)
            ctx.step()
            check(ref.close(lhs, rhs), 'permutation {}: states and operators ({}) disagree', p, s)
        ctx.outcome((n, tuple(p)))
    elif kind == 'large':
        # configurations of many orbitals, where only single ones are tractable
        n = case[1]
        perms = [list(range(n))[::-1], list(range(1, n)) + [0], [n - 1] + list(range(n - 1))]
        perms += [[b if x == a else a if x == b else x for x in range(n)] for a in (0, n - 64 if n > 64 else 1, n // 2) for b in (n - 1, n // 2 + 1)]
        for p in perms:
            T = qy.label_permutation(np.array(p))
            sets = [()] + [(i,) for i in range(n)] + [(i, (i * 7 + 3) % n) for i in range(n) if (i * 7 + 3) % n != i] + [tuple(range(0, n, 3)), tuple(range(n))]
            for st in sets:
                k = sum(1 << (n - 1 - i) for i in st)
                want = sum(1 << (n - 1 - p[i]) for i in st)
                got = qy.diagonalization.apply_transformation_conf(T, k, n)
                ctx.step()
                check(got == want, 'a permutation of {} orbitals maps the configuration with {} flipped to {}, not {}', n, st, got, want)
            ctx.state((n, tuple(p)))
        ctx.outcome(n)
    else:
        for bad in ('X 0', 3, None, np.eye(2)):
            try:
                qy.to_matrix(bad, 1)
                check(False, 'matrix of {!r}', bad)
            except ValueError:
                ctx.step()
        for bad in (qy.opstring('A 0'), qy.opstring('CDag 0 C 1'), qy.Operator([1.0], [qy.opstring('A 0 B 1')])):
            try:
                qy.to_matrix(bad, 2)
                check(False, 'matrix of {}', bad)
            except NotImplementedError:
                ctx.step()
        for T, n in ((qy.time_reversal(), 2), (qy.label_permutation([1, 0]), 3), (qy.label_permutation([1, 0, 2]), 2)):
            try:
                qy.apply_transformation(T, np.ones(2 ** n), n)
                check(False, 'transformation applied to a state of {} orbitals', n)
            except ValueError:
                ctx.step()
        z = qy.to_matrix(qy.Operator(op_type='Pauli'), 2)
        check(z.shape == (4, 4) and abs(z).sum() == 0, 'matrix of the zero operator')
