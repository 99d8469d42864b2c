"""Exact diagonalization returns the eigenvalues and eigenvectors of the operator."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P22'
BOUND = {
    'quick': 'spin, Majorana and fermion operators: all with one or two strings on two orbitals and relative coefficient in '
             '{1,-0.6,i} (Hermitian and general mode), all sums of two weight-2 Pauli strings on three orbitals, '
             'chains/rings on 3..6 orbitals with 4 couplings each; full spectrum, and the lowest 1..5 levels (general operators: any matching eigenpairs); identity terms and unused orbitals',
    'thorough': 'as quick with all two-string operators on three orbitals (Pauli, Majorana)',
}
CHUNK = 6
ALPH = {'Pauli': 'XYZ', 'Majorana': 'ABD'}


def fam(t, n):
    if t != 'Fermion':
        return [(t, o, l) for o, l in ref.strings(ALPH[t], range(n))]
    out = []
    for i in range(n):
        out.append((t, ('CDag', 'C'), (i, i)))
    for i, j in it.combinations(range(n), 2):
        out += [(t, ('CDag', 'C'), (i, j)), (t, ('CDag', 'CDag'), (i, j)), (t, ('CDag', 'CDag', 'C', 'C'), (i, j, j, i))]
    return out


def mk(d):
    return qy.OperatorString(list(d[1]), list(d[2]), d[0])


def cases(tier):
    for t in ('Pauli', 'Majorana', 'Fermion'):
        F = fam(t, 2)
        for i in range(len(F)):
            yield ['two', t, 2, i]
        if t != 'Fermion' and tier == 'thorough':
            for i in range(64):
                yield ['two', t, 3, i]
    W2 = [k for k, d in enumerate(fam('Pauli', 3)) if len(d[1]) == 2]
    for i in W2:
        yield ['w2', i]
    for name in ('heis', 'tfim', 'xyz', 'kitaev', 'hop', 'hubbard', 'majo'):
        for n in (3, 4, 5) + ((6,) if name in ('tfim', 'kitaev') or tier == 'thorough' else ()):
            for c in range(4):
                yield ['chain', name, n, c]


def expected(op, n):
    m = ref.opmat(op, range(n))
    if op.op_type == 'Fermion':
        # conversion leaves out the identity
        m = m - np.trace(m) / 2 ** n * np.eye(2 ** n)
    return m


def judge(op, n, ctx, general=False, ks=()):
    M = expected(op, n)
    text = str(op)
    if general:
        e, V = qy.diagonalize(op, n, mode='general')
        ctx.step()
        check(e.shape == (2 ** n,) and ref.close(M @ V, V * e, 1e-8), 'eigenvectors of\n{}', op)
        w = list(np.linalg.eigvals(M))
        scale = max(1.0, float(np.abs(M).max()))
        for x in e:
            j = int(np.argmin([abs(x - y) for y in w]))
            check(abs(w[j] - x) < 1e-5 * scale, 'spectrum of\n{}: {}', op, e)
            w.pop(j)
        check(np.allclose(np.linalg.norm(V, axis=0), 1), 'normalisation')
        for k in ks:
            e, V = qy.diagonalize(op, n, mode='general', num_vecs=k)
            ctx.step()
            check(e.shape == (k,) and V.shape == (2 ** n, k) and ref.close(M @ V, V * e, 1e-6) and np.allclose(np.linalg.norm(V, axis=0), 1),
                  '{} levels of\n{}: not eigenvectors', k, op)
    else:
        e, V = qy.diagonalize(op, n)
        w = np.linalg.eigvalsh(M)
        ctx.step()
        check(e.shape == (2 ** n,) and V.shape == (2 ** n,) * 2 and ref.close(e, w, 1e-9), 'spectrum of\n{}is {}, expected {}', op, e, w)
        check(ref.close(M @ V, V * e, 1e-9), 'eigenvectors of\n{}', op)
        check(ref.close(V.conj().T @ V, np.eye(2 ** n), 1e-9), 'the eigenvectors of\n{}are not orthonormal', op)
        for k in ks:
            if k >= 2 ** n - 1:
                continue
            e, V = qy.diagonalize(op, n, num_vecs=k)
            ctx.step()
            check(e.shape == (k,) and V.shape == (2 ** n, k) and ref.close(M @ V, V * e, 1e-7), '{} lowest levels of\n{}: not eigenvectors', k, op)
            check(np.all(np.diff(e) >= -1e-12), 'levels are not sorted: {}', e)
            check(abs(e[0] - w[0]) < 1e-7 * max(1, abs(w[0])), 'ground-state energy of\n{}is {}, expected {}', op, e[0], w[0])
            check(ref.close(e, w[:k], 1e-7), '{} lowest levels of\n{}are {}, expected {}', k, op, e, w[:k])
    check(str(op) == text, 'the operator was modified')
    ctx.state((n, general, text))
    ctx.outcome((n, len(set(np.round(np.real(e), 5)))))


def chain(name, n, c):
    J = (1.0, -0.5, 0.3, 2.0)[c]
    terms = []
    bonds = [(i, (i + 1) % n) for i in range(n if c % 2 else n - 1)]
    for i, j in bonds:
        a, b = min(i, j), max(i, j)
        if name == 'heis':
            terms += [(0.25, ('Pauli', (p, p), (a, b))) for p in 'XYZ']
        elif name == 'xyz':
            terms += [(x, ('Pauli', (p, q), (a, b))) for x, p, q in ((1.0, 'X', 'X'), (J, 'Y', 'Z'), (-0.3, 'Z', 'Y'))]
        elif name == 'tfim':
            terms += [(-1.0, ('Pauli', ('Z', 'Z'), (a, b)))]
        elif name == 'kitaev':
            terms += [(-1.0, ('Fermion', ('CDag', 'C'), (a, b))), (J if i < j else -J, ('Fermion', ('CDag', 'CDag'), (a, b)))]
        elif name in ('hop', 'hubbard'):
            terms += [(-1.0, ('Fermion', ('CDag', 'C'), (a, b)))]
            if name == 'hubbard':
                terms += [(J, ('Fermion', ('CDag', 'CDag', 'C', 'C'), (a, b, b, a)))]
        elif name == 'majo':
            terms += [(1.0, ('Majorana', ('A', 'B'), (a, b))), (J, ('Majorana', ('D', 'D'), (a, b)))]
    for i in range(n):
        if name == 'tfim':
            terms.append((-J, ('Pauli', ('X',), (i,))))
            terms.append((0.05 * (i + 1), ('Pauli', ('Z',), (i,))))
        elif name in ('kitaev', 'hop', 'hubbard'):
            terms.append((J * (1 + 0.1 * i), ('Fermion', ('CDag', 'C'), (i, i))))
        elif name == 'majo':
            terms.append((0.2 * i, ('Majorana', ('D',), (i,))))
        elif name == 'heis' and c >= 2:
            terms.append((0.1 * i * J, ('Pauli', ('Z',), (i,))))
    if name == 'xyz':
        terms.append((1.5, ('Pauli', (), ())))
    op = qy.Operator(op_type=terms[0][1][0])
    for x, d in terms:
        op += qy.Operator([x], [mk(d)])
    return op


def run(case, ctx):
    kind = case[0]
    if kind == 'two':
        _, t, n, i = case
        F = fam(t, n)
        a = mk(F[i])
        judge(qy.Operator([-1.5], [a]), n, ctx)
        judge(qy.Operator([0.5], [a]), n + 1, ctx)
        for j in range(len(F)):
            if j == i:
                continue
            b = mk(F[j])
            for c in (1.0, -0.6):
                judge(qy.Operator([1.0, c], [a, b]), n, ctx)
            if t != 'Fermion':
                judge(qy.Operator([1.0, 1j], [a, b]), n, ctx, general=True)
                judge(qy.Operator([1.0, -0.6], [a, b]), n, ctx, general=True)
    elif kind == 'w2':
        F = [d for d in fam('Pauli', 3) if len(d[1]) == 2]
        a = mk(fam('Pauli', 3)[case[1]])
        for d in F:
            b = mk(d)
            if a != b:
                judge(qy.Operator([1.0, 0.7], [a, b]), 3, ctx)
    else:
        _, name, n, c = case
        op = chain(name, n, c)
        judge(op, n, ctx, ks=(1, 2, 3, 5) if n <= 5 else (1, 2))
        if n <= 4:
            judge(op, n, ctx, general=True, ks=(1, 2, 4))
