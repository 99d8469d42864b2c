"""Free-fermion diagonalization agrees with the many-body operator."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P23'
BOUND = {
    'quick': 'quadratic Majorana and fermion operators: all sums of <=3 quadratic strings on <=3 orbitals (two orbitals: <=4) with '
             'coefficients (1,1,1), (1,-0.7,0.3), (0.5,2,-1.5); chains and rings of 4..6 orbitals (Kitaev chain incl. '
             'zero modes, hopping with flux and potentials) with 5 couplings; every non-quadratic string of <=4 operators on two orbitals is rejected; lowest modes with num_vecs, modes next to sigma',
    'thorough': 'as quick with 4-term operators on three orbitals (coefficients of two kinds)',
}
CHUNK = 10
COEFFS = ((1.0, 1.0, 1.0, 1.0), (1.0, -0.7, 0.3, 1.3), (0.5, 2.0, -1.5, -1.0))


def majo(n):
    out = [(('D',), (l,)) for l in range(n)]
    for a, b in it.combinations(range(n), 2):
        out += [((x, y), (a, b)) for x in 'AB' for y in 'AB']
    return [('Majorana', o, l, 1) for o, l in out]


def ferm(n):
    out = [('Fermion', ('CDag', 'C'), (l, l), 1) for l in range(n)]
    for a, b in it.combinations(range(n), 2):
        for ph in (1, 1j):
            out += [('Fermion', ('CDag', 'C'), (a, b), ph), ('Fermion', ('CDag', 'CDag'), (a, b), ph)]
    return out


def mk(d):
    return qy.OperatorString(list(d[1]), list(d[2]), d[0], d[3]) if d[0] == 'Fermion' else qy.OperatorString(list(d[1]), list(d[2]), d[0])


def cases(tier):
    yield ['errors']
    for t, f in (('Majorana', majo), ('Fermion', ferm)):
        for n in (1, 2, 3):
            F = f(n)
            top = 4 if n == 2 or tier == 'thorough' else 3
            for r in range(1, min(top, len(F)) + 1):
                if r == 1:
                    yield ['terms', t, n, r, -1]
                else:
                    for i in range(len(F)):
                        yield ['terms', t, n, r, i]
    for name in ('kitaev', 'zero', 'flux', 'random'):
        for n in (4, 5, 6):
            for c in range(5):
                yield ['chain', name, n, c]


def ladder(n):
    c = [ref._site('C', i, n) for i in range(n)]
    return c, [x.conj().T for x in c]



def judge(op, n, ctx):
    text = str(op)
    M = ref.opmat(op, range(n))
    N = 2 ** n
    # the identity part of c^dag c is left out
    M = M - np.trace(M) / N * np.eye(N)
    w = np.linalg.eigvalsh(M)
    scale = max(1.0, float(abs(w).max()))
    E0, e, F, Z = qy.diagonalize_quadratic(op, n)
    ctx.step()
    e = np.asarray(e)
    check(e.shape == (n,) and np.all(e >= -1e-9), 'energies {}', e)
    spec = np.sort([E0 + sum(x) for x in it.product(*[(0.0, v) for v in e])])
    check(ref.close(spec, w, 1e-8), '{}quasi-particle energies {} and ground state {} give the spectrum {}, expected {}', op, e, E0, spec, w)
    c, cd = ladder(n)
    maj = []
    for i in range(n):
        maj += [ref._site('A', i, n), ref._site('B', i, n)]
    check(Z.shape == (2 * n, 2 * n) and np.isrealobj(Z) and ref.close(Z.T @ Z, np.eye(2 * n), 1e-9), '{}Majorana modes are not orthonormal', op)
    new = [sum(Z[i, k] * maj[i] for i in range(2 * n)) for k in range(2 * n)]
    H = sum(0.5j * e[k] * new[2 * k] @ new[2 * k + 1] for k in range(n))
    check(ref.close(H, M, 1e-8), '{}is not sum_n e_n (i/2) a_n b_n of the returned Majorana modes', op)
    check(F.shape == (2 * n, 2 * n) and ref.close(F.conj().T @ F, np.eye(2 * n), 1e-9), '{}fermion modes are not orthonormal', op)
    lad = c + cd
    m = [sum(F[i, k] * lad[i] for i in range(2 * n)) for k in range(2 * n)]
    for k in range(n):
        check(ref.close(m[k + n], m[k].conj().T, 1e-9), '{}the second half of the modes is not the adjoint of the first', op)
    H = sum(e[k] * (m[k + n] @ m[k]) for k in range(n)) + E0 * np.eye(N)
    check(ref.close(H, M, 1e-8), '{}is not E0 + sum_n e_n c_n^dag c_n of the returned modes', op)
    # Bogoliubov-de Gennes
    E, U, V = qy.diagonalize_bdg(op, n)
    ctx.step()
    check(ref.close(np.sort(E), np.sort(e), 1e-7), '{}BdG energies {}, quasi-particle energies {}', op, E, e)
    check(U.shape == (n, n) and V.shape == (n, n) and ref.close(U.conj().T @ U + V.conj().T @ V, np.eye(n), 1e-9), '{}BdG modes are not orthonormal', op)
    for k in range(n):
        g = sum(U[i, k] * cd[i] + V[i, k] * c[i] for i in range(n))
        check(ref.close(M @ g - g @ M, -E[k] * g, 1e-7), '{}BdG mode {} is not a mode of energy {}', op, k, E[k])
    for k in range(1, n if n >= 4 else 0):
        E, U, V = qy.diagonalize_bdg(op, n, num_vecs=k)
        ctx.step()
        check(U.shape == (n, k) and V.shape == (n, k) and ref.close(np.diag(U.conj().T @ U + V.conj().T @ V), np.ones(k), 1e-7), '{}{} BdG modes are not normalized', op, k)
        check(ref.close(np.sort(E), np.sort(e)[n - k:], 1e-6), '{}{} BdG energies {}, quasi-particle energies {}', op, k, E, e)
        for j in range(k):
            g = sum(U[i, j] * cd[i] + V[i, j] * c[i] for i in range(n))
            check(ref.close(M @ g - g @ M, -E[j] * g, 1e-6), '{}BdG mode {} of {} is not a mode of energy {}', op, j, k, E[j])
    if n >= 4:
        # near sigma: the modes right below it
        lam = np.sort(np.concatenate((-e, e)))
        gaps = np.diff(lam)
        for sg in sorted(set([0.5 * (lam[i] + lam[i + 1]) for i in range(n - 2, 2 * n - 1, 2) if gaps[i] > 0.05])):
            below = lam[lam < sg]
            for k in range(1, min(3, len(below)) + 1):
                E, U, V = qy.diagonalize_bdg(op, n, num_vecs=k, sigma=sg)
                ctx.step()
                check(U.shape == (n, k) and V.shape == (n, k) and ref.close(np.diag(U.conj().T @ U + V.conj().T @ V), np.ones(k), 1e-7), '{}{} BdG modes near {} are not normalized', op, k, sg)
                for j in range(k):
                    g = sum(U[i, j] * cd[i] + V[i, j] * c[i] for i in range(n))
                    comm = M @ g - g @ M
                    check(any(ref.close(comm, s * E[j] * g, 1e-6) for s in (1, -1)), '{}BdG mode {} near {} is not a mode of energy {}', op, j, sg, E[j])
                if len(below) == k or all(np.diff(below)[-k:] > 1e-4):
                    check(ref.close(np.sort(E), np.sort(abs(below[-k:])), 1e-6), '{}{} BdG energies {} below {}, expected {}', op, k, E, sg, below[-k:])
    check(str(op) == text, 'the operator was modified')
    ctx.state((n, text))
    ctx.outcome((n, tuple(np.round(np.sort(e), 3))))
    return w


def tight(op, n, ctx, ks=()):
    M = ref.opmat(op, range(n))
    c, cd = ladder(n)
    vac = np.zeros(2 ** n)
    vac[0] = 1
    base = [x @ vac for x in cd]
    h = np.array([[a @ (M @ b) - (vac @ M @ vac if i == j else 0) for j, b in enumerate(base)] for i, a in enumerate(base)])
    w = np.linalg.eigvalsh(h)
    for k in (None,) + tuple(ks):
        if k is not None and k > n - 2:
            continue
        e, V = qy.diagonalize_quadratic_tightbinding(op, n, num_vecs=k)
        ctx.step()
        m = n if k is None else k
        check(e.shape == (m,) and V.shape == (n, m), 'shape of the one-body spectrum')
        o = np.argsort(e)
        check(ref.close(np.asarray(e)[o], w[:m], 1e-7), '{}one-body energies {}, expected {}', op, e, w)
        check(ref.close(h @ V, V * e, 1e-7), '{}one-body eigenvectors', op)
        check(ref.close(V.conj().T @ V, np.eye(m), 1e-7), '{}one-body eigenvectors are not orthonormal', op)


def run(case, ctx):
    kind = case[0]
    if kind == 'terms':
        _, t, n, r, i = case
        F = (majo if t == 'Majorana' else ferm)(n)
        for comb in it.combinations(range(len(F)), r):
            if i >= 0 and comb[0] != i:
                continue
            for co in COEFFS if r < 4 else COEFFS[:2]:
                op = qy.Operator(list(co[:r]), [mk(F[k]) for k in comb])
                judge(op, n, ctx)
                if t == 'Fermion' and all(F[k][1] == ('CDag', 'C') for k in comb):
                    tight(op, n, ctx)
        if r == 1:
            for d in F:
                judge(qy.Operator([-2.0], [mk(d)]), n + 1, ctx)
    elif kind == 'chain':
        _, name, n, c = case
        mu = (0.0, 0.5, -1.0, 2.0, 0.3)[c]
        op = qy.Operator(op_type='Fermion')
        ring = c % 2 == 1 and name != 'zero'
        for i in range(n if ring else n - 1):
            a, b = min(i, (i + 1) % n), max(i, (i + 1) % n)
            op += qy.Operator([-1.0], [mk(('Fermion', ('CDag', 'C'), (a, b), 1))])
            if name in ('kitaev', 'zero'):
                d = 1.0 if name == 'zero' else 0.7 * (1 if b == a + 1 else -1)
                op += qy.Operator([d], [mk(('Fermion', ('CDag', 'CDag'), (a, b), 1))])
            if name == 'flux':
                op += qy.Operator([0.4], [mk(('Fermion', ('CDag', 'C'), (a, b), 1j))])
            if name == 'random':
                op += qy.Operator([np.cos(3 * i + c)], [mk(('Fermion', ('CDag', 'CDag'), (a, b), 1j))])
        for i in range(n):
            m = 0.0 if name == 'zero' and c < 2 else mu * (1 + (0.3 * i if name in ('flux', 'random') else 0))
            if m:
                op += qy.Operator([m], [mk(('Fermion', ('CDag', 'C'), (i, i), 1))])
        judge(op, n, ctx)
        judge(qy.convert(op, 'Majorana'), n, ctx)
        if name == 'flux':
            tight(op, n, ctx, (1, 2))
            # the Majorana form gives the same one-body problem
            tight(qy.convert(op, 'Majorana', include_identity=False), n, ctx)
    else:
        for n, f in ((2, qy.cluster_basis(2, [0, 1], 'Majorana')), (2, qy.cluster_basis([1, 2, 3, 4], [0, 1], 'Fermion'))):
            for s in f:
                t = s.op_type
                m = ref.mat(s, range(n))
                lad = sum(ladder(n), [])
                quad = ''.join(s.orbital_operators) in ('D', 'AA', 'AB', 'BA', 'BB', 'CDagC', 'CDagCDag')
                op = qy.Operator([1.0], [s])
                for fun in (qy.diagonalize_quadratic, qy.diagonalize_bdg):
                    ctx.step()
                    try:
                        fun(op, n)
                        ok = True
                    except ValueError:
                        ok = False
                    check(ok == quad, '{}: {} {}', fun.__name__, s, 'accepted' if ok else 'rejected')
                    ctx.outcome((fun.__name__, ok))
        for fun in (qy.diagonalize_quadratic, qy.diagonalize_bdg):
            try:
                fun(qy.Operator([1.0], [qy.opstring('Z 0')]), 1)
                check(False, '{}: spins accepted', fun.__name__)
            except ValueError:
                ctx.step()
        try:
            qy.diagonalize_quadratic_tightbinding(qy.Operator([1.0], [qy.opstring('CDag 0 CDag 1')]), 2)
            check(False, 'pairing accepted in a tight-binding operator')
        except ValueError:
            ctx.step()
