"""Subspace helpers: orthogonalization, intersection, sparsification."""
import itertools as it
import numpy as np
import scipy.sparse as ss
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P28'
BOUND = {
    'quick': 'gram_schmidt: all 2x2, 2x3, 3x2, 3x3 matrices over {-1,0,1}, all 2x2 and 3x2 over {0,1,i,1-i}, near-dependent columns on both sides of the tolerance, '
             'dense and three sparse formats (sampled formats on 3x3); intersection: all pairs of 60 subspaces of C^4 (coordinate, diagonal, complex, nested, generic) in two bases each; '
             'sparsify: all matrices of independent columns over {-1,0,1} of shapes 2x2, 3x2, 3x3 and 4x2, dense and sparse, with and without orthogonalization, combined with 3 column mixings; '
             'gram_schmidt of 9 to 40 columns with every pattern of dependent ones among 6; intersections in C^12 and C^20 of all pairs of dimensions; sparsify of up to 12 x 6 matrices',
    'thorough': 'also all complex 2x3 matrices',
}
CHUNK = 1


def mats(n, k, vals, lo=0, hi=None):
    tot = len(vals) ** (n * k)
    for code in range(lo, tot if hi is None else min(hi, tot)):
        c = code
        m = []
        for _ in range(n * k):
            m.append(vals[c % len(vals)])
            c //= len(vals)
        yield np.array(m).reshape(n, k)


VALS = {'s': [0, 1, -1], 'b': [0, 1], 'c': [0, 1, 1j, 1 - 1j]}


def shapes(tier):
    out = [(2, 2, 's'), (2, 3, 's'), (3, 2, 's'), (3, 3, 's'), (2, 2, 'c'), (3, 2, 'c'), (1, 1, 's'), (1, 3, 's'), (4, 1, 's')]
    if tier == 'thorough':
        out += [(2, 3, 'c')]
    return out


def cases(tier):
    for n, k, v in shapes(tier):
        tot = len(VALS[v]) ** (n * k)
        for lo in range(0, tot, 128):
            yield ['gs', n, k, v, lo, lo + 128]
            if n >= k and v != 'c' or (n, k) == (2, 2):
                yield ['sp', n, k, v, lo, lo + 128]
    for lo in range(0, 3 ** 8, 256):
        yield ['sp', 4, 2, 's', lo, lo + 256]
    yield ['gstol']
    S = spaces()
    for i in range(len(S)):
        yield ['int', i]
    for d in (9, 12, 40):
        for lo in range(0, 64, 16):
            yield ['gsbig', d, lo]
    for d in (12, 20):
        for a in range(1, d, 1 if d < 20 else 3):
            yield ['intbig', d, a]
    for n, k in ((5, 3), (6, 4), (8, 4), (12, 6)):
        for j in range(8):
            yield ['spbig', n, k, j]
    yield ['edge']


def irr(n, k, j, cplx):
    a = np.arange(1, n + 1)[:, None] * np.sqrt(2.0) + np.arange(1, k + 1)[None, :] * np.sqrt(3.0) + j
    m = np.cos(a * a * 1.37)
    return m + 1j * np.sin(a * a * 0.73) if cplx else m


def spaces():
    """bases (as lists of vectors) of subspaces of C^4"""
    e = np.eye(4, dtype=complex)
    out = [[e[i] for i in c] for r in range(1, 5) for c in it.combinations(range(4), r)]
    d = [e[0] + e[1], e[0] - e[1], e[2] + 1j * e[3], e[0] + e[1] + e[2] + e[3], e[1] - 2 * e[3], 1j * e[0] + e[2]]
    out += [[x] for x in d]
    out += [[x, y] for x, y in it.combinations(d, 2)]
    out += [[x, e[i]] for x in d[:3] for i in range(4) if ref.rank(np.array([x, e[i]])) == 2]
    out += [[d[0], d[2], d[4]], [d[3], d[4], d[5]], [d[0], d[1], d[2]], [e[0], d[3], d[5]]]
    g = [np.array([1, 0.37, -1.2, 0.9]), np.array([0.3, 1.1, 0.4j, -0.2]), np.array([-0.6j, 0.2, 0.8, 1])]
    out += [g[:1], g[:2], g[1:], g]
    return out


def onb(vs, mix):
    m = np.array(vs, dtype=complex).T
    u, s, _ = np.linalg.svd(m, full_matrices=False)
    u = u[:, s > 1e-9]
    if mix and u.shape[1] > 1:
        k = u.shape[1]
        q, _ = np.linalg.qr(np.array([[1.0 + (i * j) % 3 + 1j * ((i + 2 * j) % 5) for j in range(k)] for i in range(k)]) + np.eye(k))
        u = u @ q
    return u


def orthonormal(q, what):
    check(ref.close(q.conj().T @ q, np.eye(q.shape[1]), 1e-8), what + ': columns are not orthonormal')


def dense(x):
    return x.toarray() if ss.issparse(x) else np.asarray(x)


def judge_gs(m, tol, ctx, forms):
    # the columns that stay: those not in the span of their predecessors
    keep = []
    for j in range(m.shape[1]):
        if j == 0:
            r = np.linalg.norm(m[:, 0])
        else:
            u = onb(m[:, :j].T, 0) if np.abs(m[:, :j]).max() > 0 else np.zeros((m.shape[0], 0))
            r = np.linalg.norm(m[:, j] - u @ (u.conj().T @ m[:, j]))
        if r > 1e-6:
            keep.append(j)
    for f in forms:
        arg = f(m)
        before = dense(arg).copy()
        for t in ([tol] if len(keep) < m.shape[1] else [tol, 0.0]):
            q = qy.gram_schmidt(arg, tol=t) if t else qy.gram_schmidt(arg)
            ctx.step()
            what = 'gram_schmidt of {} ({}, tol {})'.format(m.tolist(), type(arg).__name__, t)
            check(ss.issparse(q) == ss.issparse(arg), what + ': type {}', type(q))
            q = dense(q)
            check(q.shape == (m.shape[0], len(keep)), what + ': shape {}, expected {} columns', q.shape, len(keep))
            orthonormal(q, what)
            for a, j in enumerate(keep):
                check(ref.rank(np.hstack([q[:, :a + 1], m[:, :j + 1]])) == a + 1, what + ': the first {} columns have another span', a + 1)
            check(np.array_equal(dense(arg), before), what + ': the argument was modified')
    ctx.outcome((m.shape, len(keep)))


SPARSE = [ss.csr_matrix, ss.csc_matrix, ss.lil_matrix]


def run(case, ctx):
    kind = case[0]
    if kind == 'gs':
        _, n, k, v, lo, hi = case
        for i, m in enumerate(mats(n, k, VALS[v], lo, hi)):
            forms = [np.array]
            if n * k < 6 or i % 7 == 0:
                forms.append(SPARSE[i % 3])
            if v != 'c' and i % 2:
                forms[0] = lambda x: x.astype(float)
            judge_gs(m, 1e-9, ctx, forms)
            ctx.state(m.tolist())
    elif kind == 'gstol':
        e = np.eye(4)
        for tol in (1e-10, 1e-5, 0.01, 0.5):
            for f in (0.0, 0.1, 0.9, 1.1, 10.0):
                for base in ([e[0]], [e[0], e[1] + e[2]], [e[0] + 1j * e[3], e[1]]):
                    for mode in range(3):
                        extra = sum((c * b for c, b in zip((1.0, -2.0), base)), np.zeros(4)) * (0 if mode == 2 else 1)
                        # the component outside of the span has norm f*tol
                        out = e[2] - e[1] if len(base) == 2 and base[1][2] else e[2]
                        v = extra + f * tol * out / np.linalg.norm(out)
                        cols = list(base) + [v] if mode else [base[0], (extra if len(base) == 1 else base[0]) + 0 * v] + list(base[1:]) + [v]
                        m = np.array(cols).T
                        nk = len(base) + (f > 1)
                        for form in [np.array] + SPARSE[:2]:
                            q = dense(qy.gram_schmidt(form(m), tol=tol))
                            ctx.step()
                            check(q.shape[1] == nk, 'gram_schmidt, tolerance {}: {} of {} columns with a remainder of norm {}', tol, q.shape[1], m.shape[1], f * tol)
                            if tol > 1e-9 or f < 1:
                                orthonormal(q, 'gram_schmidt (tol {})'.format(tol))
                        ctx.state((tol, f, mode, len(base)))
    elif kind == 'sp':
        _, n, k, v, lo, hi = case
        mixes = [np.eye(k)] + ([np.array([[1.0, 0.5], [-0.25, 1.0]]), np.array([[0.6, 0.8], [0.8, -0.6]])] if k == 2 else
                               [np.eye(k) + 0.3 * np.ones((k, k))] if k > 1 else [])
        for i, m0 in enumerate(mats(n, k, VALS[v], lo, hi)):
            if ref.rank(m0) < k:
                continue
            for x, mix in enumerate(mixes if n < 4 or i % 3 == 0 else mixes[:1]):
                m = m0 @ mix
                for orth in (True, False):
                    arg = m.copy() if (i + x) % 3 else SPARSE[i % 2](m)
                    before = dense(arg).copy()
                    r = qy.sparsify(arg, orthogonalize=orth) if not orth or i % 2 else qy.sparsify(arg)
                    ctx.step()
                    what = 'sparsify of {} (orthogonalize={})'.format(m.tolist(), orth)
                    check(isinstance(r, np.ndarray) and r.shape == m.shape, what + ': shape {}', r.shape)
                    check(ref.same_span(r, m), what + ': the span changed: {}', r.tolist())
                    check(np.array_equal(dense(arg), before), what + ': the argument was modified')
                    if k > 1:
                        check(ref.close(np.linalg.norm(r, axis=0), np.ones(k)), what + ': not normalized')
                        if orth:
                            orthonormal(r, what)
                        nz = [int(np.sum(np.abs(r[:, j]) > 1e-12)) for j in range(k)]
                        check(nz == sorted(nz), what + ': not ordered by sparsity: {}', nz)
                        # an echelon form of k vectors: one vector with k-1 zeros, two with at least k-2, ...
                        check(all(z <= n - (k - 1 - j) for j, z in enumerate(nz)), what + ': not sparsified, {} nonzero entries', nz)
                        ctx.outcome(tuple(nz))
            ctx.state(m0.tolist())
    elif kind == 'gsbig':
        _, d, lo = case
        for mask in range(lo, lo + 16):
            for cplx in (0, 1):
                g = irr(d, d, mask, cplx)
                cols = []
                for j in range(d if d < 40 else 12):
                    dep = mask >> (j % 6) & 1
                    # dependent columns are combinations of two earlier ones
                    cols.append((0.7 * cols[j // 2] - 1.3 * cols[-1] if cols else 0 * g[:, 0]) if dep else g[:, j] * 10.0 ** (j % 3 - 1))
                judge_gs(np.array(cols).T, 1e-9, ctx, [np.array] if mask % 4 else [SPARSE[mask // 4 % 3]])
            ctx.state(case + [mask])
    elif kind == 'intbig':
        _, d, a = case
        for b in range(1, d, 1 if d < 20 else 3):
            for common in sorted({max(0, a + b - d), (max(0, a + b - d) + min(a, b)) // 2, min(a, b)}):
                for cplx in (0, 1):
                    q = np.linalg.qr(irr(d, d, a + 3 * b, cplx))[0]
                    u = onb(list(q[:, :a].T), 1)
                    v = onb(list(np.hstack([q[:, :common], q[:, a:a + b - common]]).T), 0)
                    u0, v0 = u.copy(), v.copy()
                    r = qy.intersection(u, v)
                    ctx.step()
                    what = 'intersection of a {}- and a {}-dimensional space in C^{}'.format(a, b, d)
                    check(r.shape == (d, common), what + ': shape {}, the dimension is {}', r.shape, common)
                    orthonormal(r, what)
                    for m in (u, v):
                        check(ref.close(m @ (m.conj().T @ r), r, 1e-8), what + ': not contained in both')
                    check(np.array_equal(u, u0) and np.array_equal(v, v0), what + ': an argument was modified')
                    ctx.outcome((d, common))
    elif kind == 'spbig':
        _, n, k, j = case
        # sparse vectors in disguise: supports of 1..n-k+1 entries, mixed
        for mixed in (0, 1, 2):
            base = np.zeros((n, k), complex if j % 2 else float)
            g = irr(n, k, j, j % 2)
            for c in range(k):
                rows = [(c + i * (1 + j // 2)) % n for i in range(1 + (c + j) % (n - k + 1))]
                base[rows, c] = g[rows, c]
            if ref.rank(base) < k:
                continue
            m = base @ ([np.eye(k), np.triu(np.ones((k, k))), irr(k, k, j + 1, 0) + 2 * np.eye(k)][mixed])
            for orth in (True, False):
                arg = m.copy() if mixed % 2 else SPARSE[j % 2](m)
                r = qy.sparsify(arg, orthogonalize=orth)
                ctx.step()
                what = 'sparsify of a {}x{} matrix (pattern {}, mixture {}, orthogonalize={})'.format(n, k, j, mixed, orth)
                check(isinstance(r, np.ndarray) and r.shape == m.shape and ref.same_span(r, m), what + ': shape or span changed')
                check(np.array_equal(dense(arg), m), what + ': the argument was modified')
                check(ref.close(np.linalg.norm(r, axis=0), np.ones(k)), what + ': not normalized')
                if orth:
                    orthonormal(r, what)
                nz = [int(np.sum(np.abs(r[:, i]) > 1e-12)) for i in range(k)]
                check(nz == sorted(nz), what + ': not ordered by sparsity: {}', nz)
                if not orth:
                    check(all(z <= n - (k - 1 - i) for i, z in enumerate(nz)), what + ': not sparsified, {} nonzero entries', nz)
            ctx.state(case + [mixed])
    elif kind == 'int':
        S = spaces()
        for j in range(len(S)):
            for mi, mj in ((0, 0), (1, 0), (0, 1)):
                a, b = onb(S[case[1]], mi), onb(S[j], mj)
                a0, b0 = a.copy(), b.copy()
                r = qy.intersection(a, b)
                ctx.step()
                what = 'intersection of spaces {} and {} (bases {},{})'.format(case[1], j, mi, mj)
                dim = a.shape[1] + b.shape[1] - ref.rank(np.hstack([a, b]))
                check(r.shape == (4, dim), what + ': shape {}, the dimension is {}', r.shape, dim)
                orthonormal(r, what)
                for m in (a, b):
                    check(ref.rank(np.hstack([m, r])) == m.shape[1], what + ': not contained in both')
                check(np.array_equal(a, a0) and np.array_equal(b, b0), what + ': an argument was modified')
                ctx.outcome(dim)
        ctx.state(('int', case[1]))
    else:
        try:
            qy.intersection(np.eye(3), np.eye(2))
            check(False, 'spaces of different dimensions accepted')
        except ValueError:
            ctx.step()
        for shape in ((3, 0), (0, 0)):
            for f in (lambda x: x, ss.csr_matrix):
                q = qy.gram_schmidt(f(np.zeros(shape)))
                ctx.step()
                check(q.shape == shape, 'gram_schmidt of an empty matrix')
        check(qy.intersection(np.eye(3), np.zeros((3, 0))).shape == (3, 0), 'intersection with the zero space')
        check(qy.sparsify(np.zeros((3, 0))).shape == (3, 0), 'sparsify of no vectors')
