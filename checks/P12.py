"""The symmetric-operator generator finds exactly the operators with all of the symmetries."""
import itertools as it
import warnings
import numpy as np
import qosy as qy
from mc import ref, reftrans
from mc.harness import check

ID = 'P12'
BOUND = {
    'quick': 'Pauli and Majorana on three orbitals; all sequences of <=2 symmetries from a menu of 12 (7 operators, one of them '
             'not Hermitian, permutations, time reversal, particle-hole) with every combination of commuting/anticommuting, and all '
             '3-sequences of a 6-symmetry sub-menu (commuting, and with one anticommuting), in both modes with every combination of '
             'sparsification and orthogonalization; four bases (full 2-local, 3-local part, lists of real and of complex operators); all '
             'histories of <=3 calls from {add A, add B, generate cumulative, generate noncumulative} ending in generate; limited '
             'numbers of eigenvectors (3 bases, single symmetries and a selection of pairs x up to 5 numbers each)',
    'thorough': 'as quick with all 3-sequences of the full menu and every combination of modes',
}
CHUNK = 2
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
ORBS = (0, 1, 2)


def _op(t, terms):
    o = qy.Operator([c for c, _ in terms], [qy.OperatorString(list(s[0]), list(s[1]), t) for _, s in terms], t)
    m = sum(c * ref.string_matrix(t, tuple(s[0]), tuple(s[1]), 1, ORBS) for c, s in terms)
    return o, m


_m = {}


def menu(t):
    if t in _m:
        return _m[t]
    P = ALPH[t]
    out = []
    out.append(_op(t, [(1.0, ((P[0],), (i,))) for i in ORBS]))
    out.append(_op(t, [(1.0, ((P[2],), (i,))) for i in ORBS]))
    out.append(_op(t, [(1.0, ((p, p), b)) for b in ((0, 1), (1, 2)) for p in P]))
    out.append(_op(t, [(1.0, ((P[0], P[0]), (0, 1))), (0.5, ((P[2], P[1]), (0, 2)))]))
    out.append(_op(t, [(1.0, ((P[2], P[2]), (0, 1))), (2.0, ((P[0],), (1,))), (-1.0, ((P[1], P[2]), (0, 2)))]))
    out.append(_op(t, [(1.0, ((P[2],) * 3, ORBS))]))
    for p in ([1, 0, 2], [2, 1, 0], [1, 2, 0]):
        out.append((qy.label_permutation(p), reftrans.permutation(p, t)))
    out.append((qy.time_reversal(), reftrans.time_reversal(3, t)))
    if t == 'Majorana':
        out.append((qy.particle_hole(), reftrans.particle_hole(3)))
    else:
        out.append((qy.label_permutation([2, 1, 0]) * qy.time_reversal(),
                    reftrans.permutation([2, 1, 0], t).after(reftrans.time_reversal(3, t))))
    out.append(_op(t, [(c, ((p,), (i,))) for i in (0, 1) for p, c in ((P[0], 1.0), (P[1], 1j))]))
    _m[t] = out
    return out


OPTS = [(m, s, o) for m in ('cumulative', 'noncumulative') for s in (True, False) for o in (False, True)]
TRANS = range(6, 11)
SUB = [0, 2, 4, 6, 8, 9]


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        n = 12
        for b in range(4):
            for r in (1, 2):
                for seq in it.product(range(n), repeat=r):
                    if b == 2 and r == 2 and sum(seq) % 3:
                        continue
                    # antiunitary maps are documented for real coefficients only
                    if b == 3 and (set(seq) & {9, 10} or (r == 2 and sum(seq) % 2)):
                        continue
                    yield ['seq', t, b, list(seq), 'all']
            for seq in it.permutations(range(n) if tier == 'thorough' else SUB, 3):
                if tier == 'thorough' and b == 0:
                    yield ['seq', t, b, list(seq), 'all']
                elif b == 0:
                    yield ['seq', t, b, list(seq), 'one']
        for a, c in ((0, 6), (6, 2), (2, 0), (9, 8), (5, 3)):
            yield ['history', t, a, c]
        yield ['empty', t]
        for k in range(3):
            for i in range(12):
                if tier == 'thorough' or t == 'Pauli' or (i + k) % 3 == 0:
                    yield ['sparse', t, k, i, tier]


_b = {}


def basis(t, k):
    key = (t, k)
    if key not in _b:
        if k == 0:
            fam = ref.strings(ALPH[t], ORBS, 1, 2)
        elif k == 1:
            fam = ref.strings(ALPH[t], ORBS, 2, 3)[::-2]
        else:
            fam = None
        if fam is not None:
            b = qy.Basis([qy.OperatorString(list(o), list(l), t) for o, l in fam])
            M = [ref.string_matrix(t, o, l, 1, ORBS) for o, l in fam]
        else:
            f = ref.strings(ALPH[t], ORBS, 1, 2)
            b, M = [], []
            c = [1.0, -2.0, 0.5] if k == 2 else [1j, 1 - 1j, -0.5]
            for i in range(0, 33):
                o, m = _op(t, [(1.0, f[i]), (c[i % 3], f[i + 3])])
                b.append(o)
                M.append(m)
        A = np.array([m.reshape(-1) for m in M]).T / np.sqrt(8)
        _b[key] = (b, M, A)
    return _b[key]


_W = {}


def constraint(t, k, i, mode):
    key = (t, k, i, mode)
    if key not in _W:
        b, M, A = basis(t, k)
        s, x = menu(t)[i]
        if isinstance(s, qy.Operator):
            f = (lambda m: m @ x - x @ m) if mode == 0 else (lambda m: m @ x + x @ m)
        else:
            f = (lambda m: x(m) - m) if mode == 0 else (lambda m: x(m) + m)
        _W[key] = np.array([f(m).reshape(-1) for m in M]).T / np.sqrt(8)
    return _W[key]


_N = {}


def solution(t, k, hist):
    """solution space of a sequence of symmetries, in the coordinates of the basis"""
    key = (t, k, frozenset(hist))
    if key not in _N:
        _N[key] = ref.nullspace(np.vstack([constraint(t, k, i, m) for i, m in set(hist)]))
    return _N[key]


def as_vectors(ops, A, b, what):
    """the generated operators as vectors in operator space, columns"""
    if isinstance(ops, np.ndarray):
        check(ops.ndim == 2 and ops.shape[0] == A.shape[1], '{}: array of shape {}', what, ops.shape)
        return A @ ops
    check(isinstance(ops, list), '{}: result of type {}', what, type(ops))
    cols = []
    for o in ops:
        check(isinstance(o, qy.Operator), '{}: result of type {}', what, type(o))
        cols.append(ref.opmat(o, ORBS).reshape(-1) / np.sqrt(8))
    return np.array(cols).T.reshape(A.shape[0], len(cols))


def staircase(counts, n):
    """the number of nonzero entries of r vectors of length n which were brought to an echelon form"""
    r = len(counts)
    return r < 2 or all(c <= n - (r - 1 - j) for j, c in enumerate(sorted(counts)))


def records(sup, vals, vecs, n, dim, overlaps, what):
    """the superoperator, its eigenvalues and eigenvectors, for operators of dimension dim in a basis of n;
    overlaps: whether the eigenproblem has the overlaps of a list of operators in it"""
    check(sup.shape == (n, n), '{}: superoperator of shape {}', what, sup.shape)
    vals, vecs = np.asarray(vals), np.asarray(vecs)
    check(vals.shape == (n,) and vecs.shape == (n, n), '{}: recorded eigenvalues of shape {}, eigenvectors {}', what, vals.shape, vecs.shape)
    check(int(np.sum(np.abs(vals) < 1e-8)) == dim, '{}: {} recorded zero eigenvalues for {} operators', what, int(np.sum(np.abs(vals) < 1e-8)), dim)
    if overlaps:
        z = vecs[:, np.abs(vals) < 1e-8]
        check(ref.close(sup @ z, 0 * z, 1e-7) and ref.rank(vecs) == n, '{}: the recorded eigenvectors are not those of the superoperator', what)
        return
    check(ref.close(sup @ vecs, vecs * vals, 1e-6 * (1 + np.abs(vals).max(initial=0.0))), '{}: the recorded eigenvectors are not those of the superoperator', what)
    check(ref.close(vecs.conj().T @ vecs, np.eye(n), 1e-6), '{}: the recorded eigenvectors are not orthonormal', what)


def verify(g, t, k, seq, modes, opt, what, ctx):
    b, M, A = basis(t, k)
    # the results of this run are the last ones
    check(len(g.projected_output_operators) >= len(seq), '{}: {} results for {} symmetries', what,
          len(g.projected_output_operators), len(seq))
    outs = g.projected_output_operators[len(g.projected_output_operators) - len(seq):]
    singles = g.output_operators[len(g.output_operators) - len(seq):] if opt[0] != 'cumulative' else None
    tot = len(g.projected_output_operators)
    lens = [len(x) for x in (g.projected_superoperators, g.projected_eigenvalues, g.projected_eigenvectors)]
    check(lens == [tot] * 3, '{}: records of {} symmetries for {} results', what, lens, tot)
    psup, pvals, pvecs = (x[tot - len(seq):] for x in (g.projected_superoperators, g.projected_eigenvalues, g.projected_eigenvectors))
    if opt[0] != 'cumulative':
        lens = [len(x) for x in (g.superoperators, g.eigenvalues, g.eigenvectors)]
        check(lens == [len(g.output_operators)] * 3, '{}: records of {} symmetries for {} results', what, lens, len(g.output_operators))
        sup, vals, vecs = (x[len(x) - len(seq):] for x in (g.superoperators, g.eigenvalues, g.eigenvectors))
    nprev = len(b)
    for i in range(len(seq)):
        N = solution(t, k, list(zip(seq[:i + 1], modes[:i + 1])))
        V = as_vectors(outs[i], A, b, what)
        ctx.step()
        check(V.shape[1] == N.shape[1], '{}: {} operators obey the first {} symmetries, but {} were generated', what,
              N.shape[1], i + 1, V.shape[1])
        if N.shape[1]:
            check(ref.same_span(V, A @ N), '{}: the operators generated for the first {} symmetries do not span '
                  'the space of operators which have them', what, i + 1)
        if opt[0] == 'cumulative':
            check(all(abs(o.norm() - 1) < 1e-8 for o in outs[i]), '{}: operators not normalized', what)
            if k < 2 and opt[1] and opt[2]:
                check(ref.close(V.conj().T @ V, np.eye(V.shape[1]), 1e-6), '{}: operators {} were not orthogonalized', what, i)
            if i == 0 and k < 2 and opt[1]:
                check(staircase([len(o.coeffs) for o in outs[i]], len(b)), '{}: operators not sparsified: {} terms', what, [len(o.coeffs) for o in outs[i]])
            records(psup[i], pvals[i], pvecs[i], nprev, N.shape[1], (k >= 2 or i > 0) and seq[i] in TRANS,
                    '%s, symmetry %d' % (what, i + 1))
            nprev = N.shape[1]
        else:
            check(k >= 2 or ref.close(np.linalg.norm(V, axis=0), np.ones(V.shape[1]), 1e-7) , '{}: vectors not normalized', what)
            if k < 2 and opt[2] and i < len(seq) - 1:
                check(ref.close(V.conj().T @ V, np.eye(V.shape[1]), 1e-6), '{}: vectors {} were not orthogonalized', what, i)
                # the vectors begin with those which have the next symmetry as well
                N2 = solution(t, k, list(zip(seq[:i + 2], modes[:i + 2])))
                check(not N2.shape[1] or ref.same_span(V[:, :N2.shape[1]], A @ N2), '{}: vectors {} were not orthogonalized against the next ones', what, i)
            if opt[1] and (not opt[2] or i == len(seq) - 1):
                nz = [int(np.sum(np.abs(x) > 1e-9)) for x in np.asarray(outs[i]).T]
                check(staircase(nz, len(b)), '{}: vectors not sparsified: {} nonzero entries', what, nz)
            N1 = solution(t, k, [(seq[i], modes[i])])
            records(sup[i], vals[i], vecs[i], len(b), N1.shape[1], k >= 2 and seq[i] in TRANS, '%s, symmetry %d' % (what, i + 1))
            pv = np.asarray(pvecs[i])[:, np.abs(np.asarray(pvals[i])) < 1e-8]
            check(pv.shape == N.shape and (not N.shape[1] or ref.same_span(pv, N)),
                  '{}: the recorded null vectors of the projected superoperator {} do not span the solutions', what, i + 1)
            V1 = as_vectors(singles[i], A, b, what)
            check(V1.shape[1] == N1.shape[1] and (not N1.shape[1] or ref.same_span(V1, A @ N1)),
                  '{}: the operators generated for symmetry {} alone are wrong', what, i + 1)
        ctx.state((what, i, N.shape[1]))
        ctx.outcome((opt[0], N.shape[1]))


MODE = ('commutator', 'anticommutator')


def sparse(t, k, seq, modes, md, nvs, ctx):
    """generate with limited numbers of eigenvectors"""
    b, M, A = basis(t, k)
    what = '%s basis %d symmetries %s modes %s num_vecs %s' % (t, k, seq, modes, nvs)
    g = qy.SymmetricOperatorGenerator(b)
    for s, m, nv in zip(seq, modes, nvs):
        if nv is None:
            g.add_symmetry(menu(t)[s][0], MODE[m])
        else:
            g.add_symmetry(menu(t)[s][0], MODE[m], num_vecs=nv)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        g.generate(mode=md, verbose=False)
    ctx.step()
    check(len(g.projected_output_operators) == len(seq), '{}: {} results', what, len(g.projected_output_operators))
    enough = True
    for i in range(len(seq)):
        N = solution(t, k, list(zip(seq[:i + 1], modes[:i + 1])))
        # the space of which the eigenvectors were needed
        need = N.shape[1] if md == 'cumulative' else solution(t, k, [(seq[i], modes[i])]).shape[1]
        size = len(b) if md != 'cumulative' or i == 0 else solution(t, k, list(zip(seq[:i], modes[:i]))).shape[1]
        enough = enough and (nvs[i] is None or nvs[i] > need or nvs[i] >= size)
        V = as_vectors(g.projected_output_operators[i], A, b, what)
        if enough:
            check(V.shape[1] == N.shape[1] and (not N.shape[1] or ref.same_span(V, A @ N)), '{}: {} of {} operators found', what, V.shape[1], N.shape[1])
        else:
            check(V.shape[1] <= N.shape[1] and (not V.shape[1] or ref.close(V, (A @ N) @ np.linalg.lstsq(A @ N, V, rcond=None)[0], 1e-4)),
                  '{}: operators {} without the symmetries found', what, i)
    ctx.state((what, md))
    ctx.outcome(('sparse', md, enough))


def run(case, ctx):
    kind, t = case[0], case[1]
    m = menu(t)
    if kind == 'sparse':
        _, t, k, i, tier = case
        n = len(basis(t, k)[0])
        for j in range(-1, 12):
            if j >= 0 and tier == 'quick' and (i + 2 * j + k) % 9:
                continue
            seq = [i] if j < 0 else [i, j]
            for modes in ((0,) * len(seq), (0, 1)[-len(seq):])[:1 + (tier == 'thorough' or j < 0 or k == 2)]:
                for md in ('cumulative', 'noncumulative'):
                    opts = []
                    for q in range(len(seq)):
                        hist = list(zip(seq[:q + 1], modes[:q + 1]))
                        d = solution(t, k, hist if md == 'cumulative' else hist[-1:]).shape[1]
                        size = n if md != 'cumulative' or q == 0 else solution(t, k, hist[:-1]).shape[1]
                        o = [None, d + 2, size - 2 if d < size - 4 else size - 1, size - 1, size, size + 9]
                        opts.append(sorted({x for x in o if x is not None and x > 0}) + [None])
                    for a in opts[0]:
                        for c in opts[-1] if len(seq) == 2 else [None]:
                            if len(seq) == 2 and a is not None and c is not None and (a + c) % 5 and tier == 'quick':
                                continue
                            sparse(t, k, seq, modes, md, [a, c][:len(seq)], ctx)
    elif kind == 'seq':
        _, t, k, seq, how = case
        r = len(seq)
        if how == 'all':
            mm = list(it.product((0, 1), repeat=r))
        else:
            mm = [tuple(0 for _ in seq)] + [tuple(int(i == j) for i in range(r)) for j in range(r)]
        for modes in mm:
            for opt in OPTS:
                if opt[0] == 'cumulative' and not opt[1] and opt[2]:
                    continue
                b = basis(t, k)[0]
                g = qy.SymmetricOperatorGenerator(b)
                for s, md in zip(seq, modes):
                    if md == 0 and s % 2 == 0:
                        g.add_symmetry(m[s][0])
                    else:
                        g.add_symmetry(m[s][0], MODE[md])
                g.generate(mode=opt[0], sparsification=opt[1], orthogonalization=opt[2], verbose=False)
                verify(g, t, k, seq, modes, opt, '%s modes=%s options=%s' % (case, modes, opt), ctx)
            if modes == tuple(0 for _ in seq):
                g = qy.SymmetricOperatorGenerator(basis(t, k)[0])
                for s in seq:
                    g.add_symmetry(m[s][0])
                g.generate()
                verify(g, t, k, seq, modes, ('cumulative', True, False), '%s defaults' % (case,), ctx)
    elif kind == 'history':
        # every history of <=3 calls followed by generate in either mode
        _, t, a, c = case
        for k in (0, 2):
            for depth in range(0, 4):
                for h in it.product('ABcn', repeat=depth):
                    for last in 'cn':
                        g = qy.SymmetricOperatorGenerator(basis(t, k)[0])
                        seq, modes = [], []
                        for x in h + (last,):
                            if x == 'A':
                                g.add_symmetry(m[a][0])
                                seq.append(a)
                                modes.append(0)
                            elif x == 'B':
                                g.add_symmetry(m[c][0], 'anticommutator')
                                seq.append(c)
                                modes.append(1)
                            else:
                                md = 'cumulative' if x == 'c' else 'noncumulative'
                                g.generate(mode=md, verbose=False)
                                verify(g, t, k, seq, modes, (md, True, False), '%s basis %d history %s' % (case, k, h + (last,)), ctx)
    else:
        z = menu(t)
        one = basis(t, 0)[0]
        for md in ('cumulative', 'noncumulative'):
            g = qy.SymmetricOperatorGenerator(one)
            for bad in ('Cumulative', None, 'both'):
                try:
                    g.generate(mode=bad, verbose=False)
                    check(False, 'mode {!r} accepted', bad)
                except ValueError:
                    ctx.step()
            for bad in ('X', 3, None):
                g = qy.SymmetricOperatorGenerator(one)
                g.add_symmetry(bad)
                try:
                    g.generate(mode=md, verbose=False)
                    check(False, 'symmetry {!r} accepted', bad)
                except ValueError:
                    ctx.step()
        g = qy.SymmetricOperatorGenerator(qy.Basis())
        g.add_symmetry(z[0][0])
        g.add_symmetry(z[6][0])
        g.generate(verbose=False)
        check(len(g.projected_output_operators) == 2 and all(len(x) == 0 for x in g.projected_output_operators),
              'operators generated from an empty basis')
