"""Conversion between spins, Majoranas and fermions preserves the operator."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, weyl
from mc.harness import check

ID = 'P08'
BOUND = {
    'quick': 'every Pauli and Majorana string on labels {0..3} and on {0,2,4},{1,3},{5} (Majorana/fermion also {9,10,100},{8,31}); every fermion string with '
             'sorted creation and annihilation labels on {0,1,2,3}, {0,2,4}, {5} and every order of the ladder '
             'operators for <=3 of them; all 6 target types incl. itself, with and without identity; all round trips; '
             'all 2-term operators on 2 orbitals; conversion matrices of all full bases on <=3 orbitals (4 label sets); '
             'long strings: all full-weight strings on 5, every 4th on 6, every 23rd on 7 and every 181st on 8 orbitals, also with gaps and labels up to 130; every fermion string '
             'on 5 and every 7th on 6 orbitals (every 40th on 7), compared exactly as Majorana polynomials',
    'thorough': 'as quick on 5 labels, conversion matrices on 4 orbitals',
}
CHUNK = 2
TYPES = ('Pauli', 'Majorana', 'Fermion')
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}


def fermions(labels, unsorted=False):
    out = []
    labels = tuple(labels)
    for nd in range(0, len(labels) + 1):
        for nc in range(0, len(labels) + 1):
            if nd + nc == 0:
                continue
            for cd in it.combinations(labels, nd):
                for c in it.combinations(labels, nc):
                    cds = list(it.permutations(cd)) if unsorted and nd + nc <= 3 else [cd]
                    cs = list(it.permutations(c)) if unsorted and nd + nc <= 3 else [c]
                    for x in cds:
                        for y in cs:
                            for ph in (1.0, 1j):
                                if ph == 1j and cd == c:
                                    continue
                                if cd == c and (x != cd or y != c):
                                    continue
                                out.append((('CDag',) * nd + ('C',) * nc, x + y[::-1], ph))
    return out


def fam(t, labels, uns=False):
    if t == 'Fermion':
        return [((), (), 1.0)] + fermions(labels, uns)
    return [(o, l, 1.0) for o, l in ref.strings(ALPH[t], labels)]


_c = {}


def famc(t, labels, uns):
    k = (t, tuple(labels), uns)
    if k not in _c:
        _c[k] = fam(t, labels, uns)
    return _c[k]


def cases(tier):
    sets = [[0, 1, 2], [0, 2, 4], [1, 3], [5], [0, 1, 2, 3], [9, 10, 100], [8, 31]]
    if tier == 'thorough':
        sets += [[0, 1, 2, 3, 4], [0, 3, 6]]
    for labels in sets:
        for t in TYPES if max(labels) < 8 else TYPES[1:]:
            uns = t == 'Fermion' and len(labels) <= 4
            n = len(fam(t, labels, uns))
            for i in range(n):
                yield ['string', t, labels, uns, i]
    for t in TYPES:
        n = len(fam(t, [0, 1]))
        for i in range(n):
            yield ['op2', t, [0, 1], i]
            yield ['op2', t, [1, 3], i]
    for ls in ([0], [2], [0, 1], [1, 2], [1, 4], [0, 1, 2], [0, 2, 3], [1, 2, 4]) + (([0, 1, 2, 3],) if tier == 'thorough' else ()):
        for a, b in it.permutations(TYPES, 2):
            if 'Pauli' in (a, b) and ls != list(range(len(ls))):
                continue
            for ident in (0, 1):
                yield ['matrix', a, b, ls, ident]
    for ls in ([0, 1], [1, 2], [0, 1, 2]):
        for k in range(1, len(ls) + 1):
            yield ['submatrix', ls, k]
    for t, labels, step in LONG:
        if tier == 'thorough':
            step = -(-step // 5)
        n = len(longfam(t, tuple(labels)))
        for lo in range(0, n, 40 * step):
            yield ['long', t, labels, lo, min(n, lo + 40 * step), step]
    yield ['errors']


LONG = [[t, ls, step] for t in ('Pauli', 'Majorana') for ls, step in (([0, 1, 2, 3, 4], 1), ([0, 2, 3, 6, 7], 4), ([0, 1, 2, 3, 4, 5], 4), ([0, 1, 2, 3, 4, 5, 6], 23),
                                                                      ([0, 1, 2, 3, 4, 5, 6, 7], 181))]
LONG += [['Majorana', [2, 9, 10, 64, 130], 3], ['Majorana', [8, 9, 10, 11, 31, 32], 11], ['Pauli', [0, 9, 10, 64, 130], 3], ['Pauli', [8, 31, 32, 63, 99, 100], 11]]
LONG += [['Fermion', [0, 1, 2, 3, 4], 1], ['Fermion', [1, 2, 9, 10, 11], 3], ['Fermion', [0, 1, 2, 3, 4, 5], 7], ['Fermion', [3, 31, 32, 63, 64, 100], 31],
         ['Fermion', [0, 1, 2, 3, 4, 5, 6], 40]]
_l = {}


def longfam(t, labels):
    if (t, labels) not in _l:
        _l[(t, labels)] = fermions(labels) if t == 'Fermion' else [(o, l, 1.0) for o, l in ref.strings(ALPH[t], labels, len(labels), len(labels))]
    return _l[(t, labels)]


def poly_same(d, e, ident):
    return all(abs(d.get(m, 0) - e.get(m, 0)) <= 1e-9 for m in set(d) | set(e) if ident or m)


def run_long(case, ctx):
    _, t, labels, lo, hi, step = case
    for i in range(lo, hi, step):
        s = longfam(t, tuple(labels))[i]
        os = mk(t, s)
        before = ref.key(os)
        m = weyl.modes(t, s[0], s[1], s[2])
        for target in TYPES:
            if target == 'Fermion' and t == 'Pauli' and max(labels) > 7:
                continue  # exponentially many terms
            if target == 'Pauli' and t == 'Fermion' and max(labels) > 40:
                continue
            idents = (True, False) if i % 3 == 0 else (True,)
            for ident in idents:
                op = qy.convert(os, target, include_identity=ident)
                what = 'convert(%s, %s, include_identity=%s)' % (os, target, ident)
                ctx.step()
                check(isinstance(op, qy.Operator) and op.op_type == target, '{}: result has type {}', what, op.op_type)
                names = [str(x) for _, x in op]
                check(len(set(names)) == len(names), '{}: repeated strings', what)
                check(poly_same(weyl.opmodes(op), m, ident), '{} gave\n{}which is a different operator', what, op)
                if ident and i % 2 and len(op) <= 40:
                    back = qy.convert(op, t, include_identity=True)
                    ctx.step()
                    check(poly_same(weyl.opmodes(back), m, True), 'round trip {} -> {} gave\n{}', os, target, back)
                ctx.outcome((t, target, len(op) > 1))
        check(ref.key(os) == before, 'convert changed its argument')
        ctx.state(before)


def mk(t, s):
    if t == 'Fermion' and s[0]:
        return qy.OperatorString(list(s[0]), list(s[1]), t, s[2])
    return qy.OperatorString(list(s[0]), list(s[1]), t)


def off_identity(d):
    """distance of a matrix from the multiples of the identity"""
    n = d.shape[0]
    return np.max(np.abs(d - np.trace(d) / n * np.eye(n)))


def verify(op, target, m, orbs, ident, what, ctx):
    ctx.step()
    check(isinstance(op, qy.Operator) and op.op_type == target, '{}: result has type {}', what, op.op_type)
    got = ref.opmat(op, orbs)
    names = [str(s) for _, s in op]
    check(len(set(names)) == len(names), '{}: repeated strings', what)
    for _, s in op:
        if target != 'Fermion':
            l = [int(x) for x in s.orbital_labels]
            check(l == sorted(set(l)), '{}: labels out of order in {}', what, str(s))
    if ident:
        check(ref.close(got, m), '{} gave\n{}which is a different operator', what, op)
    else:
        check(off_identity(got - m) < 1e-9, '{} gave\n{}which differs by more than the identity', what, op)


def run(case, ctx):
    k = case[0]
    if k == 'long':
        return run_long(case, ctx)
    if k == 'string':
        _, t, labels, uns, i = case
        s = famc(t, labels, uns)[i]
        # Majorana <-> fermion conversion depends only on the order of the labels
        far = max(labels) >= 8
        orbs = tuple(labels) if far else tuple(range(max(labels) + 1))
        os = mk(t, s)
        m = ref.mat(os, orbs)
        before = ref.key(os)
        for target in TYPES[1:] if far else TYPES:
            for ident in (True, False):
                op = qy.convert(os, target, include_identity=ident)
                what = 'convert(%s, %s, include_identity=%s)' % (os, target, ident)
                verify(op, target, m, orbs, ident, what, ctx)
                if not ident and target != t:
                    op2 = qy.convert(os, target)
                    check(off_identity(ref.opmat(op2, orbs) - m) < 1e-9, '{} default wrong', what)
                    if t == 'Fermion' or target == 'Fermion':
                        check(all(len(x.orbital_operators) > 0 or abs(c) < 1e-12 for c, x in op),
                              '{} contains the identity', what)
                ctx.state((target, tuple(sorted((str(x), round(complex(c).real, 6), round(complex(c).imag, 6))
                                                for c, x in op))))
            mid = qy.convert(os, target, include_identity=True)
            back = qy.convert(mid, t, include_identity=True)
            verify(back, t, m, orbs, True, 'round trip %s -> %s' % (os, target), ctx)
            for third in TYPES[1:] if far else TYPES:
                if third != target and third != t:
                    z = qy.convert(mid, third, include_identity=True)
                    verify(z, third, m, orbs, True, '%s -> %s -> %s' % (os, target, third), ctx)
            # real operators stay real (Hermitian strings with real coefficients)
            check(all(abs(complex(c).imag) < 1e-12 for c, _ in mid), 'conversion of {} to {} is not Hermitian: {}',
                  str(os), target, mid)
        check(ref.key(os) == before, 'convert modified its argument')
        ctx.outcome((t, len(s[0])))
    elif k == 'op2':
        _, t, labels, i = case
        orbs = tuple(range(max(labels) + 1))
        f = fam(t, labels)
        for j, s2 in enumerate(f):
            if j == i:
                continue
            for c in (1.0, -1.0, 0.5j):
                a, b = mk(t, f[i]), mk(t, s2)
                if a == b:
                    continue
                op = qy.Operator([1.0, c], [a, b])
                m = ref.opmat(op, orbs)
                for target in TYPES:
                    for ident in (True, False):
                        r = qy.convert(op, target, include_identity=ident)
                        verify(r, target, m, orbs, ident, 'convert(\n%sto %s, %s)' % (op, target, ident), ctx)
                check(ref.close(ref.opmat(op, orbs), m), 'convert modified its argument')
        for target in TYPES:
            z = qy.convert(qy.Operator(op_type=t), target)
            check(z.op_type == target and z.norm() == 0, 'zero operator converts wrongly')
    elif k == 'matrix':
        _, a, b, ls, ident = case
        orbs = tuple(ls) if 'Pauli' not in (a, b) else tuple(range(max(ls) + 1))
        ba = qy.cluster_basis(len(ls), list(ls), a, include_identity=bool(ident))
        bb = qy.cluster_basis(len(ls), list(ls), b, include_identity=bool(ident))
        B = qy.conversion_matrix(ba, bb)
        C = qy.conversion_matrix(bb, ba)
        check(B.shape == (len(bb), len(ba)) and C.shape == (len(ba), len(bb)), '{}: shapes {} {}', case, B.shape, C.shape)
        Bd, Cd = B.toarray(), C.toarray()
        check(ref.close(Bd @ Cd, np.eye(len(bb))), '{}: the two conversion matrices are not inverse', case)
        for i, s in enumerate(ba):
            m = sum((Bd[j, i] * ref.mat(x, orbs) for j, x in enumerate(bb)), np.zeros((2 ** len(orbs),) * 2, dtype=complex))
            e = ref.mat(s, orbs)
            ctx.step()
            if ident:
                check(ref.close(m, e), '{}: column of {} is wrong', case, str(s))
            else:
                check(off_identity(m - e) < 1e-9, '{}: column of {} is wrong', case, str(s))
            # agrees with converting and vectorising
            v = qy.convert(s, b, include_identity=bool(ident)).to_vector(bb)
            check(ref.close(v, Bd[:, i]), '{}: column of {} differs from its conversion', case, str(s))
        # coefficients transform
        g = np.array([(1 + j % 5) * (-1) ** j for j in range(len(ba))], dtype=complex)
        op = qy.Operator(g, ba)
        v = qy.convert(op, b, include_identity=bool(ident)).to_vector(bb)
        check(ref.close(v, Bd @ g), '{}: coefficients do not transform with the matrix', case)
        # permuted bases permute the matrix
        pa = qy.Basis([ba[i] for i in range(len(ba) - 1, -1, -1)])
        pb = qy.Basis([bb[(3 * i + 1) % len(bb)] for i in range(len(bb))]) if len(bb) % 3 else bb
        P = qy.conversion_matrix(pa, pb).toarray()
        want = np.array([[Bd[bb.index(y), ba.index(x)] for x in pa] for y in pb])
        check(ref.close(P, want), '{}: matrix depends on the order of the bases', case)
        ctx.state(str(case))
        ctx.outcome((a, b, len(ba)))
    elif k == 'submatrix':
        _, ls, kk = case
        full = qy.cluster_basis(len(ls), list(ls), 'Majorana')
        sub = qy.cluster_basis(kk, list(ls), 'Fermion')
        B = qy.conversion_matrix(sub, full).toarray()
        for i, s in enumerate(sub):
            m = sum((B[j, i] * ref.mat(x, tuple(ls)) for j, x in enumerate(full)), np.zeros((2 ** len(ls),) * 2, dtype=complex))
            ctx.step()
            check(off_identity(m - ref.mat(s, tuple(ls))) < 1e-9, '{}: column of {} is wrong', case, str(s))
    else:
        for bad in ('X 1', 3, None):
            try:
                qy.convert(bad, 'Pauli')
                check(False, 'convert accepted {!r}', bad)
            except TypeError:
                ctx.step()
        try:
            qy.convert(qy.opstring('X 1'), 'Boson')
            check(False, 'conversion to an unknown type accepted')
        except NotImplementedError:
            ctx.step()
