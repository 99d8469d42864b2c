"""Products, commutators and anticommutators of operators are those of the matrices."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P02'
BOUND = {
    'quick': 'Pauli and Majorana: all ordered pairs of operators c1*S1 + c2*S2 with S1,S2 from all 16 strings on two '
             'orbitals (identity included) and relative coefficient in {1,-1} (256^2 pairs per type); pairs of all '
             '2-term operators with 40 structured many-term operators on 4 orbitals incl. labels 10, 11, all pairs of these also with coefficients of 1e-9 to 1e6; nested '
             'commutators (Jacobi, Leibniz) over triples of a 24-operator menu',
    'thorough': 'as quick, plus the same with relative coefficients {1,-1,2i} on three orbitals (labels 1,2,12) and weight<=2 strings',
}
CHUNK = 2
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
MODES = {'product': (qy.product, lambda a, b: a @ b), 'commutator': (qy.commutator, lambda a, b: a @ b - b @ a),
         'anticommutator': (qy.anticommutator, lambda a, b: a @ b + b @ a)}
_fam = {}


def mk(t, s):
    return qy.OperatorString(list(s[0]), list(s[1]), t)


def fam(t, labels, w, cs):
    k = (t, tuple(labels), w, tuple(cs))
    if k not in _fam:
        ss = ref.strings(ALPH[t], labels, 0, w)
        fs = [[(1.0, s)] for s in ss]
        for a, b in it.combinations(ss, 2):
            for c in cs:
                fs.append([(1.0, a), (c, b)])
        _fam[k] = [build(t, f, tuple(labels)) for f in fs]
    return _fam[k]


def build(t, terms, orbs):
    op = qy.Operator([c for c, _ in terms], [mk(t, s) for _, s in terms], t)
    m = ref.combo([c for c, _ in terms], [ref.string_matrix(t, s[0], s[1], 1, orbs) for _, s in terms], len(orbs))
    return op, m


_menu = {}


def menu(t):
    """Structured many-term operators on orbitals 0,2,10,11."""
    if t in _menu:
        return _menu[t]
    orbs = (0, 2, 10, 11)
    P = ALPH[t]
    out = [[]]
    for p in P:
        out.append([(1.0, ((p,), (l,))) for l in orbs])
        out.append([((-1.0) ** i, ((p,), (l,))) for i, l in enumerate(orbs)])
    for p in P:
        for q in P:
            out.append([(1.0, ((p, q), ls)) for ls in zip(orbs, orbs[1:])])
    bonds = list(it.combinations(orbs, 2))
    out.append([(0.25, ((p, p), b)) for b in bonds for p in P])
    out.append([(0.25 * (i + 1), ((p, p), b)) for i, b in enumerate(bonds) for p in P])
    out.append([(1.0, ((P[0], P[1]), b)) for b in bonds] + [(-1.0, ((P[1], P[0]), b)) for b in bonds])
    out.append([(1.0, ((), ())), (1.0, ((P[2],) * 4, orbs))])
    out.append([(1.0, ((), ())), (-1.0, ((P[2],) * 4, orbs))])
    out.append([(1e-4, ((P[0],), (0,))), (1.0, ((P[1],), (11,))), (0.0, ((P[2],), (2,)))])
    out.append([(1j, ((P[0], P[1], P[0]), (0, 2, 11))), (3.0, ((P[1], P[1], P[2]), (2, 10, 11)))])
    out.append([(1.0, s) for s in ref.strings(P, orbs, 3, 3)[:27]])
    out.append([(complex(i + 1, -i), s) for i, s in enumerate(ref.strings(P, (0, 10), 0, 2))])
    _menu[t] = [build(t, f, orbs) for f in out]
    return _menu[t]


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        n = len(menu(t))
        for i in range(n):
            yield ['menu', t, i]
            yield ['scale', t, i]
        for i in range(n):
            yield ['menu2', t, i]
        for i in range(n):
            yield ['jacobi', t, i]
        for i in range(256):
            yield ['pair', t, [0, 1], 2, 0, i]
    yield ['mixed']
    if tier == 'thorough':
        for t in ('Pauli', 'Majorana'):
            for i in range(len(ref.strings('XYZ', (0, 1, 2), 0, 2)) ** 2 * 3 // 2):
                yield ['pair', t, [1, 2, 12], 2, 1, i]


def snapshot(o):
    return [(complex(c), str(s)) for c, s in o]


def pair(t, A, B, orbs, ctx):
    oa, ma = A
    ob, mb = B
    sa, sb = snapshot(oa), snapshot(ob)
    for mode, (f, g) in MODES.items():
        r = f(oa, ob)
        ctx.step()
        check(isinstance(r, qy.Operator) and r.op_type == t, '{} of operators returned {}', mode, type(r))
        e = g(ma, mb)
        names = [str(s) for _, s in r]
        check(len(set(names)) == len(names), '{}: repeated strings in the result', mode)
        check(ref.close(ref.opmat(r, orbs), e, 1e-9), '{} of\n{}and\n{}gave\n{}which is not the matrix result',
              mode, oa, ob, r)
        ctx.outcome((mode[0], len(r)))
        ctx.state((t, tuple(sorted((n, round(complex(c).real, 6), round(complex(c).imag, 6))
                                   for n, (c, _) in zip(names, r)))))
    check(snapshot(oa) == sa and snapshot(ob) == sb, 'an operand was modified')
    return


def run(case, ctx):
    k = case[0]
    if k == 'mixed':
        a = qy.Operator([1.0], [qy.opstring('X 1')])
        b = qy.Operator([1.0], [qy.opstring('A 1')])
        for f in (qy.product, qy.commutator, qy.anticommutator):
            for x, y in ((a, b), (b, a), (qy.Operator(op_type='Pauli'), b)):
                try:
                    f(x, y)
                    check(False, 'operators of different types were combined')
                except ValueError:
                    ctx.step()
        return
    t = case[1]
    if k == 'pair':
        orbs = tuple(case[2])
        f = fam(t, case[2], case[3], (1.0, -1.0, 2j) if case[4] else (1.0, -1.0))
        if case[5] >= len(f):
            return
        for B in f:
            pair(t, f[case[5]], B, orbs, ctx)
        return
    orbs = (0, 2, 10, 11)
    m = menu(t)
    A = m[case[2]]
    if k == 'scale':
        # small and large coefficients: nothing above 1e-16 may be lost
        for B in m:
            for a, b in ((1e-6, 1e-6), (1e-7, 1.0), (1e6, 1e-6), (1e-9, 1e-4)):
                oa = qy.Operator([a * c for c, _ in A[0]], [s for _, s in A[0]], t)
                ob = qy.Operator([b * c for c, _ in B[0]], [s for _, s in B[0]], t)
                for mode, (f, g) in MODES.items():
                    r = ref.opmat(f(oa, ob), orbs)
                    e = g(A[1], B[1]) * (a * b)
                    ctx.step()
                    check(np.max(np.abs(r - e)) <= 1e-9 * np.max(np.abs(e)) + 1e-16 * len(oa) * len(ob)
                          + 1e-13 * sum(abs(c) for c, _ in oa) * sum(abs(c) for c, _ in ob),
                          '{} of {} times\n{}and {} times\n{}is not the matrix result', mode, a, A[0], b, B[0])
                ctx.state((t, case[2], snapshot(ob)[:1], a, b))
    elif k == 'menu':
        for B in m:
            pair(t, A, B, orbs, ctx)
    elif k == 'menu2':
        key = (t, 'two')
        if key not in _fam:
            ss = ref.strings(ALPH[t], orbs, 1, 2)
            _fam[key] = [build(t, [(1.0, s)], orbs) for s in ss]
        for B in _fam[key]:
            pair(t, A, B, orbs, ctx)
            pair(t, B, A, orbs, ctx)
    elif k == 'jacobi':
        com = qy.commutator
        sub = [m[i] for i in range(1, len(m), 2)]
        for B in sub:
            for C in sub:
                a, b, c = A[0], B[0], C[0]
                j = com(a, com(b, c)) + com(b, com(c, a)) + com(c, com(a, b))
                check(j.norm() < 1e-8, 'the Jacobi identity fails')
                l = com(a, qy.product(b, c)) - qy.product(com(a, b), c) - qy.product(b, com(a, c))
                check(l.norm() < 1e-8, 'the Leibniz rule fails')
                ctx.step(2)
