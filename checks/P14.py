"""Transformations act on operators as the (anti)unitary maps they are named after."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, reftrans, usertrans, weyl
from mc.harness import check
from checks import latmodel

ID = 'P14'
BOUND = {
    'quick': 'every Pauli and Majorana string on <=4 orbitals under every permutation of 1..4 orbitals (tuple, list, '
             'array), time reversal, particle-hole; every Majorana string on 4 orbitals (2 sites with spin, 4 orders of the orbitals) and '
             'every weight<=3 string on 6 orbitals under spin flip, spin parity and spinful time reversal with three '
             'naming conventions; products S1*S2 of all string pairs on two and three (weight<=2) orbitals map to products; '
             'all two-term operators on two orbitals; two-generator structure of each transformation; '
             'every Majorana and Pauli string on 7 orbitals under time reversal, particle-hole and 5 permutations, and on up to 7 (every third on 8, every 31st on 10) '
             'spin-orbitals, also with spinless ones, under the spin symmetries, compared exactly',
    'thorough': 'as quick, strings and permutations of 5 orbitals and all strings on 6 spin-orbitals',
}
CHUNK = 4
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
SPIN = ['spin1', 'spin2', 'spin3', 'spin4', 'spin5', 'spin6', 'spin7', 'spin8', 'spin9']


def spin_lattice(name):
    """-> lattice, up/down names, indices of the up and of the down orbitals (paired)"""
    cfg = {'spin1': (2, ['Up', 'Dn'], None), 'spin2': (2, ['Dn', 'Up'], None), 'spin3': (2, ['a_Up', 'a_Dn'], None),
           'spin4': (1, ['p_u', 'q_d', 'p_d', 'q_u'], ('u', 'd')), 'spin5': (3, ['Up', 'Dn'], ('Up', 'Dn')),
           'spin6': (1, ['Up', 'Dn'], None), 'spin7': (1, ['Up', 'Dn', 'f'], None), 'spin8': (2, ['f', 'Dn', 'Up'], None),
           'spin9': (2, ['p+', 'g', 'p-'], ('+', '-')), 'spin10': (4, ['Up', 'Dn'], None),
           'spin11': (2, ['s_Up', 's_Dn', 'f', 'p_Dn', 'p_Up'], None)}[name]
    n, orbs, names = cfg
    uc = qy.UnitCell([np.array([1.0])])
    uc.add_atom(np.zeros(1), orbs)
    lat = qy.Lattice(uc, (n,), periodic_boundaries=(False,))
    up_name, dn_name = names or ('Up', 'Dn')
    up, dn = [], []
    for i, (r, o, _) in enumerate(lat):
        if up_name in o:
            up.append(i)
            dn.append(int(lat.index(r, o.replace(up_name, dn_name))))
    return lat, names, up, dn


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
            for p in it.permutations(range(n)):
                yield ['strings', t, n, ['perm', list(p)]]
            yield ['strings', t, n, ['T']]
            if t == 'Majorana':
                yield ['strings', t, n, ['C']]
        for n in (2, 3):
            for p in it.permutations(range(n)):
                yield ['hom', t, n, ['perm', list(p)]]
            yield ['hom', t, n, ['T']]
            if t == 'Majorana':
                yield ['hom', t, n, ['C']]
        for d in (['perm', [1, 0]], ['T']) + ((['C'],) if t == 'Majorana' else ()):
            for i in range(16):
                yield ['linear', t, 2, d, i]
    for s in SPIN:
        for d in ('flip', 'parity', 'Tspin'):
            yield ['spin', s, d]
    # long strings, compared exactly
    for t in ('Pauli', 'Majorana'):
        n = 7 if tier == 'quick' else 8
        ds = [['T'], ['perm', list(range(n))[::-1]], ['perm', list(range(1, n)) + [0]], ['perm', [n - 1] + list(range(n - 1))],
              ['perm', [(3 * i + 1) % n for i in range(n)]], ['perm', [i ^ 1 for i in range(n - n % 2)] + list(range(n - n % 2, n))]]
        for d in ds + ([['C']] if t == 'Majorana' else []):
            for lo in range(8):
                yield ['long', t, n, d, lo]
    for s in SPIN + ['spin10', 'spin11']:
        for d in ('flip', 'parity', 'Tspin'):
            for lo in range(8):
                yield ['longspin', s, d, lo]
    yield ['errors']


def build(d, n, t):
    if d[0] == 'perm':
        return qy.label_permutation(d[1]), reftrans.permutation(d[1], t)
    if d[0] == 'T':
        return qy.time_reversal(), reftrans.time_reversal(n, t)
    if d[0] == 'U':
        return usertrans.make(t, d[1], n)
    return qy.particle_hole(), reftrans.particle_hole(n)


_c = {}


def strs(t, n, w):
    k = (t, n, w)
    if k not in _c:
        fam = ref.strings(ALPH[t], range(n), 0, w)
        _c[k] = ([qy.OperatorString(list(o), list(l), t) for o, l in fam],
                 [ref.string_matrix(t, o, l, 1, tuple(range(n))) for o, l in fam])
    return _c[k]


def image(tr, ac, s, m, orbs, what, ctx):
    k = ref.key(s)
    r = tr.apply(s)
    ctx.step()
    check(isinstance(r, qy.Operator) and r.op_type == s.op_type, '{} of {} is not an operator of the same type', what, str(s))
    check(ref.close(ref.opmat(r, orbs), ac(m)), '{} maps {} to\n{}which is not its image', what, str(s), r)
    check(ref.key(s) == k, '{} modified {}', what, str(s))
    ctx.state((what, k, str(r)))
    ctx.outcome((what[:12], [round(complex(c).real) for c, _ in r]))
    # acting on the operator with that single term
    o = qy.Operator([2.5], [s])
    r2 = tr.apply(o)
    check(ref.close(ref.opmat(r2, orbs), 2.5 * ac(m)), '{} of 2.5 {} is wrong', what, str(s))
    return r


def one_images(t, n, d, up=(), dn=()):
    """Images of the one-orbital operators, from what the transformation is."""
    A, _ = weyl.ALG[t]
    neg = lambda s: ((s[0] + 2) % 4, s[1])
    mate = dict(zip(up, dn))
    mate.update(zip(dn, up))
    if d[0] == 'perm':
        return lambda o, l: weyl.ALG[t][0].one(o, d[1][l])
    if d[0] == 'T' and t == 'Pauli':
        return lambda o, l: neg(A.one(o, l))
    if d[0] == 'T':
        return lambda o, l: neg(A.one(o, l)) if o == 'B' else A.one(o, l)
    if d[0] == 'C':
        return lambda o, l: A.one(o, l) if o == 'A' else neg(A.one(o, l))
    if d[0] == 'flip':
        return lambda o, l: A.one(o, mate.get(l, l))
    if d[0] == 'parity':
        return lambda o, l: neg(A.one(o, l)) if o != 'D' and l in dn else A.one(o, l)

    def tspin(o, l):  # c_up -> c_dn, c_dn -> -c_up, i -> -i
        minus = (o == 'A' and l in dn) or (o == 'B' and l not in dn)
        m = A.one(o, mate.get(l, l))
        return neg(m) if minus else m
    return tspin


def long(t, n, tr, d, lo, ctx, up=(), dn=()):
    one = one_images(t, n, d, up, dn)
    anti = d[0] in ('T', 'Tspin')
    alph = (None,) + ALPH[t]
    top = 4 ** n
    step = 1 if n <= 7 or ctx.tier == 'thorough' else (3 if n <= 8 else 31)
    for code in range(lo, top, 8 * step):
        ops, labels, c = [], [], code
        for l in range(n):
            c, r = divmod(c, 4)
            if r:
                ops.append(alph[r])
                labels.append(l)
        s = qy.OperatorString(ops, labels, t)
        r = tr.apply(s)
        ctx.step()
        want = weyl.term(weyl.image(t, ops, labels, one, anti))
        check(weyl.same(weyl.op(r), want), '{} maps {} to\n{}which is not its image', d, str(s), r)
        ctx.state((t, d[0], len(ops), str(want)[:20]))


def run(case, ctx):
    kind = case[0]
    if kind == 'long':
        _, t, n, d, lo = case
        return long(t, n, build(d, n, t)[0], d, lo, ctx)
    if kind == 'longspin':
        _, s, d, lo = case
        lat, names, up, dn = spin_lattice(s)
        kw = {} if names is None else {'up_name': names[0], 'dn_name': names[1]}
        tr = {'flip': lambda: qy.spin_flip_symmetry(lat, **kw), 'parity': lambda: qy.spin_parity_symmetry(lat, **kw),
              'Tspin': lambda: qy.time_reversal(lat if names is None else (lat,) + tuple(names))}[d]()
        return long('Majorana', len(lat), tr, [d], lo, ctx, up, dn)
    if kind == 'strings':
        _, t, n, d = case
        trs = [build(d, n, t)]
        if d[0] == 'perm':
            trs.append((qy.label_permutation(np.array(d[1])), trs[0][1]))
            trs.append((qy.label_permutation(tuple(d[1])), trs[0][1]))
        else:
            if d[0] == 'C':
                trs.append((qy.charge_conjugation(), trs[0][1]))
            if d[0] == 'T':
                trs.append((qy.time_reversal(None), trs[0][1]))
        S, M = strs(t, n, n)
        for tr, ac in trs:
            for s, m in zip(S, M):
                image(tr, ac, s, m, tuple(range(n)), str(d), ctx)
    elif kind == 'hom':
        _, t, n, d = case
        tr, ac = build(d, n, t)
        S, M = strs(t, n, 2)
        orbs = tuple(range(n))
        img = [tr.apply(s) for s in S]
        anti = d[0] == 'T'
        for i, a in enumerate(S):
            for j, b in enumerate(S):
                c, s = qy.product(a, b)
                lhs = tr.apply(s)
                rhs = qy.product(img[i], img[j])
                ctx.step()
                c = np.conj(c) if anti else c
                check(((complex(c) * lhs) - rhs).norm() < 1e-9, '{}: the image of the product {} {} is not the product of the images',
                      d, str(a), str(b))
    elif kind == 'linear':
        _, t, n, d, i = case
        tr, ac = build(d, n, t)
        S, M = strs(t, n, 2)
        orbs = tuple(range(n))
        for j in range(len(S)):
            if j == i:
                continue
            for ca, cb in ((1.0, 1.0), (1.0, -1.0), (0.5, 2.0), (-1.0, 1e-3)):
                o = qy.Operator([ca, cb], [S[i], S[j]])
                before = [(complex(c), str(s)) for c, s in o]
                r = tr.apply(o)
                ctx.step()
                check(ref.close(ref.opmat(r, orbs), ca * ac(M[i]) + cb * ac(M[j])), '{} is not linear on\n{}', d, o)
                check([(complex(c), str(s)) for c, s in o] == before, '{} modified its argument', d)
                names = [str(s) for _, s in r]
                check(len(set(names)) == len(names), '{}: repeated strings', d)
        z = tr.apply(qy.Operator(op_type=t))
        check(z.norm() == 0 and z.op_type == t, '{} of the zero operator', d)
    elif kind == 'spin':
        _, s, d = case
        lat, names, up, dn = spin_lattice(s)
        n = len(lat)
        orbs = tuple(range(n))
        perm = list(range(n))
        for u, v in zip(up, dn):
            perm[u], perm[v] = v, u
        kw = {} if names is None else {'up_name': names[0], 'dn_name': names[1]}
        types = ('Majorana',)
        if d == 'flip':
            tr = qy.spin_flip_symmetry(lat, **kw)
            ac = reftrans.permutation(perm, 'Majorana')
            types = ('Majorana', 'Pauli')
        elif d == 'parity':
            tr = qy.spin_parity_symmetry(lat, **kw)
            ac = reftrans.spin_parity(dn, n)
        else:
            tr = qy.time_reversal(lat if names is None else (lat, names[0], names[1]))
            ac = reftrans.spinful_time_reversal(up, dn, n)
        for t in types:
            if t == 'Pauli':
                ac = reftrans.permutation(perm, 'Pauli')
            S, M = strs(t, n, n if n <= 4 or ctx.tier == 'thorough' else 3)
            for os, m in zip(S, M):
                image(tr, ac, os, m, orbs, '%s on %s' % (d, s), ctx)
    else:
        f = qy.opstring('CDag 0 C 1')
        p = qy.opstring('X 0 Y 1')
        for tr, x in ((qy.label_permutation([1, 0]), f), (qy.time_reversal(), f), (qy.particle_hole(), f), (qy.particle_hole(), p)):
            try:
                tr.apply(x)
                check(False, 'transformation of {} accepted', str(x))
            except ValueError:
                ctx.step()
        for bad in ('X 0', 3, None):
            try:
                qy.time_reversal().apply(bad)
                check(False, 'transformation of {!r} accepted', bad)
            except TypeError:
                ctx.step()
        try:
            qy.time_reversal('spin')
            check(False, 'bad spin info accepted')
        except ValueError:
            ctx.step()
        uc = qy.UnitCell([np.array([1.0])])
        uc.add_atom(np.zeros(1), ['Up'])
        lat = qy.Lattice(uc, (2,), periodic_boundaries=(False,))
        try:
            qy.spin_flip_symmetry(lat)
            check(False, 'spin flip of a lattice without down orbitals accepted')
        except ValueError:
            ctx.step()
