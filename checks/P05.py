"""Operators are values in a vector space through every history of arithmetic."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P05'
BOUND = {
    'quick': 'three operators (two sharing one Basis object, one standalone) over 4 strings per alphabet (3 '
             'alphabets); all sequences of length <=2 over 63 operations (+=, -=, +, -, scalar products, negation, '
             'removal of zeros, normalisation; every source/destination combination incl. self), plus all sequences of '
             'length 3 over the 24 in-place/aliasing ones; pairs of operators of 0-130 terms with 5 kinds of overlap and 4 scales of coefficients, 3 operations after each other',
    'thorough': 'all sequences of length <=3 over all operations, length 4 over the in-place ones',
}
CHUNK = 1
ALPH = {
    'P': ('X 1', 'Z 1 Y 10', 'I', 'Z 2'),
    'M': ('A 1 B 2', 'D 1', 'I', 'A 3'),
    'F': ('CDag 2 C 1', '1j CDag 2 C 1', 'CDag 1 C 1', 'CDag 1'),
}
TYPES = {'P': 'Pauli', 'M': 'Majorana', 'F': 'Fermion'}
S = (0, 1, 2)
OPS = []
for i in S:
    for j in S:
        OPS.append(('iadd', i, j))
        OPS.append(('isub', i, j))
NIN = len(OPS)
for i in S:
    OPS.append(('normalize', i))
for i in S:
    OPS.append(('clean', i))
NIN2 = len(OPS)
for (k, i, j) in [(2, 0, 1), (2, 2, 0), (0, 0, 2), (1, 2, 1), (0, 1, 1), (2, 1, 0)]:
    OPS.append(('add', k, i, j))
    OPS.append(('sub', k, i, j))
for k in S:
    for i in S:
        OPS.append(('mul', k, i, -2.0))
        OPS.append(('rmul', k, i, 1j))
for k in S:
    OPS.append(('mul', k, k, 0.0))
for (k, i) in [(0, 0), (2, 1), (1, 2), (0, 2), (2, 2), (1, 0)]:
    OPS.append(('neg', k, i))


def mk(a, s):
    return qy.opstring(ALPH[a][s], TYPES[a])


# model: ordered list of (string, coefficient)
INIT = ([(0, 1.0), (1, -0.5)], [(0, 2.0), (1, 0.0)], [(2, 1j), (1, 0.5), (3, 1e-5)])


def build(a):
    shared = qy.Basis([mk(a, 0), mk(a, 1)])
    o0 = qy.Operator([1.0, -0.5], shared)
    o1 = qy.Operator(np.array([2.0, 0.0]), shared)
    o2 = qy.Operator([1j, 0.5, 1e-5], [mk(a, 2), mk(a, 1), mk(a, 3)])
    return [o0, o1, o2], [list(x) for x in INIT], shared


def madd(x, y, f=1.0):
    d = dict(x)
    order = [s for s, _ in x]
    for s, c in y:
        if s in d:
            d[s] = d[s] + f * c
        else:
            d[s] = f * c
            order.append(s)
    return [(s, d[s]) for s in order]


def mnorm(x):
    return float(np.sqrt(sum(abs(c) ** 2 for _, c in x)))


def step(a, slots, m, op):
    """-> False when the operation is undefined in this state"""
    k = op[0]
    if k in ('iadd', 'isub'):
        new = madd(m[op[1]], m[op[2]], 1.0 if k == 'iadd' else -1.0)
        if k == 'iadd':
            slots[op[1]] += slots[op[2]]
        else:
            slots[op[1]] -= slots[op[2]]
        m[op[1]] = new
    elif k in ('add', 'sub'):
        f = 1.0 if k == 'add' else -1.0
        m[op[1]] = madd(m[op[2]], m[op[3]], f)
        slots[op[1]] = slots[op[2]] + slots[op[3]] if k == 'add' else slots[op[2]] - slots[op[3]]
    elif k == 'mul':
        m[op[1]] = [(s, c * op[3]) for s, c in m[op[2]]]
        slots[op[1]] = slots[op[2]] * op[3]
    elif k == 'rmul':
        m[op[1]] = [(s, c * op[3]) for s, c in m[op[2]]]
        slots[op[1]] = op[3] * slots[op[2]]
    elif k == 'neg':
        m[op[1]] = [(s, -c) for s, c in m[op[2]]]
        slots[op[1]] = -slots[op[2]]
    elif k == 'clean':
        slots[op[1]] = slots[op[1]].remove_zeros()
        kept = [str(x) for _, x in slots[op[1]]]
        # rounding residues (nonzero, below 1e-12) may go or stay
        m[op[1]] = [(s, c) for s, c in m[op[1]] if abs(c) > 1e-12 or (c != 0 and str(mk(a, s)) in kept)]
    elif k == 'normalize':
        n = mnorm(m[op[1]])
        if n < 1e-9:
            return False
        m[op[1]] = [(s, c / n) for s, c in m[op[1]]]
        slots[op[1]].normalize()
    return True


def compare(a, o, want, hist, ctx):
    ctx.step()
    strs = [mk(a, s) for s in range(4)]
    names = {str(x): i for i, x in enumerate(strs)}
    got = [(names[str(s)], c) for c, s in o]
    check(len(set(s for s, _ in got)) == len(got), 'after {}: a string occurs twice: {}', hist, got)
    d = dict(got)
    for s, c in want:
        check(abs(d.get(s, 0.0) - c) < 1e-10, 'after {}: coefficient of {} is {}, expected {}', hist, ALPH[a][s],
              d.get(s, 0.0), c)
    check(set(d) == set(s for s, _ in want), 'after {}: strings {} expected {}', hist, sorted(d), want)
    check(len(o) == len(want) and len(o.coeffs) == len(want), 'after {}: lengths {} {}', hist, len(o), len(o.coeffs))
    check(o.op_type == TYPES[a], 'after {}: type {}', hist, o.op_type)
    n = mnorm(want)
    check(abs(o.norm() - n) < 1e-9, 'after {}: norm {} expected {}', hist, o.norm(), n)
    if want:
        mx = max(abs(c) for _, c in want)
        check(abs(o.norm(order=np.inf) - mx) < 1e-9, 'after {}: inf norm {} expected {}', hist, o.norm(order=np.inf), mx)
    perm = qy.Basis([strs[i] for i in (3, 1, 0, 2)])
    v = np.zeros(4, dtype=complex)
    for s, c in want:
        v[(3, 1, 0, 2).index(s)] += c
    check(ref.close(o.to_vector(perm), v), 'after {}: vector {} expected {}', hist, o.to_vector(perm), v)
    sv = o.to_vector(perm, fmt='csc')
    check(sv.shape == (4, 1) and ref.close(sv.toarray()[:, 0], v), 'after {}: sparse vector wrong', hist)
    fresh = qy.Operator([c for _, c in got], [strs[s] for s, _ in got], TYPES[a])
    check(o == fresh, 'after {}: not equal to a fresh operator with the same terms', hist)
    check((o - fresh).norm() < 1e-10 and (o + (-1.0) * fresh).norm() < 1e-10, 'after {}: o - o is not zero', hist)
    if want:
        off = qy.Operator([c + (0.25 if i == 0 else 0) for i, (_, c) in enumerate(got)], [strs[s] for s, _ in got])
        check(not (o == off), 'after {}: equal to an operator with another coefficient', hist)
        lines = str(o).strip('\n').split('\n')
        check(len(lines) == len(got) and all(str(strs[s]).strip() in l for (s, _), l in zip(got, lines)),
              'after {}: printed form {!r} does not list its terms', hist, str(o))
    cl = o.remove_zeros()
    ck = [names[str(s)] for _, s in cl]
    z = [s for s, c in got if abs(c) > 1e-12 or (c != 0 and s in ck)]
    check(ck == z, 'after {}: remove_zeros keeps {}, expected {}', hist,
          [str(s) for _, s in cl], z)
    ctx.state((a, tuple((s, round(complex(c).real, 6), round(complex(c).imag, 6)) for s, c in want)))


def one(a, seq, ctx):
    slots, m, shared = build(a)
    hist = []
    snaps = []
    for oi in seq:
        op = OPS[oi]
        old = list(slots)
        oldm = [list(x) for x in m]
        hist.append(op)
        if not step(a, slots, m, op):
            ctx.outcome('undefined')
            return
        for x, w in zip(old, oldm):
            if all(x is not s for s in slots):
                snaps.append((x, w))
    for k in S:
        compare(a, slots[k], m[k], hist, ctx)
    for x, w in snaps:
        d = {str(s): c for c, s in x}
        e = {str(mk(a, s)): c for s, c in w}
        check(set(d) == set(e) and all(abs(d[s] - e[s]) < 1e-10 for s in e), 'after {}: an operand changed', hist)
    # the Basis two operators were built from is not affected by arithmetic
    check([str(x) for x in shared] == [str(mk(a, 0)), str(mk(a, 1))], 'after {}: the shared Basis was changed', hist)
    ctx.outcome(tuple(len(x) for x in m))


def cases(tier):
    for a in ALPH:
        yield ['misc', a]
        for n in SIZES:
            yield ['long', a, n]
    for a in ALPH:
        for p in range(len(OPS)):
            yield ['seq', a, [p], 1, len(OPS)]
        for p in it.product(range(NIN2), repeat=1 if tier == 'quick' else 2):
            yield ['seq', a, list(p), 2, NIN2]
    if tier == 'thorough':
        for a in ALPH:
            for p in range(len(OPS)):
                for q in range(len(OPS)):
                    yield ['seq', a, [p, q], 1, len(OPS)]


SIZES = (0, 1, 2, 5, 9, 20, 33, 64, 101, 130)


def terms(fam, o):
    d = {}
    for c, s in o:
        check(s in fam and s not in d, 'string {} twice or foreign', s)
        d[s] = complex(c)
    return d


def long(a, n, ctx):
    """operators of many terms"""
    from checks import P04
    fam, again = P04.family(a), P04.family(a)
    fs = set(fam)
    t = TYPES[a]
    for scale in (1.0, 1e-5, 1e6, 0.5j):
        co = lambda i: scale * (0.5 + (i * i) % 7 - 3) * (1 if i % 3 else 1j)
        for m in SIZES:
            for start in sorted({0, n // 2, max(0, n - 1), n} if scale == 1.0 else {n // 2}):
                if start + m > len(fam):
                    continue
                ia, ib = list(range(n)), list(range(start, start + m))[::-1]
                da = {fam[i]: complex(co(i)) for i in ia}
                # (every other common term cancels in a difference)
                db = {fam[i]: complex(co(i) if i % 2 else 0.25 * co(i + 1)) for i in ib}
                A = lambda: qy.Operator([da[fam[i]] for i in ia], [again[i] for i in ia], t)
                B = lambda: qy.Operator(np.array([db[fam[i]] for i in ib], complex), qy.Basis([fam[i] for i in ib]), t)
                for f, op in ((1, lambda x, y: x + y), (-1, lambda x, y: x - y), (1, iadd), (-1, isub)):
                    x, y = A(), B()
                    z = op(x, y)
                    want = dict(da)
                    for k, v in db.items():
                        want[k] = want.get(k, 0) + f * v
                    ctx.step()
                    what = '{} terms {} {} terms ({} overlap, scale {}): '.format(n, '+' if f > 0 else '-', m, len(set(da) & set(db)), scale)
                    tol = 1e-12 * abs(scale)
                    same(terms(fs, z), want, tol, what)
                    same(terms(fs, y), db, 0, what + 'second operand: ')
                    if op not in (iadd, isub):
                        same(terms(fs, x), da, 0, what + 'first operand: ')
                    check(len(z) == len(want) and z.op_type == t, what + 'length {}', len(z))
                    nz = np.sqrt(sum(abs(v) ** 2 for v in want.values()))
                    check(abs(z.norm() - nz) <= 1e-10 * nz, what + 'norm {}', z.norm())
                    same(terms(fs, 2.0 * z), {k: 2 * v for k, v in want.items()}, 2 * tol, what + 'twice: ')
                    same(terms(fs, -z), {k: -v for k, v in want.items()}, tol, what + 'negative: ')
                    r = terms(fs, z.remove_zeros())
                    same(r, {k: v for k, v in want.items() if k in r}, tol, what + 'without zeros: ')
                    check(all(abs(v) < 1e-12 for k, v in want.items() if k not in r) and all(v != 0 for v in r.values()), what + 'wrong zeros removed')
                    for k, s in list(enumerate(ia + [i for i in ib if i not in ia]))[::7]:
                        check(list(z)[k][1] == again[s], what + 'position of {}', again[s])
                        check(list(z + qy.Operator([1.0], [again[s]]))[k][0] == list(z)[k][0] + 1.0, what + 'adding {}', again[s])
                    z += y
                    z -= B()
                    same(terms(fs, z), want, 3 * tol, what + 'and back: ')
                    if n and nz > 0:
                        z.normalize()
                        same(terms(fs, z), {k: v / nz for k, v in want.items()}, 1e-10, what + 'normalized: ')
                    full = qy.Basis([again[i] for i in range(max(n, start + m))][::-1])
                    v = B().to_vector(full)
                    check(np.allclose(v, [db.get(s, 0) for s in full], rtol=1e-12, atol=0), what + 'vector')
        ctx.state((a, n, scale))


def iadd(x, y):
    x += y
    return x


def isub(x, y):
    x -= y
    return x


def same(got, want, tol, what):
    check(set(got) == set(want), what.replace('{', '{{').replace('}', '}}') + '{} strings, expected {}', len(got), len(want))
    for k, v in want.items():
        check(abs(got[k] - v) <= tol, what.replace('{', '{{').replace('}', '}}') + 'coefficient of {} is {}, expected {}', k, got[k], v)


def run(case, ctx):
    if case[0] == 'long':
        return long(case[1], case[2], ctx)
    if case[0] == 'misc':
        return misc(case[1], ctx)
    _, a, pre, d, n = case
    one(a, pre, ctx)
    if d == 1 and len(pre) == 1 and pre[0] == 0:
        one(a, [], ctx)
    for r in range(1, d + 1):
        for seq in it.product(range(n), repeat=r):
            one(a, list(pre) + list(seq), ctx)


def misc(a, ctx):
    t = TYPES[a]
    zero = qy.Operator(op_type=t)
    compare(a, zero, [], ['zero'], ctx)
    x = qy.Operator([2.0], [mk(a, 0)])
    compare(a, zero + x, [(0, 2.0)], ['zero+x'], ctx)
    compare(a, x + zero, [(0, 2.0)], ['x+zero'], ctx)
    compare(a, zero - x, [(0, -2.0)], ['zero-x'], ctx)
    z = qy.Operator([], [], t)
    z += x
    z += x
    compare(a, z, [(0, 4.0)], ['z+=x'], ctx)
    compare(a, x, [(0, 2.0)], ['x'], ctx)
    try:
        qy.Operator([], [])
        check(False, 'an empty operator without a type was accepted')
    except ValueError:
        pass
    for b in ALPH:
        if b != a:
            y = qy.Operator([1.0], [mk(b, 0)])
            for f in (lambda: x + y, lambda: x - y, lambda: x.__iadd__(y), lambda: x.__isub__(y)):
                try:
                    f()
                    check(False, 'operators of types {} and {} were added', t, TYPES[b])
                except ValueError:
                    pass
            compare(a, x, [(0, 2.0)], ['x after rejected addition'], ctx)
            check(not (x == y), 'operators of different types compare equal')
    # coefficient/list arguments are copied
    c = np.array([1.0, 2.0], dtype=complex)
    l = [mk(a, 0), mk(a, 1)]
    o = qy.Operator(c, l)
    c[0] = 7
    l.append(mk(a, 2))
    o += qy.Operator([1.0], [mk(a, 3)])
    compare(a, o, [(0, 1.0), (1, 2.0), (3, 1.0)], ['copy of arguments'], ctx)
    check(len(l) == 3, 'the list of strings passed in was changed')
    try:
        o.to_vector(qy.Basis([mk(a, 0)]))
        check(False, 'vector in a basis missing a term was returned')
    except KeyError:
        pass
    # removal of zeros honours its tolerance
    o = qy.Operator([1e-3, 1e-7, 0.0, 1.0], [mk(a, i) for i in range(4)])
    for tol, keep in ((1e-16, [0, 1, 3]), (1e-5, [0, 3]), (1e-2, [3]), (2.0, [])):
        r = o.remove_zeros(tol=tol)
        check([str(s) for _, s in r] == [str(mk(a, i)) for i in keep] and r.op_type == t,
              'remove_zeros(tol={}) keeps {}', tol, [str(s) for _, s in r])
    check(len(o) == 4, 'remove_zeros changed its operand')
    for order, want in ((None, np.sqrt(1e-6 + 1e-14 + 1)), (1, 1.0010001), (np.inf, 1.0)):
        check(abs(o.norm(order=order) - want) < 1e-9, 'norm of order {} is {}', order, o.norm(order=order))
        p = qy.Operator([3.0, -4.0], [mk(a, 0), mk(a, 1)])
        p.normalize(order=order)
        check(abs(p.norm(order=order) - 1) < 1e-9 and abs(p.coeffs[1] / p.coeffs[0] + 4 / 3) < 1e-9,
              'normalisation of order {} gives {}', order, p.coeffs)
    ctx.step(20)
