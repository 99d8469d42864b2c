"""Permutation, sorting and comparison helpers."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P26'
BOUND = {
    'quick': 'signs of all permutations of <=7 objects (list, tuple, array) and products of all pairs of <=5; sorting sign of all vectors over {0,1,2,3} '
             'of length <=6, all distinct vectors with negative/float entries of length <=5, both methods; '
             'comparison of all pairs (and triples) of label tuples over {0,1,2} of length <=3; argsort of all lists over 4 values of length '
             '<=5 with 5 comparison functions; duplicate removal of all lists of length <=5 over 4 scalars, arrays, matrices and strings with 3 equivalences; '
             'long permutations (7 to 130 objects): rotations, reversals, riffles, products of k cycles; their sorting signs, also with repeated entries, products and argsorts; label tuples of up to 40 and labels up to 5000',
    'thorough': 'as quick: 8 objects, vectors of length 7, lists of length 6',
}
CHUNK = 4


def cases(tier):
    big = tier == 'thorough'
    for n in range(0, 9 if big else 8):
        yield ['sign', n]
    for n in range(0, 6):
        for p in it.permutations(range(n)) if n < 5 else list(it.permutations(range(5)))[::4 if not big else 1]:
            yield ['compose', list(p)]
    for n in range(0, 8 if big else 7):
        for first in range(4 if n else 1):
            yield ['sort', n, first]
    for n in range(0, 6):
        yield ['sortf', n]
    T = [t for m in range(4) for t in it.product(range(3), repeat=m)]
    for i in range(len(T)):
        yield ['compare', i]
    for n in range(0, 7 if big else 6):
        yield ['argsort', n]
        yield ['dup', n]
    for n in (7, 8, 9, 12, 16, 17, 31, 33, 64, 100, 130):
        yield ['long', n]
    yield ['errors']


def longs(n):
    r = list(range(n))
    out = [r[k:] + r[:k] for k in sorted({0, 1, 2, 3, n // 2, n - 1})]
    out += [r[::-1]] + [[x for s in range(k) for x in r[s::k]] for k in (2, 3, 4, 5)]
    out += [[(x * m) % n for x in r] for m in (2, 3, 5, 7, 11) if np.gcd(m, n) == 1]
    out += [r[:i] + r[i:i + m][::-1] + r[i + m:] for i in (0, n // 3, n - 3) for m in (2, 3)]
    return out


def inv_sign(v):
    return (-1) ** sum(1 for i in range(len(v)) for j in range(i) if v[j] > v[i])


def run(case, ctx):
    kind = case[0]
    if kind == 'sign':
        n = case[1]
        for p in it.permutations(range(n)):
            e = inv_sign(p)
            for form in ((p, np.array(p, dtype=int)) if n > 5 else (p, list(p), np.array(p, dtype=int))):
                ctx.step()
                check(qy.sign(form) == e, 'sign of {} is {}, expected {}', p, qy.sign(form), e)
            ctx.state(p)
            ctx.outcome(e)
    elif kind == 'compose':
        p = case[1]
        for q in it.permutations(range(len(p))):
            r = qy.compose_permutations(p, list(q) if len(p) % 2 else np.array(q, dtype=int))
            ctx.step()
            check(list(r) == [p[q[i]] for i in range(len(p))], 'composition of {} and {} is {}', p, q, list(r))
            check(qy.sign(r) == inv_sign(p) * inv_sign(q), 'sign of the composition of {} and {}', p, q)
            ctx.state((tuple(p), q))
    elif kind == 'long':
        n = case[1]
        L = longs(n)
        for i, p in enumerate(L):
            e = inv_sign(p)
            for form in (p, np.array(p), tuple(p)):
                ctx.step()
                check(qy.sign(form) == e, 'sign of {} is {}, expected {}', p, qy.sign(form), e)
            q = L[(3 * i + 1) % len(L)]
            r = qy.compose_permutations(p, q)
            check(list(r) == [p[x] for x in q] and qy.sign(r) == e * inv_sign(q), 'composition of {} and {}', p, q)
            for v in (p, [x // 2 for x in p], [(x * x) % 11 for x in p], [1000 - 7 * x for x in p], [0.5 * x - 3 for x in p]):
                for kw in ({}, {'method': 'insertionsort'}, {'method': 'mergesort'}):
                    for f in (list(v), np.array(v)):
                        s, g = qy.sort_sign(f, **kw)
                        ctx.step()
                        check(list(s) == sorted(v) and g == inv_sign(v), 'sort_sign{} of {} is {}, {}', kw, v, s, g)
                        check(list(f) == v, 'the argument was modified')
                for c, k in ((None, lambda x: x), (lambda a, b: b - a, lambda x: -x), (lambda a, b: a // 3 - b // 3, lambda x: x // 3)):
                    a = qy.argsort(list(v)) if c is None else qy.argsort(list(v), comp=c)
                    check(list(a) == sorted(range(n), key=lambda x: k(v[x])), 'argsort of {} is {}', v, a)
            for a, b in ((p, q), (p, p[:-1]), (p[:5], q[:5]), ([x + 4000 for x in p], [x + 4000 for x in q]), (p, p[:-1] + [p[-1] + 1])):
                a, b = [int(str(x)) for x in a], [int(str(x)) for x in b]
                w = (1 if (len(a), a) > (len(b), b) else -1) if a != b else 0
                check(qy.compare(a, b) == w and qy.compare(np.array(b), tuple(a)) == -w, 'compare({}, {})', a, b)
            u = [(x * x) % 13 for x in p]
            check(list(qy.remove_duplicates(u)) == list(dict.fromkeys(u)), 'duplicates of {}', u)
            for v in (p + p, p + p[::-1], [x % 17 for x in p] * 3, [(x * x) % 29 for x in p] + p):
                check(list(qy.remove_duplicates(v)) == list(dict.fromkeys(v)), 'duplicates of {}', v)
                arrays = [np.array([x, 0.5 * x]) for x in v]
                r = qy.remove_duplicates(arrays)
                ctx.step(2)
                check([int(a[0]) for a in r] == list(dict.fromkeys(v)), 'duplicates of the arrays of {}', v)
            ctx.state((n, i))
    elif kind in ('sort', 'sortf'):
        n = case[1]
        if kind == 'sort':
            gen = ((case[2],) + v for v in it.product(range(4), repeat=n - 1)) if n else [()]
        else:
            gen = it.permutations((-1.5, 0.0, 1e-3, 2.0, 1000.0, -7.25), n)
        for v in gen:
            e = inv_sign(v)
            forms = [list(v), np.array(v)] if n else [[]]
            for f in forms:
                for kw in ({}, {'method': 'insertionsort'}, {'method': 'mergesort'}):
                    s, g = qy.sort_sign(f, **kw)
                    ctx.step()
                    check(list(s) == sorted(v) and g == e, 'sort_sign{} of {} is {}, {}; expected sign {}', kw, v, s, g, e)
                check(list(f) == list(v), 'the argument was modified')
            ctx.outcome(e)
            ctx.state(v)
    elif kind == 'compare':
        T = [t for m in range(4) for t in it.product(range(3), repeat=m)]
        a = T[case[1]]
        for i, b in enumerate(T):
            e = (len(a), a) > (len(b), b)
            e = 1 if e else (0 if a == b else -1)
            for x, y in ((a, b), (list(a), np.array(b, dtype=int))):
                ctx.step()
                check(qy.compare(x, y) == e, 'compare({}, {}) = {}, expected {}', a, b, qy.compare(x, y), e)
            ctx.outcome(e)
        ctx.state(a)
    elif kind == 'argsort':
        n = case[1]
        comps = [(None, lambda x: x), (lambda a, b: a - b, lambda x: x), (lambda a, b: b - a, lambda x: -x),
                 (lambda a, b: abs(a - 2) - abs(b - 2), lambda x: abs(x - 2)), (lambda a, b: 0, lambda x: 0)]
        vals = (3, 0, 2, 5)
        for v in it.product(vals, repeat=n):
            for c, k in comps:
                r = qy.argsort(list(v)) if c is None else qy.argsort(list(v), comp=c)
                ctx.step()
                check(sorted(r) == list(range(n)) and all(k(v[r[i]]) <= k(v[r[i + 1]]) for i in range(n - 1)), 'argsort of {} is {}', v, r)
                check(list(r) == sorted(range(n), key=lambda i: k(v[i])), 'argsort of {} is not stable: {}', v, r)
            ctx.state(v)
            ctx.outcome(len(set(v)))
        for v in it.product(('b', 'a', 'ab'), repeat=min(n, 3)):
            r = qy.argsort(list(v), comp=lambda a, b: len(a) - len(b))
            check([len(v[i]) for i in r] == sorted(map(len, v)), 'argsort of {} is {}', v, r)
    elif kind == 'dup':
        n = case[1]
        pools = [([0, 1.0, -2.0, 1000.0], {}, lambda a, b: a == b),
                 ([np.array([0.0, 1.0]), np.array([1.0, 0.0]), np.array([0.0, 1.0 + 1e-14]), np.array([0.5, 1j])], {}, lambda a, b: bool(np.max(np.abs(a - b)) < 1e-9)),
                 ([np.eye(2), -np.eye(2), np.array([[0, 1.0], [1.0, 0]]), np.array([[1.0, 0], [0, 1.0 + 1e-3]])], {}, lambda a, b: bool(np.max(np.abs(a - b)) < 1e-9)),
                 (['a', 'A', 'b', 'aa'], {'equiv': lambda a, b: a.lower() == b.lower()}, lambda a, b: a.lower() == b.lower()),
                 ([(0, 1), (1, 0), (2, 2), (0, 3)], {'equiv': lambda a, b: sum(a) == sum(b)}, lambda a, b: sum(a) == sum(b)),
                 ([np.array([0.0]), np.array([0.05]), np.array([1.0]), np.array([0.5])], {'tol': 0.1}, lambda a, b: abs(a[0] - b[0]) < 0.1)]
        for pool, kw, eq in pools:
            for idx in it.product(range(4), repeat=n):
                v = [pool[i] for i in idx]
                r = qy.remove_duplicates(v, **kw)
                e = []
                for x in v:
                    if not any(eq(x, y) for y in e):
                        e.append(x)
                ctx.step()
                check(len(r) == len(e) and all(x is y for x, y in zip(r, e)), 'remove_duplicates of {} is {}', v, r)
                check(len(v) == n, 'the list was modified')
                ctx.outcome(len(r))
        ctx.state(n)
    else:
        try:
            qy.sort_sign([1, 0], method='quicksort')
            check(False, 'unknown sorting method accepted')
        except ValueError:
            ctx.step()
