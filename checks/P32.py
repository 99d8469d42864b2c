"""Invalid and mixed-type operations are refused without side effects."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import Violation, check

ID = 'P32'
BOUND = {
    'quick': 'all ordered pairs of 21 Operators of the three types (zero, identity, one to three terms, complex) x {+, -, +=, -=, product, commutator, anticommutator} and of their '
             'strings; 12 invalid objects x 20 functions; all lists of <=4 of 3 strings (of each type) as a Basis; all histories of <=3 of 12 valid and invalid operations on 9 '
             'Operators and of <=3 of 9 on Bases; all functions from <=4 orbitals (and a missing one) as spin flips and space-group maps of a chain; invalid numbers, '
             'types, modes and names',
    'thorough': 'as quick with histories of length <=4',
}
CHUNK = 1
TYPES = ('Pauli', 'Majorana', 'Fermion')
NAMES = {'Pauli': ['X 1', 'Y 1', 'Z 2', 'X 1 Z 3'], 'Majorana': ['A 1', 'D 1', 'B 2', '1j A 1 B 3'], 'Fermion': ['CDag 1', 'CDag 1 C 1', 'CDag 2', '1j CDag 1 C 3']}
ALGEBRA = ('product', 'commutator', 'anticommutator')


def pool(t):
    s = [qy.opstring(x, t) for x in NAMES[t]]
    I = qy.OperatorString([], [], t)
    return [qy.Operator([], [], t), qy.Operator([2.0], [I]), qy.Operator([1.5], [s[0]]), qy.Operator([1.0, -0.5], [s[0], s[2]]),
            qy.Operator([0.5, 1j], [I, s[1]]), qy.Operator([1.0, 2.0, 0.0], [s[3], s[1], s[0]]), qy.Operator([1e-3], [s[3]])]


def show(x):
    """a complete picture of an object"""
    if isinstance(x, qy.Operator):
        return ('Operator', x.op_type, [complex(c) for c in x.coeffs], [show(s) for _, s in x])
    if isinstance(x, qy.Basis):
        return ('Basis', [show(s) for s in x], [x.index(s) for s in x], len(x))
    if isinstance(x, qy.OperatorString):
        return ('String', x.op_type, complex(x.prefactor), [str(o) for o in x.orbital_operators], [int(l) for l in x.orbital_labels])
    if isinstance(x, (list, tuple)):
        return [type(x).__name__] + [show(y) for y in x]
    if isinstance(x, np.ndarray):
        return ('array', str(x.dtype), x.tolist())
    return repr(x)


def refused(f, exc, args, what):
    """f() must raise one of exc and leave all of args alone."""
    before = [show(a) for a in args]
    try:
        r = f()
    except exc as e:
        name = type(e).__name__
    except Exception as e:
        raise Violation('%s: raised %s: %s' % (what, type(e).__name__, e))
    else:
        raise Violation('%s: accepted, with result %s' % (what, str(r)[:200]))
    check([show(a) for a in args] == before, '{}: refused, but an argument was modified: {} -> {}', what, before, [show(a) for a in args])
    return name


def iadd(x, y):
    x += y
    return x


def isub(x, y):
    x -= y
    return x


SUMS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '+=': iadd, '-=': isub}


def invalid():
    return [3, 2.5, 1j, None, 'X 1', [1], (), {}, np.eye(2), [qy.opstring('X 1'), 3], object(), qy.label_permutation([1, 0])]


HIST = ['+same', '+=same', '+=zero', '-=same', '*2', '*0', 'normalize', 'remove_zeros', '+=other', '-=other', '+=3', 'product other']
BHIST = ['+=s0', '+=s1', '+=b', '+b', '+=3', '+=None', '+=Operator', '+name', '+list']


def cases(tier):
    for t in TYPES:
        for u in TYPES:
            yield ['pairs', t, u]
    for i in range(len(invalid())):
        yield ['invalid', i]
    for t in TYPES:
        for n in range(5):
            yield ['basis', t, n]
    depth = 4 if tier == 'thorough' else 3
    for t in TYPES:
        for i in range(7):
            for first in range(len(HIST)):
                yield ['history', t, i, first, depth]
        for first in range(len(BHIST)):
            yield ['bhistory', t, first, depth]
    for n in range(1, 5):
        yield ['maps', n]
    yield ['names']
    yield ['modes']


def run(case, ctx):
    kind = case[0]
    globals()['run_' + kind](case, ctx)


def run_pairs(case, ctx):
    _, t, u = case
    for a, b in it.product(range(7), repeat=2):
        x, y = pool(t)[a], pool(u)[b]
        what = '({}) {{}} ({})'.format(str(x).replace('\n', ' '), str(y).replace('\n', ' '))
        ctx.state((t, u, a, b))
        if t != u:
            for n, f in SUMS.items():
                ctx.step()
                ctx.outcome(refused(lambda: f(x, y), ValueError, [x, y], what.format(n)))
            for n in ALGEBRA:
                ctx.step()
                ctx.outcome(refused(lambda: getattr(qy, n)(x, y), ValueError, [x, y], what.format(n)))
        elif t == 'Fermion':
            if len(x) and len(y):
                for n in ALGEBRA:
                    ctx.step()
                    ctx.outcome(refused(lambda: getattr(qy, n)(x, y), NotImplementedError, [x, y], what.format(n)))
        # still usable
        z = pool(t)[3]
        d = terms(x + z)
        e = terms(x)
        for k, v in terms(z).items():
            e[k] = e.get(k, 0) + v
        check(clean(d) == clean(e), what.format('then +') + ' {} {}', d, e)
    # strings
    for p, q in it.product(NAMES[t], NAMES[u]):
        x, y = qy.opstring(p, t), qy.opstring(q, u)
        for n in ALGEBRA:
            if t != u or t == 'Fermion':
                ctx.step()
                refused(lambda: getattr(qy, n)(x, y), NotImplementedError if t == 'Fermion' else ValueError, [x, y], '%s(%s, %s)' % (n, p, q))
                # a string and an Operator
            o = pool(u)[3]
            ctx.step(2)
            refused(lambda: getattr(qy, n)(x, o), Exception, [x, o], '%s of a string and an Operator' % n)
            refused(lambda: getattr(qy, n)(o, x), Exception, [x, o], '%s of an Operator and a string' % n)
    if t != u or t == 'Fermion':
        B = qy.Basis([qy.opstring(x, t) for x in NAMES[t]])
        C = qy.Basis([qy.opstring(x, u) for x in NAMES[u]])
        O = pool(u)[3]
        for n, f in (('structure_constants', lambda: qy.structure_constants(B, C)), ('liouvillian_matrix', lambda: qy.liouvillian_matrix(B, O)),
                     ('commutant_matrix', lambda: qy.commutant_matrix(B, O)), ('commuting_operators', lambda: qy.commuting_operators(B, O)),
                     ('generate_lie_algebra', lambda: qy.generate_lie_algebra([pool(t)[3], O, pool(t)[2]]) if t != u else 1 / 0)):
            ctx.step()
            refused(f, Exception, [B, C, O], '%s with %s and %s' % (n, t, u))
    if t != u:
        for p, q in it.product(NAMES[t], NAMES[u]):
            x, B = qy.Operator([1.0], [qy.opstring(p, t)]), qy.Basis([qy.opstring(q, u)])
            ctx.step()
            refused(lambda: x.to_vector(B), Exception, [x, B], 'to_vector(%s) in (%s)' % (p, q))


def terms(o):
    d = {}
    for c, s in o:
        d[ref.key(s)] = d.get(ref.key(s), 0) + complex(c)
    return d


def clean(d):
    return {k: complex(v) for k, v in d.items() if abs(v) > 1e-12}


def run_invalid(case, ctx):
    bad = invalid()[case[1]]
    for t in ('Pauli', 'Majorana'):
        O, s, B = pool(t)[3], qy.opstring(NAMES[t][0], t), qy.Basis([qy.opstring(x, t) for x in NAMES[t]])
        fs = {}
        for n in ALGEBRA:
            f = getattr(qy, n)
            fs[n + ' of an Operator and'] = lambda f=f: f(O, bad)
            fs[n + ' of an Operator, reversed, and'] = lambda f=f: f(bad, O)
            fs[n + ' of a string and'] = lambda f=f: f(s, bad)
            fs[n + ' of a string, reversed, and'] = lambda f=f: f(bad, s)
        for n, f in SUMS.items():
            fs['Operator %s' % n] = lambda f=f: f(O, bad)
        fs['Basis +'] = lambda: B + bad
        fs['Basis +='] = lambda: iadd(B, bad)
        fs['convert'] = lambda: qy.convert(bad, 'Majorana' if t == 'Pauli' else 'Pauli')
        fs['apply'] = lambda: qy.label_permutation([0, 1, 3, 2]).apply(bad)
        fs['commuting_operators in'] = lambda: qy.commuting_operators(bad, O)
        if not isinstance(bad, qy.Transformation):
            fs['invariant_operators under'] = lambda: qy.invariant_operators(B, bad)
            fs['generator with'] = lambda: generate(B, bad)
            if not (isinstance(bad, (list, tuple, dict)) and not len(bad)):
                fs['generate_lie_algebra of'] = lambda: qy.generate_lie_algebra(bad)
        for n, f in fs.items():
            if '+' in n and isinstance(bad, str) and 0:
                continue
            ctx.step()
            ctx.outcome(refused(f, Exception, [O, s, B, bad if not isinstance(bad, (object, qy.Transformation)) else None], '%s %r' % (n, bad)))
    ctx.state(case[1])


def generate(B, sym, mode='commutator'):
    g = qy.SymmetricOperatorGenerator(B)
    g.add_symmetry(sym, operation_mode=mode)
    return g.generate()


def run_basis(case, ctx):
    _, t, n = case
    names = NAMES[t][:3]
    for c in it.product(range(3), repeat=n):
        l = [qy.opstring(names[i], t) for i in c]
        ctx.step()
        ctx.state(c)
        if len(set(c)) < n:
            ctx.outcome(refused(lambda: qy.Basis(l), ValueError, [l], 'Basis %s' % (c,)))
            ctx.outcome(refused(lambda: qy.Operator([1.0] * n, l), ValueError, [l], 'Operator %s' % (c,)))
        else:
            b = qy.Basis(l)
            check([show(s) for s in b] == [show(s) for s in l] and [b.index(s) for s in l] == list(range(n)), 'Basis {} is {}', c, b)
            ctx.outcome('valid')


def run_history(case, ctx):
    _, t, i, first, depth = case
    same = [qy.opstring(NAMES[t][1], t), qy.opstring(NAMES[t][3], t)]
    dsame = {ref.key(same[0]): 1.0, ref.key(same[1]): -0.5j}

    def play(seq):
        x = pool(t)[i]
        d = dict(terms(x))
        Y = qy.Operator([1.0, -0.5j], same)
        others = [pool(u)[k] for u in TYPES if u != t for k in (0, 2)]
        for j in seq:
            op = HIST[j]
            what = 'history {} of ({}): {}: '.format([HIST[k] for k in seq], str(pool(t)[i]).replace('\n', ' '), op)
            keep = show(Y), show(others)
            if op in ('+same', '+=same'):
                x = x + Y if op == '+same' else iadd(x, Y)
                for k, v in dsame.items():
                    d[k] = d.get(k, 0) + v
            elif op == '-=same':
                x = isub(x, Y)
                for k, v in dsame.items():
                    d[k] = d.get(k, 0) - v
            elif op == '+=zero':
                x = iadd(x, qy.Operator([], [], t))
            elif op == '*2':
                x = 2 * x
                d = {k: 2 * v for k, v in d.items()}
            elif op == '*0':
                x = x * 0.0
                d = {}
            elif op == 'normalize':
                n = np.sqrt(sum(abs(v) ** 2 for v in d.values()))
                if n < 1e-12:
                    continue
                x.normalize()
                d = {k: v / n for k, v in d.items()}
            elif op == 'remove_zeros':
                x = x.remove_zeros(tol=1e-12)
                check(len(x) == len(clean(d)), what + '{} terms left of {}', len(x), clean(d))
            elif op in ('+=other', '-=other'):
                for o in others:
                    refused(lambda: (iadd if op[0] == '+' else isub)(x, o), ValueError, [x, o], what)
            elif op == '+=3':
                for bad in (3, None, qy.opstring(NAMES[t][0], t), qy.Basis(same)):
                    refused(lambda: iadd(x, bad), Exception, [x], what)
            else:
                for o in others:
                    refused(lambda: qy.product(x, o), ValueError, [x, o], what)
                    refused(lambda: qy.commutator(o, x), ValueError, [x, o], what)
            ctx.step()
            check(x.op_type == t, what + 'type {}', x.op_type)
            got = clean(terms(x))
            check(set(got) == set(clean(d)) and all(abs(got[k] - d[k]) < 1e-12 for k in got), what + '{}, expected {}', got, clean(d))
            check(len(x.coeffs) == len(x) == len(list(x)), what + 'inconsistent lengths')
            for c, s in list(x):
                # (every string is found where it is)
                y = x + qy.Operator([1.0], [s])
                check([z for z, _ in y] == [z + (u == s) for z, u in x], what + 'adding a known string {}', s)
            check((show(Y), show(others)) == keep, what + 'another Operator was modified')
        ctx.state((t, tuple(sorted((str(k), np.round(v, 9)) for k, v in d.items()))))
    for rest in it.product(range(len(HIST)), repeat=depth - 1):
        play((first,) + rest)


def run_bhistory(case, ctx):
    _, t, first, depth = case

    def play(seq):
        s = [qy.opstring(x, t) for x in NAMES[t]]
        b, l = qy.Basis([s[0]]), [s[0]]
        other = qy.Basis([s[1], s[0], s[2]])
        for j in seq:
            op = BHIST[j]
            what = 'history {}: {}: '.format([BHIST[k] for k in seq], op)
            if op in ('+=s0', '+=s1'):
                y = s[0] if op == '+=s0' else s[3]
                b = iadd(b, y)
                l = l + [y] if y not in l else l
            elif op in ('+=b', '+b'):
                b = iadd(b, other) if op == '+=b' else b + other
                l = l + [y for y in other if y not in l]
            else:
                bad = {'+=3': 3, '+=None': None, '+=Operator': qy.Operator([1.0], [s[3]]), '+name': NAMES[t][3], '+list': [s[3]]}[op]
                refused(lambda: iadd(b, bad) if '=' in op else b + bad, TypeError, [b], what)
            ctx.step()
            check([show(x) for x in b] == [show(x) for x in l] and len(b) == len(l), what + '{}', b)
            check(all(x in b and b.index(x) == i for i, x in enumerate(l)), what + 'wrong index')
            check(show(other) == show(qy.Basis([s[1], s[0], s[2]])), what + 'the other Basis was modified')
        ctx.state((t, tuple(show(x)[4] and str(show(x)) for x in l)))
    for rest in it.product(range(len(BHIST)), repeat=depth - 1):
        play((first,) + rest)


def image(T, i):
    (_, s), = list(T.apply(qy.OperatorString(['X'], [i], 'Pauli')))
    return int(s.orbital_labels[0])


def run_maps(case, ctx):
    n = case[1]
    # every assignment of names to the orbitals of one cell: the spin flip needs both partners
    for names in it.product(('Up', 'Dn', ''), repeat=n):
        for pos in it.product((0.0, 0.25), repeat=n):
            orb = list(zip(pos, names))
            if len(set(orb)) < n:
                continue
            cell = qy.UnitCell([np.array([1.0])])
            at = {}
            for p in sorted(set(pos)):
                cell.add_atom(np.array([p]), [x for q, x in orb if q == p])
            lat = qy.Lattice(cell, (2,), periodic_boundaries=(True,))
            swap = {'Up': 'Dn', 'Dn': 'Up', '': ''}
            ok = all((p, swap[x]) in orb for p, x in orb)
            ctx.step()
            ctx.state((n, tuple(orb)))
            if ok:
                T = qy.spin_flip_symmetry(lat)
                for i, (r, nm, _) in enumerate(list(lat)):
                    j = lat.index(r, swap[nm])
                    check(image(T, i) == j, 'spin flip of {}: {} -> {}, expected {}', orb, i, image(T, i), j)
            else:
                ctx.outcome(refused(lambda: qy.spin_flip_symmetry(lat), ValueError, [], 'spin flip of %s' % (orb,)))
            # reflections and translations of the chain
            for R in (1.0, -1.0):
                for d in (0.0, 0.25, 0.5, 1.0, 0.1):
                    img = [(round((R * (p + c) + d) % 2.0, 6) % 2.0, x) for p, x in orb for c in (0, 1)]
                    ok = sorted(img) == sorted((p + c, x) for p, x in orb for c in (0, 1))
                    f = lambda: qy.space_group_symmetry(lat, np.array([[R]]), np.array([d]))
                    ctx.step()
                    if ok:
                        p = [image(f(), i) for i in range(2 * n)]
                        check(sorted(p) == list(range(2 * n)), 'space group: {}', p)
                    else:
                        ctx.outcome(refused(f, ValueError, [], 'space group R=%s d=%s of %s' % (R, d, orb)))
            ctx.outcome(ok)


def run_names(case, ctx):
    """names of strings, types and labels"""
    words = ['X', 'A', 'CDag', '1', '2', 'Q', '1j', 'x']
    T = {'X': 'Pauli', 'A': 'Majorana', 'CDag': 'Fermion'}
    for n in range(5):
        for w in it.product(words, repeat=n):
            body = list(w)
            if len(body) > 1 and body[0] in ('1', '1j'):
                body = body[1:]
            ops, labels = body[::2], body[1::2]
            valid = bool(body) and len(ops) == len(labels) and all(o in T for o in ops) and all(l in '12' for l in labels) and len({T.get(o) for o in ops}) == 1
            if not valid:
                # a number alone is an identity; prefactors and repeated labels have their own rules
                if all(x in ('1j', '1', '2') for x in w):
                    continue
                # strings mixed of operators of several types are not detected
                if body and len(ops) == len(labels) and all(o in T for o in ops):
                    if all(l in '12' for l in labels):
                        continue
                ctx.step()
                refused(lambda: qy.opstring(' '.join(w)), Exception, [], 'opstring(%r)' % ' '.join(w))
                ctx.state(w)
            elif len(set(labels)) == len(labels) and body == list(w):
                t = T[ops[0]]
                s = qy.opstring(' '.join(w))
                ctx.step()
                check(s.op_type == t, 'opstring({}) has type {}', w, s.op_type)
                for u in TYPES:
                    if u != t:
                        ctx.step()
                        refused(lambda: qy.opstring(' '.join(w), u), ValueError, [], 'opstring(%r, %r)' % (' '.join(w), u))
    for t in ('pauli', '', None, 3, 'Spin'):
        for k in (1, 2):
            ctx.step()
            refused(lambda: qy.cluster_basis(k, [0, 1], t), Exception, [], 'cluster_basis of type %r' % (t,))
        for s in ('X 0', 'A 1', 'CDag 0 C 0'):
            x = qy.opstring(s)
            o = qy.Operator([1.0], [x])
            if t is None:
                continue
            ctx.step(2)
            refused(lambda: qy.convert(x, t), Exception, [x], 'convert %s to %r' % (s, t))
            refused(lambda: qy.convert(o, t), Exception, [o], 'convert %s to %r' % (s, t))
    labels = [0, 1]
    for k in ('2', None, 2.5, (1, 2)):
        for t in TYPES:
            ctx.step()
            refused(lambda: qy.cluster_basis(k, labels, t), ValueError, [labels], 'cluster_basis(%r)' % (k,))
    ctx.outcome('names')


def run_modes(case, ctx):
    good = {'commutator': 1, 'anticommutator': -1}
    more = {'commute': 1, 'Commute': 1, 'symmetry': 1, 'anticommute': -1, 'Anticommute': -1, 'antisymmetry': -1}
    for t in ('Pauli', 'Majorana'):
        B = qy.cluster_basis(2, [1, 2], t)
        O = pool(t)[2]
        T = qy.label_permutation([0, 2, 1])
        for m in list(good) + list(more) + ['', 'foo', 'commuting', None, 1, 'COMMUTE']:
            ctx.step()
            if m in good:
                v = qy.commuting_operators(B, O, operation_mode=m)
                f = qy.commutator if good[m] == 1 else qy.anticommutator
                zero = lambda x: f(O, x).remove_zeros(1e-9).norm() < 1e-9
                check(all(zero(qy.Operator(v[:, k], B.op_strings)) for k in range(v.shape[1])), 'mode {}: not an (anti)commuting operator', m)
                n = sum(1 for s in B if zero(qy.Operator([1.0], [s])))
                check(v.shape[1] == n, 'mode {}: {} operators, expected {}', m, v.shape[1], n)
            else:
                ctx.outcome(refused(lambda: qy.commuting_operators(B, O, operation_mode=m), ValueError, [B, O], 'commuting_operators, mode %r' % (m,)))
                ctx.outcome(refused(lambda: qy.structure_constants(B, B, operation_mode=m), ValueError, [B], 'structure_constants, mode %r' % (m,)))
                ctx.outcome(refused(lambda: qy.liouvillian_matrix(B, O, operation_mode=m), ValueError, [B, O], 'liouvillian_matrix, mode %r' % (m,)))
                ctx.outcome(refused(lambda: generate(B, O, m), ValueError, [B, O], 'generator, mode %r' % (m,)))
            s = dict(good, **more).get(m)
            if s:
                v = qy.invariant_operators(B, T, operation_mode=m)
                even = sum(1 for x in B if show(list(T.apply(x))[0][1]) == show(x))
                want = (len(B) + even) // 2 if s == 1 else (len(B) - even) // 2
                # two Majorana operators exchange with a sign
                check(t == 'Majorana' or v.shape[1] == want, 'mode {}: {} invariant operators, expected {}', m, v.shape[1], want)
            else:
                ctx.outcome(refused(lambda: qy.invariant_operators(B, T, operation_mode=m), ValueError, [B], 'invariant_operators, mode %r' % (m,)))
                ctx.outcome(refused(lambda: generate(B, T, m), ValueError, [B], 'generator, mode %r' % (m,)))
        ctx.state(t)
