"""Textual form, equality and hashing of operator strings are one identity."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check, Violation

ID = 'P03'
BOUND = {
    'quick': 'all Pauli and Majorana strings on label sets {0,1,2,3},{1,2,11,12},{1,10,100},{256,257,5000}; all fermion strings '
             'with <=4 ladder operators on 3 labels with both prefactors; every spelling of each; all pairs within a '
             'family for equality/hashing; all malformed variants of every short string',
    'thorough': 'as quick, on 5 labels',
}
CHUNK = 4
NAMES = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}


def fermion_family(labels, maxn):
    out = []
    for nd in range(0, maxn + 1):
        for nc in range(0, maxn + 1 - nd):
            if nd + nc == 0:
                continue
            for cd in it.combinations(labels, nd):
                for c in it.combinations(labels, nc):
                    ops = ('CDag',) * nd + ('C',) * nc
                    for pf in (1.0, 1j):
                        out.append((ops, cd + c[::-1], pf))
    return out


def family(t, labels, maxn):
    if t == 'Fermion':
        return fermion_family(labels, maxn)
    return [(ops, labs, 1.0) for ops, labs in ref.strings(NAMES[t], labels, 1, maxn)]


def cases(tier):
    for t in ('Pauli', 'Majorana'):
        sets = [[0, 1, 2, 3], [1, 2, 11, 12], [1, 10, 100], [256, 257, 5000]]
        if tier == 'thorough':
            sets += [[0, 1, 2, 3, 10], [7, 17, 71, 117, 171]]
        for labels in sets:
            n = len(family(t, labels, len(labels)))
            for i in range(n):
                yield [t, labels, len(labels), i]
    sets = [[0, 1, 2], [1, 11, 111], [256, 257, 5000]]
    if tier == 'thorough':
        sets += [[0, 1, 2, 10]]
    for labels in sets:
        n = len(family('Fermion', labels, 4))
        for i in range(n):
            yield ['Fermion', labels, 4, i]
    yield ['identity']
    for ops in it.product(('X', 'A', 'CDag', 'C', 'Q', '2'), repeat=2):
        yield ['bad', list(ops)]


_fam = {}


def fam(t, labels, maxn):
    k = (t, tuple(labels), maxn)
    if k not in _fam:
        f = family(t, labels, maxn)
        objs = [qy.OperatorString(list(o), list(l), t, p) if t == 'Fermion'
                else qy.OperatorString(list(o), list(l), t) for o, l, p in f]
        _fam[k] = (f, objs)
    return _fam[k]


def raises(f, *exc):
    try:
        r = f()
    except exc:
        return True
    except Exception as e:
        raise Violation('raised %s: %s instead of %s' % (type(e).__name__, e, exc))
    return False


def run(case, ctx):
    if case[0] == 'identity':
        for t in ('Pauli', 'Majorana', 'Fermion'):
            ids = [qy.opstring(s, t) for s in ('1', '1.0', 'I', ' I ', '')] + [qy.OperatorString([], [], t)]
            for a in ids:
                ctx.step()
                check(len(a.orbital_operators) == 0 and a.op_type == t, 'identity of type {} is {}', t, str(a))
                for b in ids:
                    check(a == b and hash(a) == hash(b) and str(a) == str(b), 'identities of type {} differ', t)
                check(qy.opstring(str(a), t) == a, 'identity of type {} does not parse back', t)
            for s in ('1', 'I', ''):
                check(raises(lambda: qy.opstring(s), ValueError), 'identity {!r} accepted without a type', s)
        ids = {t: qy.opstring('I', t) for t in ('Pauli', 'Majorana', 'Fermion')}
        for a, b in it.permutations(ids, 2):
            check(not (ids[a] == ids[b]), 'identities of types {} and {} compare equal', a, b)
        return
    if case[0] == 'bad':
        a, b = case[1]
        types = {'X': 'Pauli', 'A': 'Majorana', 'CDag': 'Fermion', 'C': 'Fermion'}
        ctx.step()
        if a not in types:
            check(raises(lambda: qy.opstring('%s 1 %s 2' % (a, b)), ValueError), '{} 1 {} 2 accepted', a, b)
        for s in ['%s 1 %s 2' % (p, a) for p in ('2', '-1', '1.5', '-1j', 'i', '1.0j', '1e0')] + ['%s x' % a, '%s 1.5' % a, '%s' % a, '%s 1 %s' % (a, a)] + ['%s %s 1' % (p, a) for p in ('2', '-1', '-1.0', '0', '2j', '-1j', '0.5', 'i')]:
            check(raises(lambda: qy.opstring(s), ValueError), '{!r} accepted', s)
        if a not in types:
            for p in ('1', '1.0', '1j'):
                check(raises(lambda: qy.opstring('%s %s 1' % (p, a)), ValueError), '{} {} 1 accepted', p, a)
        if a in types and b not in types:
            for s in ('%s 1 %s 2' % (a, b), '1.0 %s 1 %s 2' % (a, b), '%s 1 %s 2 %s 3' % (a, a, b)):
                check(raises(lambda: qy.opstring(s), ValueError), '{!r} accepted', s)
        if a in types and types.get(b) == types[a]:
            for t in ('Pauli', 'Majorana', 'Fermion'):
                if t != types[a]:
                    check(raises(lambda: qy.opstring('%s 1 %s 2' % (a, b), t), ValueError),
                          '{} 1 {} 2 accepted as a {} string', a, b, t)
            for ls in ([], [1], [1, 2, 3]):
                check(raises(lambda: qy.OperatorString([a, b], ls, types[a]), ValueError, IndexError),
                      '{} operators with {} labels accepted', [a, b], ls)
            bad = [2.0, -1.0, 0.0, -1j, 0.5] + ([1j] if types[a] == 'Pauli' else [])
            for p in bad:
                if types[a] == 'Majorana':
                    continue
                check(raises(lambda: qy.OperatorString([a, b], [1, 2], types[a], p), ValueError),
                      'prefactor {} accepted for a {} string', p, types[a])
        return
    t, labels, maxn, i = case
    f, objs = fam(t, labels, maxn)
    ops, labs, pf = f[i]
    a = objs[i]
    plain = ' '.join('%s %d' % x for x in zip(ops, labs))
    # attributes
    k = ref.key(a)
    check(k[0] == t and k[1] == ops and k[2] == labs, 'string {} has attributes {}', plain, k)
    if t == 'Majorana':
        m = ref.raw(ops, labs, tuple(labels))
        herm = np.allclose(m, m.conj().T)
        pf = 1.0 if herm else 1j
    check(k[3] == pf, 'string {} has prefactor {}, expected {}', plain, k[3], pf)
    check([(str(x), int(y)) for x, y in a] == list(zip(ops, labs)), 'iteration over {} gives {}', plain, list(a))
    # spellings
    sp = []
    if pf == 1.0:
        sp += [plain, '  %s  ' % plain, '1 ' + plain, '1.0 ' + plain, plain.replace(' ', '   ')]
    else:
        sp += ['1j ' + plain]
        if t == 'Majorana':
            sp += [plain, '1 ' + plain]
    built = [qy.opstring(s) for s in sp] + [qy.opstring(s, t) for s in sp] + [qy.opstring(str(a))]
    built.append(qy.OperatorString(tuple(ops), np.array(labs), t, complex(pf)) if t == 'Fermion'
                 else qy.OperatorString(tuple(ops), np.array(labs), t))
    if pf == 1.0:
        built.append(qy.OperatorString(np.array(ops), list(labs), t, 1))
    for b in built:
        ctx.step()
        check(ref.key(b) == ref.key(a), 'spelling of {!r} gives {}', plain, ref.key(b))
        check(a == b and b == a, 'two constructions of {} are not equal', plain)
        check(hash(a) == hash(b), 'two equal constructions of {} hash differently', plain)
        check(str(a) == str(b), 'two constructions of {} print differently: {!r} {!r}', plain, str(a), str(b))
        check(b in qy.Basis([a]) and qy.Basis([a]).index(b) == 0, '{} is not found in a basis containing it', plain)
    # pairwise identity
    for j, b in enumerate(objs):
        e = (f[j][0], f[j][1]) == (ops, labs) and ref.key(b)[3] == k[3]
        ctx.steps += 1
        if e:
            check(j == i, 'enumeration is not injective')
        check(bool(a == b) == e, 'equality of {!r} and {!r} is {}', str(a), str(b), bool(a == b))
        check(e or str(a) != str(b), 'different strings print alike: {!r}', str(a))
    ctx.state((t, k))
    ctx.outcome((t, len(ops)))
