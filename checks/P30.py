"""Text: simultaneous replacement, orbital relabelling, printing."""
import contextlib
import io
import itertools as it
import re
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check
from checks import latmodel

ID = 'P30'
BOUND = {
    'quick': 'replace: all substitution tables with <=3 entries over 6 keys (overlapping, prefixes, regex characters) and 5 values, on all texts of length <=5 over 3 letters '
             'and 12 special texts; swap: all pairs of 11 names on all texts of <=4 of 7 words; relabel: every orbital (and pair) of 40 lattices of all kinds; '
             'printing: all operators with <=3 of 6 terms over 5 coefficients in each type x lattices x keywords x conversions x norms, as operators and as vectors',
    'thorough': 'texts of length 7',
}
CHUNK = 1
KEYS = ['a', 'ab', 'b', '.', 'a.', '(']
VALUES = ['', 'b', 'aa', '(', 'x.b']


def lats():
    out = []
    for names in (None, ['Up', 'Dn'], ['1', 's 2', '']):
        out += [['chain', [n], [0], names] for n in (1, 2, 12)]
        out += [['square', [2, 3], [1, 0], names], ['square', [1, 1], [0, 0], names], ['kagome', [2, 2], [1, 1], names],
                ['cubic', [2, 1, 3], [0, 0, 0], names], ['kagome', [1, 1], [0, 0], names], ['kagome', [4, 3], [0, 1], names]]
    for k, v in latmodel.CUSTOM.items():
        d = len(v[0])
        out += [[k, [n] * d, [0] * d, None] for n in (1, 2, 3)]
    return out


def cases(tier):
    n = 0
    T = tables()
    for lo in range(0, len(T), 25):
        yield ['replace', lo, lo + 25, 5 if tier == 'quick' else 7]
    for i in range(11):
        yield ['swap', i]
    for d in lats():
        yield ['relabel', d]
    for t in ('Pauli', 'Majorana', 'Fermion'):
        for i in range(len(terms(t))):
            for j in range(4):
                yield ['print', t, i, j]


def tables():
    out = []
    for r in range(4):
        for ks in it.permutations(KEYS, r) if r < 3 else it.combinations(KEYS, r):
            for vs in it.product(VALUES, repeat=r):
                out.append(dict(zip(ks, vs)))
    return out


def expected_replace(text, table):
    """leftmost, longest, non-overlapping, all at once"""
    out, i = '', 0
    keys = sorted(table, key=lambda k: (-len(k), k))
    while i < len(text):
        for k in keys:
            if text.startswith(k, i):
                out += table[k]
                i += len(k)
                break
        else:
            out += text[i]
            i += 1
    return out


def terms(t):
    if t == 'Pauli':
        names = ['X 0', 'Y 1 Z 10', 'Z 1', 'X 0 X 1', 'I', 'Y 11']
    elif t == 'Majorana':
        names = ['D 0', 'A 1 B 10', 'A 0', 'A 0 B 1', 'I', 'D 11']
    else:
        names = ['CDag 0 C 0', 'CDag 1 C 10', 'C 1', '1j CDag 0 C 1', 'I', 'CDag 11 C 11']
    return names


def mkstr(name, t):
    if name.startswith('1j '):
        w = name.split()[1:]
        return qy.OperatorString(w[0::2], [int(x) for x in w[1::2]], t, prefactor=1j)
    if name == 'I':
        return qy.OperatorString([], [], t)
    w = name.split()
    return qy.OperatorString(w[0::2], [int(x) for x in w[1::2]], t)


def printed(f, *a, **kw):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        f(*a, **kw)
    return s.getvalue()


def expected_labels(desc):
    lat, model = latmodel.make(desc)
    kind, N, pb, names = desc
    if kind in latmodel.CUSTOM:
        atoms = [o or [''] for o in latmodel.CUSTOM[kind][2]]
    else:
        atoms = [names or ['']] * (3 if kind == 'kagome' else 1)
    out = []
    for cell in it.product(*[range(n) for n in N]):
        for a, orbs in enumerate(atoms):
            for o in orbs:
                s = '{'
                if int(np.prod(N)) != 1:
                    s += str(tuple(cell)) + '; '
                s += str(a)
                if o != '':
                    s += '; ' + o
                out.append(s + '}')
    return lat, out


def parse(text):
    """the (title, lines) blocks of the printed text"""
    blocks = []
    for line in text.split('\n'):
        if line.strip() == '':
            continue
        if re.match(r'^(vector|operator) \d+ =', line):
            blocks.append((line.strip(), []))
        else:
            blocks[-1][1].append(line)
    return blocks


def run(case, ctx):
    kind = case[0]
    if kind == 'replace':
        _, lo, hi, n = case
        texts = [''.join(x) for m in range(n + 1) for x in it.product('ab.', repeat=m)]
        texts += ['', 'a(b)', '((', 'aba.b', 'a.a.(ab', 'A a B b', '\\a', 'ab' * 6, 'x', '(a.b)', 'a\nb.', '+*?[a]']
        for tab in tables()[lo:hi]:
            t0 = dict(tab)
            for s in texts:
                r = qy.replace(s, tab)
                check(r == expected_replace(s, tab), 'replace({!r}, {!r}) = {!r}', s, tab, r)
            ctx.step(len(texts))
            check(tab == t0, 'the table was modified')
            ctx.state(sorted(tab.items()))
    elif kind == 'swap':
        names = ['Up', 'Dn', 'X', 'XY', '1', '(0)', '11', '.', 'A', 'p', '{1}']
        words = ['Up', 'Dn', 'XY', '1', '11', '(0)', 'A.{1}']
        a = names[case[1]]
        for b in names:
            for m in range(5 if len(names) else 0):
                for w in it.product(words, repeat=m):
                    s = ' '.join(w)
                    r = qy.swap(s, a, b)
                    check(r == expected_replace(s, {a: b, b: a}), 'swap({!r}, {!r}, {!r}) = {!r}', s, a, b, r)
                    ctx.step()
            ctx.state((a, b))
    elif kind == 'relabel':
        lat, lab = expected_labels(case[1])
        n = len(lab)
        check(len(lat) == n, 'wrong number of orbitals')
        pick = range(n) if n <= 16 else list(range(0, 16)) + list(range(n - 4, n))
        for i in pick:
            r = qy.relabel_orbitals('X {} '.format(i), lat)
            ctx.step()
            check(r == 'X_{} '.format(lab[i]), 'orbital {} of {} is labelled {!r}, expected {!r}', i, case[1], r, lab[i])
            for j in pick:
                if j >= i:
                    s = '(1+0j) (CDag {} C {})\n-0.5j (Z {} )\n'.format(i, j, j)
                    e = '(1+0j) (CDag_{} C_{})\n-0.5j (Z_{} )\n'.format(lab[i], lab[j], lab[j])
                    r = qy.relabel_orbitals(s, lat)
                    ctx.step()
                    check(r == e, 'relabelled text {!r}, expected {!r}', r, e)
        ctx.state(case[1])
    else:
        _, t, first, var = case
        coeffs = [1.0, -2.0, 0.5j, 1e-13, 3.0 - 4.0j]
        T = terms(t)
        lat, lab = expected_labels(['chain', [12], [0], ['Up'] if var % 2 else None])
        for r in range(0, 3):
            for rest in it.combinations([i for i in range(len(T)) if i > first], r):
                idx = (first,) + rest
                for n, cs in enumerate(it.product(coeffs, repeat=r + 1)):
                    if r == 2 and n % 5 != var:
                        continue
                    kw = {}
                    if var == 1 or var == 3:
                        kw['lattice'] = lat
                    if var >= 2:
                        kw['keywords'] = [['Z', 'Y', 'A', 'B', 'Dag'], ['1', '(2+0j)'], []][n % 3]
                    order = [None, np.inf, 1][n % 3]
                    if order is not None:
                        kw['norm_order'] = order
                    conv = None
                    if n % 7 == 3 and t != 'Pauli':
                        conv = {'Majorana': 'Fermion', 'Fermion': 'Majorana'}[t]
                        kw['convert_to'] = conv
                    if n % 4 == 1:
                        kw['tol'] = 1e-14
                    strs = [mkstr(T[i], t) for i in idx]
                    op = qy.Operator(list(cs), strs)
                    zero = qy.Operator([0.0], [strs[0]])
                    ops = [op, zero]
                    before = [(complex(c), ref.key(s)) for c, s in op]
                    out1 = printed(qy.print_operators, ops, **kw)
                    basis = qy.Basis(strs)
                    vecs = np.array([list(cs), [0] * len(cs)], dtype=complex).T
                    v0 = vecs.copy()
                    out2 = printed(qy.print_vectors, basis, vecs, **kw)
                    ctx.step(2)
                    check(before == [(complex(c), ref.key(s)) for c, s in op] and np.array_equal(v0, vecs), 'an argument was modified')
                    # expected content
                    q = qy.convert(op, conv) if conv else op
                    items = [(complex(c), str(s)) for c, s in q if abs(c) > kw.get('tol', 1e-10)]
                    a = np.abs([c for c, _ in items])
                    nm = 1.0 if not items else (np.sqrt((a ** 2).sum()) if order is None else a.max() if order == np.inf else a.sum())
                    for title, out in (('operator', out1), ('vector', out2)):
                        bl = parse(out)
                        check([x.rstrip(' =') for x, _ in bl] == [title + ' 1', title + ' 2'], 'titles {}', [x for x, _ in bl])
                        check(bl[1][1] == [], 'the zero operator is printed as {}', bl[1][1])
                        got = []
                        for line in bl[0][1]:
                            m = re.match(r'^(\S+) \((.*)\)$', line)
                            check(m is not None, 'unreadable line {!r}', line)
                            got.append((complex(m.group(1)), m.group(2)))
                        exp = []
                        for c, s in items:
                            e = (c / nm, expected_text(s, lab) if 'lattice' in kw else s)
                            if 'keywords' in kw:
                                line = str(e[0]) + ' (' + e[1] + ')'
                                near = [k for k in kw['keywords'] if k in line]
                                if not near:
                                    continue
                            exp.append(e)
                        if 'keywords' in kw:
                            # (the digits of a coefficient may match as well)
                            texts = {s for _, s in exp}
                            sure = [e for e in exp if any(k in e[1] for k in kw['keywords'])]
                            allx = [(c / nm, expected_text(s, lab) if 'lattice' in kw else s) for c, s in items]
                            which = [[k for k, e in enumerate(allx) if close(g, e)] for g in got]
                            check(all(len(x) == 1 for x in which) and all(x < y for x, y in zip(which, which[1:])) and all(any(close(g, e) for g in got) for e in sure) and
                                  all(any(k in line for k in kw['keywords']) for line in bl[0][1]),
                                  'printed {} of {} with {}', bl[0][1], allx, kw.get('keywords'))
                        else:
                            check(len(got) == len(exp) and all(close(g, e) for g, e in zip(got, exp)), 'printed {}, expected {}', bl[0][1], exp)
                    ctx.state((t, idx, cs, var))
                    ctx.outcome(len(items))
        if first == 0 and var == 0:
            try:
                printed(qy.print_vectors, qy.Basis([mkstr(T[0], t)]), np.eye(2))
                check(False, 'vectors of the wrong size accepted')
            except ValueError:
                ctx.step()


def close(g, e):
    return g[1].strip() == e[1].strip() and abs(g[0] - e[0]) < 1e-9 * max(1, abs(e[0]))


def expected_text(s, lab):
    return re.sub(r' (\d+)', lambda m: '_' + lab[int(m.group(1))], s)
