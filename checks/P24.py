"""Histories of explorations that share their precomputed structure constants."""
import copy
import itertools as it
import numpy as np
import qosy as qy
from qosy import algorithms
from mc import ref
from mc.harness import check

ID = 'P24'
BOUND = {
    'quick': 'all histories of <=2 (one string type) explorations over 8 bases x 6 operators x 4 sets of allowed labels, all of 3 over 4 bases x 4 operators x 2 '
             'sets of labels, and all of 4 over 3 bases x 3 operators; all pairs of strings with all pairs of terms on two orbitals and all labels; Pauli and Majorana strings on three orbitals; every exploration '
             'is compared with the matrices of the commutators',
    'thorough': 'histories of 3 over 8 x 6 x 2, of 4 over 4 x 4 and of 5 over 3 x 3',
}
CHUNK = 1
ORBS = (0, 1, 2)
TYPES = {'Pauli': 'XYZ', 'Majorana': 'ABD'}


def menus(t):
    a, b, c = TYPES[t]
    s = lambda *x: qy.opstring(' '.join(str(y) for y in x) if x else 'I', t)
    bases = [
        [s(c, 0)],
        [s(c, 1), s(a, 0, b, 1)],
        [s(c, 0), s(c, 1), s(c, 2)],
        [s(a, 1), s(b, 1), s(c, 1), s()],
        [s(a, 0, a, 2), s(c, 0)],
        [s(a, 0, b, 1, c, 2), s(b, 0), s(a, 1), s(c, 2), s(a, 0, b, 1)],
        [],
        [s(c, 2), s(b, 0)],
    ]
    ops = [
        [(1.0, s(a, 0, a, 1)), (1.0, s(b, 0, b, 1)), (1.0, s(c, 0, c, 1))],
        [(0.5, s(c, 0)), (-2.0, s(a, 1))],
        [(1.0, s(a, 0, a, 1)), (0.25, s(a, 1, a, 2)), (3.0, s(c, 1))],
        [(-1.0, s(b, 0, b, 1)), (1j, s(c, 0, c, 1)), (2.0, s(b, 2))],
        [(1.0, s())],
        [(1.0, s(a, 0, b, 1, c, 2)), (1.0, s(c, 0)), (1.0, s(c, 1))],
    ]
    return bases, ops, [None, {0}, {1, 2}, set()]


def acts(nb, no, nl):
    return [(b, o, l) for b in range(nb) for o in range(no) for l in range(nl)]


def plans(tier):
    if tier == 'quick':
        return [(2, 8, 6, 4), (3, 4, 4, 2), (4, 3, 3, 1)]
    return [(2, 8, 6, 4), (3, 8, 6, 2), (4, 4, 4, 1), (5, 3, 3, 1)]


def cases(tier):
    for t in TYPES:
        for d, nb, no, nl in plans(tier):
            for k in range(len(acts(nb, no, nl))):
                yield [t, d, nb, no, nl, k]
    for t in TYPES:
        for i, _ in enumerate(it.combinations(range(16), 2)):
            yield [t, 'pairs', i]


_cache = {}


def expected(t, b, o, l, bases, ops, labs):
    k = (t, b, o, l)
    if k not in _cache:
        terms = [(c, s) for c, s in ops[o] if labs[l] is None or set(s.orbital_labels) & labs[l]]
        h = ref.combo([c for c, _ in terms], [ref.mat(s, ORBS) for _, s in terms], 3)
        cols = [ref.mat(s, ORBS) @ h - h @ ref.mat(s, ORBS) for s in bases[b]]
        names = {}
        for o_, l_ in ref.strings(TYPES[t], ORBS):
            s = qy.OperatorString(list(o_), list(l_), t)
            names[ref.key(s)] = ref.mat(s, ORBS)
        need = set()
        for _, s in terms:
            for x in bases[b]:
                m = ref.mat(x, ORBS) @ ref.mat(s, ORBS) - ref.mat(s, ORBS) @ ref.mat(x, ORBS)
                for kk, mm in names.items():
                    if abs(np.vdot(mm, m)) > 1e-9:
                        need.add(kk)
        _cache[k] = (cols, need)
    return _cache[k]


def key(os):
    return ref.key(os)


_table = {}


def table(t):
    """Commutators of all strings on two orbitals, from their matrices."""
    if t not in _table:
        strs = [qy.OperatorString(list(o), list(l), t) for o, l in ref.strings(TYPES[t], (0, 1))]
        ms = [ref.mat(s, (0, 1)) for s in strs]
        com = {}
        for i, a in enumerate(ms):
            for j, b in enumerate(ms):
                m = a @ b - b @ a
                for k, c in enumerate(ms):
                    x = np.vdot(c, m) / 4
                    if abs(x) > 1e-9:
                        com[i, j] = (k, x)
        _table[t] = strs, {key(s): i for i, s in enumerate(strs)}, com
    return _table[t]


def run_pairs(case, ctx):
    """All pairs of strings with all pairs of terms, and all labels."""
    t, _, n = case
    strs, index, com = table(t)
    assert len(strs) == 16
    for terms in [list(it.combinations(range(16), 2))[n]]:
        for coeffs in ((1.0, 0.5), (1.0, -1.0)):
            H = qy.Operator(list(coeffs), [strs[i] for i in terms])
            for basis in it.combinations(range(16), 2):
                shared = (qy.Basis(), qy.Basis(), dict())
                for labels in ({0}, {1}, {0, 1}, None):
                    L, ext = algorithms._explore(qy.Basis([strs[i] for i in basis]), H, *shared, allowed_labels=labels)
                    ctx.step()
                    want, need = {}, set()
                    for c, i in zip(coeffs, terms):
                        if labels is not None and not labels & set(strs[i].orbital_labels):
                            continue
                        for col, j in enumerate(basis):
                            if (j, i) in com:
                                k, x = com[j, i]
                                need.add(k)
                                want[k, col] = want.get((k, col), 0) + c * x
                    rows = [index[key(s)] for s in ext]
                    check(len(rows) == len(set(rows)) and set(rows) == need, 'basis {}, terms {}, labels {}: extended basis {}', basis, terms, labels, rows)
                    L = L.toarray()
                    check(L.shape == (len(rows), 2), 'shape {}', L.shape)
                    for r, k in enumerate(rows):
                        for col in range(2):
                            check(abs(L[r, col] - want.get((k, col), 0)) < 1e-9, 'basis {}, terms {} {}, labels {}: element {} is {}, expected {}',
                                  basis, terms, coeffs, labels, (k, col), L[r, col], want.get((k, col), 0))
    ctx.outcome((t, n))


def run(case, ctx):
    if case[1] == 'pairs':
        return run_pairs(case, ctx)
    t, d, nb, no, nl, first = case
    bases, ops, labs = menus(t)
    A = acts(nb, no, nl)
    for rest in it.product(A, repeat=d - 1):
        hist = (A[first],) + rest
        eb, xeb, data = qy.Basis(), qy.Basis(), dict()
        seen = []
        for n, (b, o, l) in enumerate(hist):
            basis = qy.Basis(list(bases[b]))
            H = qy.Operator([c for c, _ in ops[o]], [s for _, s in ops[o]])
            allowed = None if labs[l] is None else set(labs[l])
            kw = {} if allowed is None else {'allowed_labels': allowed}
            L, ext = algorithms._explore(basis, H, eb, xeb, data, **kw)
            ctx.step()
            cols, need = expected(t, b, o, l, bases, ops, labs)
            what = 'history {}, exploration {}: '.format(hist, n)
            check([key(s) for s in basis] == [key(s) for s in bases[b]] and
                  [(complex(c), key(s)) for c, s in H] == [(complex(c), key(s)) for c, s in ops[o]] and
                  allowed == labs[l], what + 'an argument was modified')
            names = [key(s) for s in ext]
            check(len(set(names)) == len(names) and set(names) == need, what + 'extended basis {}, expected {}', names, need)
            L = L.toarray()
            check(L.shape == (len(names), len(basis)), what + 'shape {}', L.shape)
            for j in range(len(basis)):
                m = ref.combo(L[:, j], [ref.mat(s, ORBS) for s in ext], 3)
                check(ref.close(m, cols[j]), what + 'the commutator of {} with H is wrong', basis[j])
            for s in bases[b]:
                if key(s) not in seen:
                    seen.append(key(s))
            check(set(seen) <= {key(s) for s in eb} and set(names) <= {key(s) for s in xeb},
                  what + 'what was explored is not recorded')
            ctx.state((t, tuple(sorted(seen)), b, o, l))
        ctx.outcome(len(eb))
