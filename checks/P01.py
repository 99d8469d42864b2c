"""Products, commutators and anticommutators of operator strings are those of the matrices."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, weyl
from mc.harness import check

ID = 'P01'
BOUND = {
    'quick': 'Pauli and Majorana: all ordered pairs of strings on 3 orbitals under 5 label embeddings, all '
             'ordered pairs on 4 orbitals, all (any string on 6 orbitals) x (weight<=1 string) and '
             '(5 orbitals) x (weight<=2) pairs; long strings: every subset of 8 orbitals with 5 patterns of operators x every interval of '
             'orbitals with 5 patterns, both orders; product, commutator and anticommutator of each',
    'thorough': 'as quick, plus all ordered pairs on 5 orbitals and (6 orbitals) x (weight<=2) pairs in both orders',
}
CHUNK = 1
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
ID_T = {'Pauli': 1, 'Majorana': 1}


def cases(tier):
    """A case = one left operand family slice: [op_type, labels, left string indices, right max weight]."""
    for t in ('Pauli', 'Majorana'):
        for labels in ([0, 1, 2], [1, 2, 3], [0, 5, 10], [9, 10, 100], [256, 257, 5000]):
            for i in range(64):
                yield [t, labels, i, 3, 1]
        for i in range(256):
            yield [t, [0, 1, 2, 3], i, 4, 1]
        for i in range(0, 4 ** 5):
            yield [t, [0, 1, 2, 3, 11], i, 2, 1]
        for i in range(0, 4 ** 6, 1):
            yield [t, [0, 1, 2, 3, 4, 12], i, 1, 0]
        for lab in (LONG if tier == 'quick' else LONGER):
            for i in range(2 ** len(lab)):
                yield ['long', t, lab, i]
        if tier == 'thorough':
            for i in range(0, 4 ** 5):
                yield [t, [0, 1, 2, 3, 4], i, 5, 1]
            for i in range(0, 4 ** 6):
                yield [t, [0, 1, 2, 3, 4, 5], i, 2, 1]


LONG = [[0, 1, 2, 5, 7, 9, 10, 23]]
LONGER = LONG + [list(range(10)), [3, 4, 5, 20, 21, 22, 23, 24, 25, 64]]


def pattern(t, k, labels):
    a = ALPH[t]
    n = len(labels)
    return {0: [a[0]] * n, 1: [a[1]] * n, 2: [a[2]] * n, 3: [a[i % 2] for i in range(n)], 4: [a[(i * i + 1) % 3] for i in range(n)]}[k]


def long(t, lab, i, ctx):
    left = [l for j, l in enumerate(lab) if i >> j & 1]
    A_, _ = weyl.ALG[t]
    for ka in range(5 if left else 1):
        oa = pattern(t, ka, left)
        A = qy.OperatorString(oa, left, t)
        wa = weyl.mono(t, oa, left)
        for lo in range(len(lab)):
            for hi in range(lo + 1, len(lab) + 1):
                right = lab[lo:hi]
                for kb in range(5):
                    if (ka + kb + i + lo + hi) % 2 and hi - lo > 1:
                        continue
                    ob = pattern(t, kb, right)
                    B = qy.OperatorString(ob, right, t)
                    wb = weyl.mono(t, ob, right)
                    ab, ba = A_.mul(wa, wb), A_.mul(wb, wa)
                    same = ab == ba
                    for X, Y, w in ((A, B, ab), (B, A, ba)):
                        for mode, e in (('product', 1), ('commutator', 0 if same else 2), ('anticommutator', 2 if same else 0)):
                            c, C = OPS[mode](X, Y)
                            ctx.step()
                            if e == 0:
                                check(abs(c) < 1e-9, '{} of {} and {} must vanish, got {}', mode, str(X), str(Y), c)
                                continue
                            check(C is not None, '{} of {} and {} must not vanish', mode, str(X), str(Y))
                            check(weyl.same(weyl.term(weyl.of(C), c), weyl.term(w, e)),
                                  '{} of {} and {} gave {} {}', mode, str(X), str(Y), c, str(C))
                            labs = [int(l) for l in C.orbital_labels]
                            check(labs == sorted(set(labs)), '{} of {} and {} is not in canonical order: {}', mode, str(X), str(Y), str(C))
                    ctx.state((t, len(left), ka, len(right), kb, ab[0] - ba[0]))


_cache = {}


def _strings(t, labels, w):
    k = (t, tuple(labels), w)
    if k not in _cache:
        _cache[k] = ref.strings(ALPH[t], labels, 0, w)
    return _cache[k]


def _mono(m):
    """A string of Paulis/Majoranas is a monomial matrix: (column of each row, phases)."""
    cols = np.argmax(np.abs(m), axis=1)
    return cols, m[np.arange(m.shape[0]), cols]


_monos = {}


def mono(t, s, orbs):
    k = (t, s, orbs)
    r = _monos.get(k)
    if r is None:
        r = _monos[k] = _mono(ref.string_matrix(t, s[0], s[1], 1, orbs))
    return r


def mul(a, b):
    return b[0][a[0]], a[1] * b[1][a[0]]


OPS = {'product': qy.product, 'commutator': qy.commutator, 'anticommutator': qy.anticommutator}


def one(t, orbs, sa, sb, ctx):
    n = len(orbs)
    # (equal labels need not be the same objects; labels may come in arrays)
    A = qy.OperatorString(list(sa[0]), [int(str(l)) for l in sa[1]], t)
    B = qy.OperatorString(list(sb[0]), np.array(sb[1], dtype=int) if (len(sa[1]) + sum(sb[1])) % 3 == 0 else [int(str(l)) for l in sb[1]], t)
    ma, mb = mono(t, sa, orbs), mono(t, sb, orbs)
    ab, ba = mul(ma, mb), mul(mb, ma)
    # both orders have the same pattern; they agree or differ by a sign
    same = np.array_equal(ab[1], ba[1])
    expect = {'product': 1.0, 'commutator': 0.0 if same else 2.0, 'anticommutator': 2.0 if same else 0.0}
    for mode, f in OPS.items():
        res = f(A, B)
        ctx.step()
        coeff, C = res
        e = expect[mode]
        if e == 0.0:
            check(abs(coeff) < 1e-9, '{} of {} and {} must vanish, got {}', mode, sa, sb, res[0])
            ctx.outcome('zero')
            continue
        check(C is not None, '{} of {} and {} must not vanish', mode, sa, sb)
        kc = ref.key(C)
        check(kc[0] == t, '{} of two {} strings has type {}', mode, t, kc[0])
        check(list(kc[2]) == sorted(set(kc[2])), '{} of {} and {} is not in canonical label order: {}', mode, sa, sb, kc)
        check(set(kc[2]) <= set(orbs), '{} of {} and {} acts on other orbitals: {}', mode, sa, sb, kc)
        mc = mono(t, (kc[1], kc[2]), orbs)
        ok = np.array_equal(mc[0], ab[0]) and np.allclose(coeff * mc[1], e * ab[1], atol=1e-9)
        check(ok, '{} of {} and {} ({} strings) gave {} * {} which is not the matrix result',
              mode, sa, sb, t, coeff, str(C).strip())
        ref_os = qy.OperatorString(list(kc[1]), list(kc[2]), t)
        check(C == ref_os and hash(C) == hash(ref_os) and str(C) == str(ref_os),
              '{} of {} and {} is not the same string object as constructing {}', mode, sa, sb, kc)
        ctx.outcome('%s*%g%+gj' % (mode[:4], complex(coeff).real, complex(coeff).imag))
        ctx.state((t, kc[1], kc[2]))
    check(ref.key(A)[1:3] == (sa[0], sa[1]) and ref.key(B)[1:3] == (sb[0], sb[1]), 'operands were modified: {} {}', sa, sb)


def run(case, ctx):
    if case[0] == 'long':
        return long(case[1], case[2], case[3], ctx)
    t, labels, i, w, both = case
    orbs = tuple(labels)
    left = _strings(t, labels, len(labels))[i]
    for right in _strings(t, labels, w):
        one(t, orbs, left, right, ctx)
        if both and w < len(labels):
            one(t, orbs, right, left, ctx)
