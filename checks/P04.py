"""A Basis behaves as an ordered set through every history of operations."""
import itertools as it
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P04'
BOUND = {
    'quick': 'two bases, three operator strings per alphabet (3 alphabets, equal strings built separately), all '
             'sequences of length <=3 over 30 operations (+=, + with strings and bases, aliasing destinations, self '
             'operands) from 3 initial pairs; growth string by string, by blocks of 1-40 strings and by overlapping bases up to '
             '260 strings, in 8 orders, compared after every addition',
    'thorough': 'as quick, all sequences of length <=4',
}
CHUNK = 1
ALPH = {
    'P': ('X 1', 'Z 1 Y 10', 'I'),
    'M': ('A 1 B 2', 'D 1', 'I'),
    'F': ('CDag 2 C 1', '1j CDag 2 C 1', 'CDag 1 C 1'),
}
TYPES = {'P': 'Pauli', 'M': 'Majorana', 'F': 'Fermion'}

OPS = []
for i in (0, 1):
    for s in (0, 1, 2):
        OPS.append(('iadd_s', i, s))
    for j in (0, 1):
        OPS.append(('iadd_b', i, j))
for k in (0, 1):
    for i in (0, 1):
        for s in (0, 1, 2):
            OPS.append(('add_s', k, i, s))
        for j in (0, 1):
            OPS.append(('add_b', k, i, j))
INITS = [([], []), ([0], [1]), ([2, 1], [1, 0])]


def cases(tier):
    d = 3 if tier == 'quick' else 4
    for a in ALPH:
        for init in range(len(INITS)):
            for pre in it.product(range(len(OPS)), repeat=d - 2):
                yield [a, init, list(pre), 2]
    for t in ALPH:
        for order in range(8):
            for block in (1, 2, 3, 7, 16, 40):
                yield ['grow', t, order, block]


def mk(a, s):
    return qy.opstring(ALPH[a][s], TYPES[a])


def apply_real(a, slots, op, keep):
    if op[0] == 'iadd_s':
        slots[op[1]] += mk(a, op[2])
    elif op[0] == 'iadd_b':
        slots[op[1]] += slots[op[2]]
    elif op[0] == 'add_s':
        keep.append((slots[op[2]]))
        slots[op[1]] = slots[op[2]] + mk(a, op[3])
    else:
        slots[op[1]] = slots[op[2]] + slots[op[3]]


def union(x, y):
    return x + [e for e in y if e not in x]


def apply_model(m, op):
    m = [list(x) for x in m]
    if op[0] == 'iadd_s':
        m[op[1]] = union(m[op[1]], [op[2]])
    elif op[0] == 'iadd_b':
        m[op[1]] = union(m[op[1]], m[op[2]])
    elif op[0] == 'add_s':
        m[op[1]] = union(m[op[2]], [op[3]])
    else:
        m[op[1]] = union(m[op[2]], m[op[3]])
    return m


def compare(a, b, want, hist, ctx):
    ctx.step()
    strs = [mk(a, s) for s in range(3)]
    got = [str(x) for x in b]
    check(got == [str(strs[s]) for s in want], 'after {}: basis holds {}, expected {}', hist, got, want)
    check(len(b) == len(want), 'after {}: len {} expected {}', hist, len(b), len(want))
    for s in range(3):
        check((strs[s] in b) == (s in want), 'after {}: membership of {} is {}', hist, ALPH[a][s], strs[s] in b)
        if s in want:
            i = want.index(s)
            check(b.index(strs[s]) == i, 'after {}: index of {} is {}', hist, ALPH[a][s], b.index(strs[s]))
            check(b[i] == strs[s] and b[i - len(want)] == strs[s], 'after {}: item {} is wrong', hist, i)
        else:
            try:
                b.index(strs[s])
                check(False, 'after {}: index of a missing string returned', hist)
            except KeyError:
                pass
    fresh = qy.Basis([strs[s] for s in want])
    check(b == fresh and fresh == b, 'after {}: not equal to a fresh basis with the same content', hist)
    check(str(b) == str(fresh), 'after {}: prints differently from a fresh basis', hist)
    if len(want) > 1:
        rev = qy.Basis([strs[s] for s in want[::-1]])
        check(not (b == rev), 'after {}: equal to the reversed basis', hist)
    if want:
        check(not (b == qy.Basis([strs[s] for s in want[:-1]])), 'after {}: equal to a shorter basis', hist)
        try:
            qy.Basis([strs[s] for s in want] + [mk(a, want[0])])
            check(False, 'a basis with a repeated string was accepted')
        except ValueError:
            pass
    ctx.state((a, tuple(want)))


def one(a, init, seq, ctx):
    m = [list(x) for x in INITS[init]]
    slots = [qy.Basis([mk(a, s) for s in x]) for x in m]
    if not m[0]:
        slots[0] = qy.Basis()
    hist = []
    olds = []
    for oi in seq:
        op = OPS[oi]
        before = list(slots)
        mb = [list(x) for x in m]
        apply_real(a, slots, op, [])
        m = apply_model(m, op)
        hist.append(op)
        for x, w in zip(before, mb):
            if all(x is not s for s in slots):
                olds.append((x, w))
    for k in (0, 1):
        compare(a, slots[k], m[k], hist, ctx)
    # bases replaced by the result of + keep the content they had
    for x, w in olds:
        check([str(y) for y in x] == [str(mk(a, s)) for s in w] and len(x) == len(w),
              'after {}: an operand of + changed', hist)
    ctx.outcome((len(m[0]), len(m[1])))


def family(t):
    if t == 'F':
        out = [qy.OperatorString(['CDag'] * len(a) + ['C'] * len(b), list(a) + list(b), 'Fermion') for a, b in FERM]
    else:
        out = [qy.OperatorString(list(o), list(l), TYPES[t]) for o, l in ref.strings('XYZ' if t == 'P' else 'ABD', (1, 2, 10, 300))]
    return out


FERM = [(a, b) for i in range(4) for j in range(4) for a in it.combinations((1, 2, 3, 10, 300), i) for b in list(it.combinations((300, 10, 3, 2, 1), j)) if i + j and (i, a) >= (j, b[::-1])]


def grow(t, order, block, ctx):
    """bases of hundreds of strings"""
    fam, again = family(t), family(t)
    n = len(fam)
    check(len({str(x) for x in fam}) == n, 'the strings print alike')
    perm = list(range(n))
    if order & 1:
        perm = perm[::-1]
    if order & 2:
        perm = [i for r in range(5) for i in perm[r::5]]
    b = qy.Basis()
    want, pos = [], {}
    held = []
    for k in range(0, n, block):
        new = perm[k:k + block]
        # strings that are already there come along
        old = want[::17][:5] if order & 4 else []
        add = [x for pair in it.zip_longest(old, new) for x in pair if x is not None]
        kind = (k // block) % 4
        if kind == 3:
            held.append((b, len(want)))
        if kind == 0 or len(set(add)) < len(add):
            for x in add:
                b += again[x]
        elif kind == 1:
            b += qy.Basis([again[x] for x in add])
        elif kind == 2:
            # (strings one by one, new objects)
            for x in add:
                b = b + again[x]
        else:
            b = b + qy.Basis([fam[x] for x in add])
        for x in add:
            if x not in pos:
                pos[x] = len(want)
                want.append(x)
        ctx.step()
        what = 'basis of {} {} strings: '.format(len(want), TYPES[t])
        check(len(b) == len(want), what + 'length {}', len(b))
        last = min(len(want), 2 * len(add) + 3)
        full = k % (8 * block) == 0 or k + block >= n
        for x in (want if full else want[-last:] + want[:3]):
            check(fam[x] in b and b.index(again[x]) == pos[x] and b[pos[x]] == fam[x], what + '{} is not at {}', fam[x], pos[x])
        for x in (perm[k + block:] if full else perm[k + block:k + block + 3]):
            check(fam[x] not in b, what + '{} is in it', fam[x])
        if full:
            check([str(x) for x in b] == [str(fam[x]) for x in want], what + 'wrong order')
            fresh = qy.Basis([again[x] for x in want])
            check(b == fresh and fresh == b and str(b) == str(fresh), what + 'not equal to a fresh one')
            if len(want) > 1:
                sw = list(want)
                sw[-1], sw[-2] = sw[-2], sw[-1]
                check(not b == qy.Basis([again[x] for x in sw]), what + 'equal to another order')
            check(not b == qy.Basis([again[x] for x in want[:-1]]), what + 'equal to a part of it')
            try:
                qy.Basis([again[x] for x in want] + [fam[want[len(want) // 2]]])
                check(False, what + 'a repeated string was accepted')
            except ValueError:
                pass
        ctx.state((t, order, len(want)))
    for o, m in held:
        check(len(o) == m and [str(x) for x in o] == [str(fam[x]) for x in want[:m]], 'an operand of + changed')


def run(case, ctx):
    if case[0] == 'grow':
        return grow(case[1], case[2], case[3], ctx)
    a, init, pre, d = case
    if len(pre) and pre[0] == 0:
        one(a, init, [], ctx)
    one(a, init, pre, ctx)
    for n in range(1, d + 1):
        for seq in it.product(range(len(OPS)), repeat=n):
            one(a, init, list(pre) + list(seq), ctx)
