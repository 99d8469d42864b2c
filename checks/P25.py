"""The searches for commuting operators report what they found."""
import copy
import itertools as it
import numpy as np
from scipy.sparse.linalg import ArpackNoConvergence
import qosy as qy
from qosy import algorithms
from mc import ref
from mc.harness import check

ID = 'P25'
BOUND = {
    'quick': 'five search functions x 12 Hamiltonians (Heisenberg, Ising, random-field, Majorana hopping and interacting, 2-4 sites) x all strings of weight '
             '<=2 (one per type on 3-4 sites) and 4 superpositions as initial operators x 0..4 steps (each with every kind of truncation: none, 1, 2, 5 strings, two thresholds) '
             'with empty, reused and foreign explored data; several commuting operators, orthogonality and symmetry constraints, filters; three many-operator runs; long runs up to bases of more than 20 strings',
    'thorough': 'all initial strings on 3 sites, 6 steps',
}
CHUNK = 1
ORBS = {2: (0, 1), 3: (0, 1, 2), 4: (0, 1, 2, 3)}


def S(t, *x):
    return qy.opstring(' '.join(str(y) for y in x) if x else 'I', t)


def hams():
    P = 'Pauli'
    M = 'Majorana'
    xxz = lambda n, jz, per=False: [(c, S(P, o, i, o, (i + 1))) for i in range(n - 1) for o, c in zip('XYZ', (1.0, 1.0, jz))]
    return [
        (P, 2, xxz(2, 1.0)),
        (P, 3, xxz(3, 1.0)),
        (P, 3, xxz(3, 0.5) + [(0.3, S(P, 'Z', 0)), (-0.7, S(P, 'Z', 1)), (1.1, S(P, 'Z', 2))]),
        (P, 3, [(1.0, S(P, 'Z', i, 'Z', i + 1)) for i in range(2)] + [(0.5, S(P, 'X', i)) for i in range(3)]),
        (P, 4, [(1.0 + 0.1 * i, S(P, 'Z', i, 'Z', i + 1)) for i in range(3)] + [(0.5, S(P, 'X', i)) for i in range(4)]),
        (P, 2, [(1.0, S(P, 'Z', 0)), (2.0, S(P, 'Z', 1))]),
        (M, 3, [(1.0, S(M, 'A', 0, 'B', 1)), (0.5, S(M, 'A', 1, 'B', 2)), (0.25, S(M, 'D', 1))]),
        (M, 3, [(1.0, S(M, 'D', 0, 'D', 1)), (0.5, S(M, 'A', 1, 'A', 2)), (0.7, S(M, 'B', 0, 'B', 1)), (1.0, S(M, 'D', 2))]),
        (P, 3, [(2.0, S(P, 'X', 0, 'Y', 2)), (1.0, S(P, 'Y', 1))]),
        (P, 2, xxz(2, 0.0) + [(0.4, S(P, 'X', 0)), (0.9, S(P, 'Z', 1))]),
        (P, 2, [(1.0, S(P, 'Z', 0, 'Z', 1)), (-0.5, S(P, 'X', 0)), (-0.5, S(P, 'X', 1))]),
        (M, 2, [(1.0, S(M, 'A', 0, 'B', 1)), (0.6, S(M, 'B', 0, 'A', 1)), (0.8, S(M, 'D', 0, 'D', 1))]),
    ]


def inits(t, n, tier):
    al = 'XYZ' if t == 'Pauli' else 'ABD'
    fam = ref.strings(al, range(n), 0, 2)
    if n >= 3 and tier == 'quick':
        fam = [f for f in fam if sum(f[1]) + sum(map(ord, f[0])) + 3 * len(f[0]) in (0,) or
               (len(f[1]) == 1 and f[1][0] == 1) or (len(f[1]) == 2 and f[1] == (0, 1) and f[0][0] <= f[0][1]) or f[0] == (al[2], al[0])]
    out = [[(1.0, f)] for f in fam]
    one = ref.strings(al, range(n), 1, 1)
    out.append([(1.0, one[0]), (0.5, one[-1])])
    out.append([(-0.3, one[2]), (0.3, one[5])])
    out.append([(1.0, one[2]), (0.9, fam[-1]), (0.1, one[3])])
    out.append([(1.0, f) for f in one])
    return out


TRUNC = [{}, {'max_basis_size': 1}, {'max_basis_size': 2}, {'max_basis_size': 5, 'threshold': 1e-3}, {'threshold': 0.3}]
FUNS = ['selected_ci', 'selected_ci_simple', 'selected_ci_sweep', 'selected_ci_greedy_simple', 'selected_ci_greedy']


def cases(tier):
    H = hams()
    for h, (t, n, _) in enumerate(H):
        for f in range(len(FUNS)):
            if FUNS[f] == 'selected_ci_simple' and n > 2:
                continue        # (ARPACK without shift-invert need not converge for 20 strings and more)
            for i in range(len(inits(t, n, tier))):
                yield ['run', f, h, i, tier]
    for h in range(len(H)):
        for i in range(len(inits(H[h][0], H[h][1], 'quick'))):
            yield ['opts', h, i]
        yield ['many', h]
    for h in range(len(H)):
        if H[h][1] > 2:
            for i in range(len(inits(H[h][0], H[h][1], 'quick'))):
                yield ['large', h, i]
    yield ['errors']


_ref = {}


class Alg:
    """reference: coefficient algebra of one string type on n orbitals"""

    def __init__(self, t, n):
        self.orbs = ORBS[n]
        self.n = n
        fam = ref.strings('XYZ' if t == 'Pauli' else 'ABD', self.orbs)
        self.strings = [qy.OperatorString(list(o), list(l), t) for o, l in fam]
        self.keys = [ref.key(s) for s in self.strings]
        self.pos = {k: i for i, k in enumerate(self.keys)}
        self.M = np.array([ref.mat(s, self.orbs).ravel() for s in self.strings])
        self.m = [ref.mat(s, self.orbs) for s in self.strings]

    def coeffs(self, m):
        return self.M.conj() @ m.ravel() / 2 ** self.n

    def liou(self, h):
        """matrix of O -> [H,O] in the complete string basis"""
        return np.array([self.coeffs(h @ x - x @ h) for x in self.m]).T


def alg(t, n):
    if (t, n) not in _ref:
        _ref[t, n] = Alg(t, n)
    return _ref[t, n]


class Setup:
    def __init__(self, h):
        self.t, self.n, self.terms = hams()[h]
        self.a = alg(self.t, self.n)
        self.hm = ref.combo([c for c, _ in self.terms], [ref.mat(s, self.a.orbs) for _, s in self.terms], self.n)
        self.L = self.a.liou(self.hm)
        self.step1 = {}

    def H(self):
        return qy.Operator([c for c, _ in self.terms], [s for _, s in self.terms])

    def expand(self, keys, terms=None):
        """strings in the commutators of the strings with the terms of H"""
        out = set()
        for k in keys:
            i = self.a.pos[k]
            if i not in self.step1:
                g = []
                for _, s in self.terms:
                    sm = ref.mat(s, self.a.orbs)
                    c = self.a.coeffs(sm @ self.a.m[i] - self.a.m[i] @ sm)
                    g.append({self.a.keys[j] for j in np.nonzero(np.abs(c) > 1e-9)[0]})
                self.step1[i] = g
            for g in self.step1[i]:
                out |= g
        return out


_setups = {}


def setup(h):
    if h not in _setups:
        _setups[h] = Setup(h)
    return _setups[h]


def init(st, i, tier):
    spec = inits(st.t, st.n, tier)[i]
    return qy.Operator([c for c, _ in spec], [qy.OperatorString(list(o), list(l), st.t) for _, (o, l) in spec])


def dump(op):
    return [(complex(c), ref.key(s)) for c, s in op]


def vec(st, op):
    v = np.zeros(len(st.a.keys), dtype=complex)
    for c, s in op:
        check(ref.key(s) in st.a.pos, 'foreign string {}', s)
        v[st.a.pos[ref.key(s)]] += c
    return v


def trunc(keys, coeffs, size, thr):
    """(strings certainly kept, strings possibly kept) by the truncation"""
    a = np.abs(coeffs)
    order = sorted(range(len(a)), key=lambda j: -a[j])
    poss = [j for j in order if a[j] > thr * (1 - 1e-6) - 1e-13]
    sure = [j for j in poss if a[j] > thr * (1 + 1e-6) + 1e-13]
    if len(sure) > size:
        cut = a[sure[size]]
        cut0 = a[sure[size - 1]]
        sure = [j for j in sure[:size] if a[j] > cut + 1e-9]
        poss = [j for j in poss if a[j] > cut0 - 1e-9]
    return {keys[j] for j in sure}, {keys[j] for j in poss}


def greedy_strings(st, op):
    """The strings that the simple greedy search may add to the basis of an operator O: of the terms A of [H,O],
    from the largest coefficient to the smallest, the first for which [H,A] has strings that are not in the basis
    gives the one of these with the largest coefficient. (Any choice is fine among coefficients of equal size.)"""
    keys = {ref.key(s) for _, s in op}
    c = np.abs(st.L @ vec(st, op))
    A = sorted(st.expand(keys), key=lambda k: -c[st.a.pos[k]])
    out, cut = set(), None
    for a in A:
        x = c[st.a.pos[a]]
        if cut is not None and x < cut - 1e-8:
            break
        col = np.abs(st.L[:, st.a.pos[a]])
        new = [b for b in st.expand([a]) if b not in keys]
        if new:
            m = max(col[st.a.pos[b]] for b in new)
            out |= {b for b in new if col[st.a.pos[b]] > m - 1e-8}
            cut = x if cut is None else cut
    return out


def judge(fun, st, out, op0, kw, steps, what, ctx, L=None, tol=1e-7, minimal=True, grow=True):
    what = what.replace('{', '{{').replace('}', '}}')
    best, bestn, ops, norms = out
    L = st.L if L is None else L
    ctx.step(1 + len(ops))
    check(len(ops) == len(norms), what + '{} operators and {} norms', len(ops), len(norms))
    if fun != 'selected_ci_sweep':
        check(len(ops) <= steps, what + '{} operators in {} steps', len(ops), steps)
    check((len(ops) > 0) == (steps > 0), what + '{} operators in {} steps', len(ops), steps)
    prev = op0
    for k, (o, c) in enumerate(zip(ops, norms)):
        keys = [ref.key(s) for _, s in o]
        v = vec(st, o)
        w = what + 'operator {}: '.format(k)
        check(abs(np.linalg.norm(v) - 1) < 1e-8, w + 'norm {}', np.linalg.norm(v))
        r = np.linalg.norm(st.L @ v) ** 2
        check(abs(r - c) <= tol * max(1, r), w + 'reported |[H,O]|^2 = {}, it is {}', c, r)
        idx = [st.a.pos[x] for x in keys]
        if minimal:
            A = L[:, idx]
            ev = np.linalg.eigvalsh((A.conj().T @ A).real)
            r2 = np.linalg.norm(L @ v) ** 2
            check(r2 <= ev[0] + tol * max(1, abs(ev[0])), w + '|[H,O]|^2 = {} but {} is possible in its basis {}', r2, ev[0], keys)
        # growth of the basis
        pk = [ref.key(s) for _, s in prev]
        size, thr = kw.get('max_basis_size', 100), kw.get('threshold', 1e-6)
        if k == 0 or fun == 'selected_ci_greedy_simple':
            sure = poss = set(pk)
        else:
            sure, poss = trunc(pk, prev.coeffs, size, thr)
            if fun == 'selected_ci_greedy':
                # (it lowers the threshold when the result gets worse)
                poss = trunc(pk, prev.coeffs, size, thr / 2 ** k)[1]
        if grow:
            ks = set(keys)
            check(sure <= ks, w + 'strings {} of the previous operator are lost', sure - ks)
            if fun == 'selected_ci':
                f = lambda x: x | st.expand(st.expand(x))
            elif fun == 'selected_ci_simple':
                f = lambda x: x | st.expand(x) | st.expand(x | st.expand(x))
            else:
                f = None
            if f:
                check(f(sure) <= ks <= f(poss), w + 'its basis is {}, expected {}', ks, f(sure))
            elif fun != 'selected_ci_sweep':
                check(ks <= poss | st.expand(st.expand(poss)) or not minimal, w + 'the basis {} has unrelated strings', ks)
            if fun == 'selected_ci_greedy_simple':
                new = ks - set(pk)
                check(len(new) <= 1, w + '{} new strings', len(new))
                want = greedy_strings(st, prev)
                if want:
                    check(new and new <= want, w + 'the new string is {}, expected one of {}', new, want)
                else:
                    check(not new, w + 'the basis was complete, but {} was added', new)
        prev = o
        ctx.state((fun, tuple(keys)))
    if fun == 'selected_ci_greedy_simple' and 0 < len(ops) < steps:
        check(not greedy_strings(st, ops[-1]), what + 'it stopped after {} steps, although {} could be added', len(ops), greedy_strings(st, ops[-1]))
    if ops:
        m = min(norms)
        check(abs(bestn - m) <= 1e-12 + 1e-9 * abs(m), what + 'best norm {} of {}', bestn, norms)
        r = np.linalg.norm(st.L @ vec(st, best)) ** 2
        check(abs(r - m) <= tol * max(1, abs(m)), what + 'the best operator has |[H,O]|^2 = {}, reported {}', r, m)
        check(any(dump(best) == dump(o) for o in ops), what + 'the best operator is not one of those found')
    else:
        check(dump(best) == dump(op0), what + 'without steps, the initial operator is the result')
    ctx.outcome((fun, len(ops), round(float(bestn), 3) if ops else None))


def run(case, ctx):
    kind = case[0]
    if kind == 'run':
        _, f, h, i, tier = case
        fun, st = FUNS[f], setup(h)
        call = getattr(algorithms, fun)
        depth = (2 if fun == 'selected_ci_sweep' else 3) if tier == 'quick' else 6
        cached = fun != 'selected_ci_simple'
        for kt, kw in enumerate(TRUNC):
            for steps in range(depth + 1):
                if steps < depth and kt not in (0, 3):
                    continue
                for mode in ((0, 1, 2) if cached and steps == depth else (0,)):
                    op0, H = init(st, i, tier), st.H()
                    if mode and (not len(op0) or st.n > 3):
                        continue
                    if fun in ('selected_ci_sweep',) and not any(len(s.orbital_labels) for _, s in op0):
                        continue
                    d0, dH = dump(op0), dump(H)
                    k = dict(kw)
                    data = (qy.Basis(), qy.Basis(), dict())
                    if mode:
                        k['explored_data'] = data
                        if mode == 2:
                            o2, t2 = st.terms[-1]
                            pre = qy.Operator([1.0, 2.0], [S(st.t, 'XA'[st.t == 'Majorana'], 0), t2])
                            algorithms.selected_ci_greedy(init(st, i, tier), pre, 2, explored_data=data, verbose=False)
                        else:
                            call(init(st, i, tier), st.H(), 1, **k)
                    what = '{}({}, H{}, {}, {}, mode {}): '.format(fun, d0, h, steps, kw, mode)
                    out = call(op0, H, steps, **k)
                    check(dump(op0) == d0 and dump(H) == dH, what + 'an argument was modified')
                    judge(fun, st, out, op0, kw, steps, what, ctx)
    elif kind == 'opts':
        _, h, i = case
        st = setup(h)
        g = algorithms.selected_ci_greedy
        # several operators
        op0 = init(st, i, 'quick')
        d0 = dump(op0)
        u, v = st.terms[0][1], S(st.t, 'YB'[st.t == 'Majorana'], 1)
        other = qy.Operator([0.5, 1.0], [u, v])
        om = 0.5 * ref.mat(u, st.a.orbs) + ref.mat(v, st.a.orbs)
        Lo = st.a.liou(om)
        for steps in (1, 2, 3):
            what = 'selected_ci_greedy({}, [H{}, {}], {}): '.format(d0, h, dump(other), steps)
            out = g(op0, [st.H(), other], steps, verbose=False)
            check_sum(st, out, np.vstack([st.L, Lo]), what, ctx)
        # orthogonality
        orth = init(st, (i + 1) % len(inits(st.t, st.n, 'quick')), 'quick')
        orth.normalize()
        if i != len(inits(st.t, st.n, 'quick')) and len(op0):
            for steps in (1, 2):
                what = 'selected_ci_greedy({}, H{}, {}, orth_ops=[{}]): '.format(d0, h, steps, dump(orth))
                _, _, ops, norms = g(op0, st.H(), steps, verbose=False, orth_ops=[orth], num_H_terms=4)
                ov = vec(st, orth)
                for o, c in zip(ops, norms):
                    x = vec(st, o)
                    ctx.step()
                    idx = [st.a.pos[ref.key(s)] for _, s in o]
                    pr = ov[idx]
                    r = np.linalg.norm(st.L @ x) ** 2
                    check(abs(r - c) <= 1e-4 * max(1, r), what + 'reported |[H,O]|^2 = {}, it is {}', c, r)
                    if ref.rank(np.eye(len(idx)) - np.outer(pr, pr.conj()) / max(1e-300, np.vdot(pr, pr).real)) >= 1 and \
                            (len(idx) > 1 or np.abs(pr).max() < 1e-12):
                        check(abs(np.vdot(ov, x)) < 1e-6, what + 'overlap {} with the given operator', np.vdot(ov, x))
                        # the smallest norm orthogonal to it
                        if np.linalg.norm(pr) > 1e-9:
                            q = np.linalg.svd(pr.reshape(1, -1).real if np.abs(pr.imag).max() < 1e-12 else pr.reshape(1, -1))[2][1:].conj().T
                        else:
                            q = np.eye(len(idx))
                        A = st.L[:, idx] @ q
                        ev = np.linalg.eigvalsh((A.conj().T @ A).real)
                        check(abs(ev[0] - c) <= 1e-4 * max(1, ev[0]), what + '|[H,O]|^2 = {} but {} is possible', c, ev[0])
        # symmetry
        if st.n == 3 and st.t == 'Pauli':
            T = qy.label_permutation(np.array([2, 1, 0]))
            for steps in (1, 2):
                what = 'selected_ci_greedy({}, H{}, {}, reflection): '.format(d0, h, steps)
                _, _, ops, norms = g(op0, st.H(), steps, verbose=False, transformations=[T], num_H_terms=2, max_basis_size=6)
                for o, c in zip(ops, norms):
                    x = vec(st, o)
                    ctx.step()
                    pm = {}
                    for cc, s in o:
                        kk = ref.key(s)
                        pairs = sorted((2 - l, q) for l, q in zip(kk[2], kk[1]))
                        pm[(kk[0], tuple(q for _, q in pairs), tuple(l for l, _ in pairs), kk[3])] = cc
                    y = np.zeros_like(x)
                    for kk, cc in pm.items():
                        y[st.a.pos[kk]] = cc
                    idx = [st.a.pos[ref.key(s)] for _, s in o]
                    check(set(idx) == {st.a.pos[kk] for kk in pm}, what + 'the basis is not closed under the transformation')
                    # an invariant operator exists in every reflected pair
                    check(np.linalg.norm(x - y) < 1e-4, what + 'not invariant')
                    r = np.linalg.norm(st.L @ x) ** 2
                    check(abs(r - c) < 1e-4 * max(1, r), what + 'reported |[H,O]|^2 = {}, it is {}', c, r)
        # truncation by a filter and choice by a filter
        def last(evals, evecs, basis):
            return evecs[:, -1], evals[-1]
        what = 'selected_ci({}, H{}, 2, filter_fun=last): '.format(d0, h)
        out = algorithms.selected_ci(op0, st.H(), 2, filter_fun=last)
        judge('selected_ci', st, out, op0, {}, 2, what, ctx, minimal=False, grow=False)
        check(dump(op0) == d0, 'the initial operator was modified')
    elif kind == 'large':
        # bases of more than 20 strings, up to the complete ones
        st = setup(case[1])
        for fun, steps in (('selected_ci_simple', 3), ('selected_ci_greedy_simple', 26)):
            op0 = init(st, case[2], 'quick')
            d0 = dump(op0)
            what = '{}({}, H{}, {}): '.format(fun, d0, case[1], steps)
            try:
                out = getattr(algorithms, fun)(op0, st.H(), steps)
            except ArpackNoConvergence:
                continue    # (ARPACK without shift-invert need not converge)
            check(dump(op0) == d0, what + 'the initial operator was modified')
            judge(fun, st, out, op0, {}, steps, what, ctx)
            ctx.outcome((fun, 'large', len(out[2][-1]) >= 20))
    elif kind == 'many':
        st = setup(case[1])
        al = 'XYZ' if st.t == 'Pauli' else 'ABD'
        ops0 = [qy.Operator([1.0], [S(st.t, al[2], 0)]), qy.Operator([1.0], [S(st.t, al[0], 0, al[0], 1)])]
        for steps in (1, 2):
            ops, norms = algorithms.selected_ci_greedy_many_ops(ops0, st.H(), steps, verbose=False, num_H_terms=4)
            check(len(ops) == len(norms) == steps and all(len(o) == 2 for o in ops), 'wrong number of results')
            for so, sn in zip(ops, norms):
                for o, c in zip(so, sn):
                    ctx.step()
                    r = np.linalg.norm(st.L @ vec(st, o)) ** 2
                    check(abs(r - c) <= 1e-4 * max(1, r), 'many_ops H{}: reported |[H,O]|^2 = {}, it is {}', case[1], c, r)
    elif kind == 'errors':
        st = setup(0)
        for bad in (3, [], 'X', [1]):
            try:
                algorithms.selected_ci_greedy(init(st, 1, 'quick'), bad, 1, verbose=False)
            except Exception:
                ctx.step()
                continue
            check(False, 'selected_ci_greedy accepted {!r}', bad)


def check_sum(st, out, L, what, ctx):
    best, bestn, ops, norms = out
    ctx.step(1 + len(ops))
    for o, c in zip(ops, norms):
        v = vec(st, o)
        idx = [st.a.pos[ref.key(s)] for _, s in o]
        check(abs(np.linalg.norm(v) - 1) < 1e-8, what + 'norm')
        A = L[:, idx]
        ev = np.linalg.eigvalsh((A.conj().T @ A).real)
        r = np.linalg.norm(L @ v) ** 2
        check(r <= ev[0] + 1e-7 * max(1, ev[0]), what + 'sum of norms {}, but {} is possible', r, ev[0])
        r = np.linalg.norm(st.L @ v) ** 2
        check(abs(r - c) <= 1e-7 * max(1, r), what + 'reported |[H,O]|^2 = {}, it is {}', c, r)
    if ops:
        check(abs(bestn - min(norms)) < 1e-10, what + 'best norm {} of {}', bestn, norms)
