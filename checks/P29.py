"""The greedy search follows the largest terms and honours targets and stopping rules."""
import itertools as it
import numpy as np
import qosy as qy
from qosy import algorithms
from mc import ref
from mc.harness import check
from checks import P25
from checks.P25 import S, Setup, dump, vec

ID = 'P29'
BOUND = {
    'quick': 'selected_ci_greedy: 12 Hamiltonians with regular and with irregular coefficients (2-4 sites, Pauli and Majorana) x initial operators '
             '(all weight<=2 strings on 2 sites, a third on more, superpositions) x 4-5 numbers of terms (also lists) x 5 truncations (also lists), 3 steps, every step compared '
             'with a reference step; two targets x 4 fidelities, 4 stopping norms, 3 relative changes, 3 numbers of anticommutators, two operators, a reflection, in 2 truncations; '
             'highest_fidelity_operator: all sets of columns of 5 unitary matrices x 14 targets; searches for 1 to 3 operators at once and one after the other (also with lists of sizes, shared data and constraints); '
             'four kinds of constraints in bases of up to 60 strings; target fidelities that need up to 60 of 130 eigenvectors',
    'thorough': 'all initial strings, 5 steps, all options in all truncations',
}
CHUNK = 1
EPS = 1e-7
_c = {}


def setup(h, irr):
    if (h, irr) not in _c:
        st = Setup(h)
        if irr:
            st.terms = [(c * (1 + 0.1372 * j + 0.0311 * j * j), s) for j, (c, s) in enumerate(st.terms)]
            st.hm = ref.combo([c for c, _ in st.terms], [ref.mat(s, st.a.orbs) for _, s in st.terms], st.n)
            st.L = st.a.liou(st.hm)
            st.step1 = {}
        _c[h, irr] = st
    return _c[h, irr]


def other(st):
    """a second operator: (qosy operator, its matrix of O -> [.,O], expansion)"""
    terms = [(0.5, st.terms[0][1]), (1.25, S(st.t, 'YB'[st.t == 'Majorana'], 1))]
    o = Setup.__new__(Setup)
    o.t, o.n, o.terms, o.a = st.t, st.n, terms, st.a
    o.hm = ref.combo([c for c, _ in terms], [ref.mat(s, st.a.orbs) for _, s in terms], st.n)
    o.L = st.a.liou(o.hm)
    o.step1 = {}
    return o


def inits(st, tier):
    a = P25.inits(st.t, st.n, tier)
    if tier == 'quick' and st.n > 2:
        a = a[::3] + a[-4:]
    return a


GROW = [dict(num_H_terms=k, max_basis_size=m, threshold=t) for k in (1, 2, 3, 10, [1, 3, 2, 5, 4])
        for m, t in ((100, 1e-6), (2, 1e-6), (3, 1e-6), (5, 0.2), ([4, 1, 3, 2, 5], 1e-3))]


def options():
    out = []
    for tg in ('init', 'mix'):
        for f in (None, 0.5, 0.9, 0.999):
            out.append({'target': tg, 'target_fidelity': f})
    for x in (0.0, 0.4, 2.0, 100.0):
        out.append({'target_com_norm': x})
    for x in (1e-3, 0.3, 0.95):
        out.append({'min_relative_change': x})
    for x in (1, 2, 5):
        out.append({'num_O_terms': x})
    out.append({'two': True})
    out.append({'reflect': True})
    out.append({'two': True, 'target': 'mix'})
    out.append({'reflect': True, 'target': 'mix'})
    out.append({'return_final_params': True, 'num_vecs': 3, 'sigma': -1e-6})
    return out


def cases(tier):
    yield ['fid']
    for h in range(len(P25.hams())):
        for irr in (0, 1):
            for i in range(len(inits(setup_light(h), tier))):
                yield ['grow', h, irr, i, tier]
                if irr or tier == 'thorough':
                    yield ['opts', h, irr, i, tier]
    for h in range(len(P25.hams())):
        yield ['many2', h, tier]
        yield ['many1', h]
    for h in (2, 3, 4, 7):
        for irr in (0, 1):
            for i in range(len(inits(setup_light(h), 'quick'))):
                yield ['large', h, irr, i]


    for i in range(len(RETRY)):
        yield ['retry', i]


# (Hamiltonian, initial operator, numbers of terms)
RETRY = [(j, ini, nH) for j in (0, 1) for ini in ((('Z', (1,)),), (('XX', (0, 1)), ('Z', (2,))), (('Y', (3,)), ('ZZ', (0, 3)), ('X', (2,)))) for nH in ([5, 15, 30], [5, 30, 30], [4, 60, 60])]


def retry(ini, ctx):
    """targets that need more eigenvectors: as few as possible are used"""
    j, spec, nH = ini
    orbs = (0, 1, 2, 3)
    a = P25.alg('Pauli', 4)
    terms = []
    for i in range(4):
        if i < 3:
            terms += [(c * (1 + 0.1 * i), S('Pauli', o, i, o, i + 1)) for o, c in zip('XYZ', (1.0, 0.8, 0.6))]
        terms += [(0.3 + 0.2 * i, S('Pauli', 'Z', i)), (0.37 - 0.2 * i + 0.11 * j, S('Pauli', 'X', i))]
        if j:
            terms.append((0.13 + 0.05 * i * i, S('Pauli', 'Y', i)))
    L = a.liou(ref.combo([c for c, _ in terms], [ref.mat(s, orbs) for _, s in terms], 4))
    st = Light()
    st.a = a
    for mb in (100, 8) if max(nH) > 30 else (100, 30, 8):
        for f in (0.3, 0.7, 0.9, 0.999999):
            for nv in (None, 3) if max(nH) <= 30 else (None,):
                mk = lambda: qy.Operator([0.8 ** k for k in range(len(spec))], [qy.OperatorString(list(o), list(l), 'Pauli') for o, l in spec])
                op0, target = mk(), mk()
                target.normalize()
                H = qy.Operator([c for c, _ in terms], [s for _, s in terms])
                what = 'greedy({}, target fidelity {}, num_vecs {}, {} terms, {} kept): '.format(spec, f, nv, nH, mb)
                best, bestn, res, norms, par = algorithms.selected_ci_greedy(op0, H, 3, num_H_terms=nH, max_basis_size=mb, target_operator=target, target_fidelity=f, num_vecs=nv,
                                                                            verbose=False, return_final_params=True)
                check(1 <= len(res) == len(norms) <= 3, what + '{} operators, {} norms', len(res), len(norms))
                k = nv or 1
                tv, bn, sure = vec(st, target), np.inf, True
                for n, (o, c) in enumerate(zip(res, norms)):
                    ctx.step()
                    w = what + 'operator {}: '.format(n)
                    v = vec(st, o)
                    r = np.linalg.norm(L @ v) ** 2
                    check(abs(np.linalg.norm(v) - 1) < 1e-8 and abs(r - c) <= 1e-6 * max(1, r), w + 'reported |[H,O]|^2 = {}, it is {}', c, r)
                    idx = [a.pos[ref.key(s)] for _, s in o]
                    m = len(idx)
                    if sure:
                        ev, V = np.linalg.eigh((L[:, idx].conj().T @ L[:, idx]).real)
                        p = V.conj().T @ tv[idx]
                        cum = np.cumsum(np.abs(p) ** 2)
                        q = m if m < 20 or k >= m else k
                        if n:
                            # as few more as possible; all of them if it cannot be reached
                            while q < m and cum[q - 1] < f:
                                q += 1
                        if q < m and (ev[q] - ev[q - 1] < 1e-6 or (n and any(abs(x - f) < 1e-7 for x in cum[k - 1:q]))):
                            sure = False        # degenerate: several choices are right
                        else:
                            x = np.zeros_like(v)
                            x[idx] = V[:, :q] @ p[:q]
                            x /= np.linalg.norm(x)
                            check(np.linalg.norm(x - v) < 1e-5, w + 'it is not the part of the target in the lowest {} of {} eigenvectors', q, m)
                            failed = cum[q - 1] < f
                            if abs(cum[q - 1] - f) > 1e-9:
                                check((n == len(res) - 1) == (failed or n == 2), w + 'fidelity {}: the search should {}', cum[q - 1], 'stop' if failed or n == 2 else 'continue')
                            if m >= 20:
                                k = max(k, q)
                            ctx.outcome((n, m, q))
                    if abs(c) < bn:
                        bn, tv = abs(c), v
                        if not sure:
                            break
                    ctx.state((what, n, tuple(idx)))
                check(abs(bestn - min(norms)) < 1e-12, what + 'best norm {} of {}', bestn, norms)
                if sure:
                    check(par['num_vecs'] == k, what + '{} eigenvectors reported, {} used', par['num_vecs'], k)


class Light:
    pass


def setup_light(h):
    x = Light()
    x.t, x.n, _ = P25.hams()[h]
    return x


def at(x, k):
    return x[k] if isinstance(x, list) else x


def pick(mags, count):
    """(sure, possible) among {key: magnitude} when the count largest are chosen"""
    if count >= len(mags):
        return set(mags), set(mags)
    if count <= 0:
        return set(), set()
    m = sorted(mags.values(), reverse=True)
    lo, hi = m[count - 1], m[count]
    return {k for k, x in mags.items() if x > hi + EPS}, {k for k, x in mags.items() if x > lo - EPS}


def reflect(st, k):
    pairs = sorted((st.n - 1 - l, q) for l, q in zip(k[2], k[1]))
    return (k[0], tuple(q for _, q in pairs), tuple(l for l, _ in pairs), k[3])


def anti(st, x, y):
    """the string in {x, y}, or None"""
    if 'anti' not in st.__dict__:
        st.anti = {}
    if (x, y) not in st.anti:
        a, b = st.a.m[st.a.pos[x]], st.a.m[st.a.pos[y]]
        c = st.a.coeffs(a @ b + b @ a)
        j = np.nonzero(np.abs(c) > 1e-9)[0]
        st.anti[x, y] = st.a.keys[j[0]] if len(j) else None
    return st.anti[x, y]


def grow(st, basis, op, nH, nO, ops, refl):
    """reference growth. basis: set, op: {key: coefficient}. Returns (basis certainly, basis possibly, exact)"""
    v = np.zeros(len(st.a.keys), complex)
    for k, c in op.items():
        v[st.a.pos[k]] = c
    w = st.L @ v
    ext1 = st.expand(basis)
    sure, poss = pick({k: abs(w[st.a.pos[k]]) for k in ext1}, min(len(ext1), nH))
    exact = sure == poss
    A = poss
    wA = np.zeros_like(w)
    for k in A:
        wA[st.a.pos[k]] = w[st.a.pos[k]]
    lo, hi = set(basis), set(basis)
    for o in ops:
        ext2 = o.expand(A)
        c2 = np.abs(o.L @ wA)
        if exact:
            new = {k: c2[st.a.pos[k]] for k in ext2 - lo}
            s, p = pick(new, min(len(ext2), nH, len(new)))
            lo, hi = lo | s, hi | p
            exact = s == p
        else:
            hi = hi | ext2
    if nO:
        mags = sorted(op, key=lambda k: -abs(op[k]))
        gaps = [abs(op[a]) - abs(op[b]) for a, b in zip(mags, mags[1:])]
        if exact and all(g > EPS for g in gaps):
            n = min(len(mags), nO)
            cnt, rem, cur = 0, [], set(lo)
            for x, y in it.product(mags, mags):
                z = anti(st, x, y) if x != y else None
                if cnt < n and z is not None and z not in cur:
                    cur.add(z)
                    rem.append(z)
                    cnt += 1
            cnt = 0
            for x, y in it.product(mags, rem):
                z = anti(st, x, y)
                if cnt < n and z is not None and z not in cur:
                    cur.add(z)
                    cnt += 1
            lo = hi = cur
        else:
            exact = False
            one = {anti(st, x, y) for x in mags for y in mags if x != y} - {None}
            two = {anti(st, x, y) for x in mags for y in one} - {None}
            hi = hi | one | two
    if refl:
        lo, hi = (s | {reflect(st, k) for k in s} for s in (lo, hi))
    return lo, hi, exact


def search(st, spec, steps, kw, opt, what, ctx):
    what = what.replace('{', '{{').replace('}', '}}')
    mk = lambda: qy.Operator([c for c, _ in spec], [qy.OperatorString(list(o), list(l), st.t) for _, (o, l) in spec])
    op0 = mk()
    if not len(op0) or not any(len(s.orbital_labels) for _, s in op0):
        return
    k = dict(kw)
    ops = [st]
    com = st.H()
    if opt.get('two'):
        ops.append(other(st))
        com = [com, ops[1].H()]
    if opt.get('reflect'):
        k['transformations'] = [qy.label_permutation(np.arange(st.n)[::-1].copy())]
    target = None
    if opt.get('target') == 'init':
        target = mk()
    elif opt.get('target') == 'mix':
        one = ref.strings('XYZ' if st.t == 'Pauli' else 'ABD', st.a.orbs, 1, 1)
        target = 0.8 * mk() * (1 / op0.norm()) + qy.Operator([0.48, 0.36], [qy.OperatorString(list(o), list(l), st.t) for o, l in (one[1], one[-1])])
        target.normalize()
    if target is not None:
        k['target_operator'] = target
        dt = dump(target)
    for x in ('target_fidelity', 'target_com_norm', 'min_relative_change', 'num_O_terms', 'return_final_params', 'num_vecs', 'sigma'):
        if x in opt:
            k[x] = opt[x]
    d0 = dump(op0)
    out = algorithms.selected_ci_greedy(op0, com, steps, verbose=False, **k)
    check(dump(op0) == d0, what + 'the initial operator was modified')
    check(target is None or dump(target) == dt, what + 'the target was modified')
    check(len(out) == (5 if opt.get('return_final_params') else 4), what + '{} results', len(out))
    best, bestn, res, norms = out[:4]
    if len(out) == 5:
        check(isinstance(out[4], dict) and out[4]['num_H_terms'] == k['num_H_terms'] and out[4]['sigma'] == k['sigma'] and out[4]['num_vecs'] == k['num_vecs'] and
              out[4]['max_basis_size'] == k['max_basis_size'], what + 'final parameters {}', out[4])
    check(len(res) == len(norms) and 1 <= len(res) <= steps, what + '{} operators, {} norms', len(res), len(norms))
    big = False
    thr = {k['threshold']}
    bc = np.inf                        # best norm so far
    prev = None
    bests = []                         # (norm, vector) of the operators so far
    tol = 1e-4 if opt.get('reflect') else 1e-7
    for j, (o, c) in enumerate(zip(res, norms)):
        w = what + 'operator {}: '.format(j)
        ctx.step()
        keys = [ref.key(s) for _, s in o]
        ks = set(keys)
        v = vec(st, o)
        check(abs(np.linalg.norm(v) - 1) < 1e-8, w + 'norm {}', np.linalg.norm(v))
        r = np.linalg.norm(st.L @ v) ** 2
        check(abs(r - c) <= tol * max(1, r), w + 'reported |[H,O]|^2 = {}, it is {}', c, r)
        # the basis
        if j == 0:
            lo, hi, ex = grow(st, set(ref.key(s) for _, s in op0), {x: z for z, x in d0}, at(k['num_H_terms'], 0), k.get('num_O_terms', 0), ops, opt.get('reflect'))
        else:
            pk = [ref.key(s) for _, s in prev]
            pc = np.asarray(prev.coeffs)
            cand = [P25.trunc(pk, pc, at(k['max_basis_size'], j - 1), t) for t in thr]
            if len(cand) == 1 and cand[0][0] == cand[0][1] and not big:
                sure = cand[0][0]
                lo, hi, ex = grow(st, sure, {x: z for z, x in zip(pc, pk) if x in sure}, at(k['num_H_terms'], j), k.get('num_O_terms', 0), ops, opt.get('reflect'))
            else:
                sure = set.intersection(*(a for a, _ in cand))
                poss = set.union(*(b for _, b in cand))
                e = poss | st.expand(poss)
                e = e | st.expand(e)
                for q in ops:
                    e = e | q.expand(st.expand(poss))
                if k.get('num_O_terms'):
                    one = {anti(st, x, y) for x in poss for y in poss} - {None}
                    e = e | one | ({anti(st, x, y) for x in poss for y in one} - {None})
                if opt.get('reflect'):
                    e = e | {reflect(st, x) for x in e}
                lo, hi, ex = sure, e, False
        check(lo <= ks, w + 'strings {} are missing in its basis {}', lo - ks, ks)
        check(ks <= hi, w + 'strings {} should not be in its basis', ks - hi)
        ctx.outcome((len(ks), ex))
        big = len(ks) >= 20
        # the operator
        idx = [st.a.pos[x] for x in keys]
        check(len(ks) == len(keys), w + 'repeated strings')
        fid = None
        if target is None:
            Lall = np.vstack([q.L for q in ops])
            if opt.get('reflect'):
                y = np.zeros_like(v)
                for x in keys:
                    y[st.a.pos[reflect(st, x)]] = v[st.a.pos[x]]
                check(np.linalg.norm(v - y) < 1e-4, w + 'not invariant')
                P = np.zeros((len(idx), len(idx)))
                for a, x in enumerate(keys):
                    P[keys.index(reflect(st, x)), a] += 1
                u, s, _ = np.linalg.svd(np.eye(len(idx)) + P)
                A = Lall[:, idx] @ u[:, s > 1e-9]
            else:
                A = Lall[:, idx]
            ev = np.linalg.eigvalsh((A.conj().T @ A).real)
            r2 = np.linalg.norm(Lall @ v) ** 2
            check(r2 <= ev[0] + tol * max(1, abs(ev[0])), w + '|[H,O]|^2 = {} but {} is possible in its basis {}', r2, ev[0], keys)
        else:
            fids = []
            for tv in [vec(st, target)] if j == 0 else [x for z, x in bests if z < bc + 1e-9]:
                p = np.zeros_like(tv)
                p[idx] = tv[idx]
                f = np.linalg.norm(p) ** 2
                if f > 1e-12 and (big or np.linalg.norm(p / np.sqrt(f) - v) < tol * 10):
                    fids.append(f)
            check(fids, w + 'it is not the projection of the target')
            fid = fids
        # stopping
        last = j == len(res) - 1
        must = may = False
        if fid is not None and opt.get('target_fidelity') is not None and not big:
            must |= max(fid) < opt['target_fidelity'] - 1e-9
            may |= min(fid) < opt['target_fidelity'] + 1e-9
        if big and opt.get('target_fidelity') is not None:
            may = True
        change = abs(c - bc) / bc if bc not in (0, np.inf) else np.nan
        diff = c - bc
        if opt.get('min_relative_change') is not None and j >= 1:
            m = opt['min_relative_change']
            must |= (diff > 1e-9 or change < m - 1e-6) and bc > 1e-9
            may |= diff > -1e-9 or bool(change < m + 1e-6) or bc < 1e-9
        if diff > 1e-12 and not np.isinf(bc):
            thr = {t / 2 for t in thr}
        elif abs(diff) <= 1e-12:
            thr = thr | {t / 2 for t in thr}
        bc = min(bc, abs(c))
        bests.append((abs(c), v))
        if opt.get('target_com_norm') is not None:
            must |= bc < opt['target_com_norm'] - 1e-9
            may |= bc < opt['target_com_norm'] + 1e-9
        must |= j == steps - 1
        may |= j == steps - 1
        check(last or not must, w + 'the search should have stopped here')
        check(may or not last, w + 'the search stopped without reason')
        prev = o
        ctx.state((tuple(keys), np.round(v, 5).tobytes()))
    check(abs(abs(bestn) - bc) <= 1e-10 + 1e-9 * bc and any(z < bc * (1 + 1e-9) + 1e-10 and np.linalg.norm(vec(st, best) - x) < 1e-12 for z, x in bests),
          what + 'the best operator or norm {} is not that of the steps {}', bestn, norms)


def fid(ctx):
    strs = ref.strings('XYZ', (0, 1), 0, 2)
    for n in (1, 2, 3, 4):
        basis = qy.Basis([qy.OperatorString(list(o), list(l), 'Pauli') for o, l in strs[1:n + 1]])
        rng = np.arange(1, n * n + 1).reshape(n, n)
        us = [np.eye(n), np.eye(n)[:, ::-1], np.linalg.qr(np.cos(rng * rng))[0], np.linalg.qr(np.sin(rng) + 1j * np.cos(rng * rng + 1))[0], np.linalg.qr(np.sin(2.0 ** rng))[0]]
        tg = []
        for c in ([1.0], [0.6, 0.8], [0.3, -0.4, 0.5], [1, 2, 3, 4], [0.5j, 0.5], [1e-3, 1, -1, 1j], [2.0, -2.0]):
            tg.append((c, list(range(1, len(c) + 1))))
            tg.append((c, [5] + list(range(1, len(c)))))
        for u in us:
            for r in range(1, n + 1):
                for cols in it.combinations(range(n), r):
                    for c, where in tg:
                        E = np.ascontiguousarray(u[:, cols])
                        ev = np.array([0.0, 0.7, 2.5, 4.0])[list(cols)]
                        t = qy.Operator(list(c), [qy.OperatorString(list(strs[i][0]), list(strs[i][1]), 'Pauli') for i in where])
                        x = np.zeros(n, complex)
                        for z, i in zip(c, where):
                            if i <= n:
                                x[i - 1] += z
                        over = E.conj().T @ x
                        f = np.vdot(over, over).real
                        if f < 1e-10:
                            continue
                        (v, cn, ff) = algorithms.highest_fidelity_operator(t, E, ev, basis)
                        ctx.step()
                        p = E @ over / np.sqrt(f)
                        cex = np.sum(np.abs(over) ** 2 * ev) / f
                        check(np.allclose(v, p, atol=1e-9), 'highest_fidelity_operator({}, ...): vector {}, expected {}', (c, where, cols), v, p)
                        check(abs(cn - cex) < 1e-9 and abs(ff - f) < 1e-9, 'highest_fidelity_operator({}): norm {}, fidelity {}, expected {}, {}', (c, where, n, cols), cn, ff, cex, f)
                        ctx.state((n, cols, str(c), tuple(where)))


def many2(h, tier, ctx):
    for irr in (0, 1):
        st = setup(h, irr)
        al = 'XYZ' if st.t == 'Pauli' else 'ABD'
        menu = [qy.Operator([1.0], [S(st.t, al[2], 0)]), qy.Operator([1.0], [S(st.t, al[0], 0, al[0], 1)]),
                qy.Operator([0.8, 0.6], [S(st.t, al[1], 1), S(st.t, al[2], 0)])]
        orth = qy.Operator([0.6, 0.8], [S(st.t, al[2], 0), S(st.t, al[0], 0, al[0], 1)])
        for sel in ((0,), (0, 1), (1, 2), (0, 1, 2)):
            for nH, mb in ((1, 100), (3, 4), (2, 3), (10, 5)) + (((40, 100), (40, 12)) if st.n > 2 else ()):
                for con in (None, [orth]):
                    data = (qy.Basis(), qy.Basis(), dict())
                    if nH in (3, 40):
                        # the same after other searches with the same data
                        algorithms.selected_ci_greedy_many_ops2([menu[i] for i in sel][::-1], st.H(), 2, num_H_terms=2, verbose=False, explored_data=data)
                    np.random.seed(7)
                    what = 'many_ops2({}, H{}/{}, nH={}, size={}, {}): '.format(sel, h, irr, nH, mb, 'constrained' if con else 'free')
                    ini = [menu[i] for i in sel]
                    d = [dump(o) for o in ini]
                    out, norms = algorithms.selected_ci_greedy_many_ops2(ini, st.H(), 3, num_H_terms=nH, max_basis_size=mb, verbose=False, orth_ops=con, explored_data=data)
                    check([dump(o) for o in ini] == d, what + 'an argument was modified')
                    check(1 <= len(out) == len(norms) <= 3, what + '{} results', len(out))
                    prev = None
                    for j, (ol, nl) in enumerate(zip(out, norms)):
                        ctx.step()
                        w = what + 'step {}: '.format(j)
                        check(len(ol) == len(nl) == len(sel), w + '{} operators', len(ol))
                        keys = [ref.key(s) for _, s in ol[0]]
                        check(all([ref.key(s) for _, s in o] == keys for o in ol), w + 'different bases')
                        V = np.array([vec(st, o) for o in ol]).T
                        check(np.abs(V.conj().T @ V - np.eye(len(sel))).max() < 1e-6, w + 'not orthonormal')
                        r = np.linalg.norm(st.L @ V, axis=0) ** 2
                        tol = 1e-4 if con else 1e-7
                        check(np.all(np.abs(r - nl) <= tol * np.maximum(1, r)), w + 'reported {}, they are {}', nl, r)
                        idx = [st.a.pos[x] for x in keys]
                        q = np.eye(len(idx))
                        if con:
                            pr = vec(st, orth)[idx]
                            if np.linalg.norm(pr) > 1e-9:
                                q = np.linalg.svd(pr.reshape(1, -1).real)[2][1:].T
                            if q.shape[1] < len(sel):
                                continue
                            check(np.abs(vec(st, orth) @ V).max() < 1e-6, w + 'overlap with the given operator')
                        A = st.L[:, idx] @ q
                        ev = np.linalg.eigvalsh((A.conj().T @ A).real)[:len(sel)]
                        check(np.all(np.abs(ev - nl) <= tol * np.maximum(1, ev)), w + 'norms {}, possible are {}', nl, ev)
                        first = {ref.key(s) for o in ini for _, s in o}
                        if j == 0:
                            check(first <= set(keys) <= first | st.expand(st.expand(first)), w + 'basis {}', keys)
                            check(len(keys) <= len(first) + len(sel) * nH, w + '{} strings', len(keys))
                        else:
                            check(set(keys) <= prev | st.expand(st.expand(prev)), w + 'basis {}', keys)
                            check(len(keys) <= min(mb, len(prev)) + len(sel) * nH, w + '{} strings', len(keys))
                            # strings kept and strings reached by the largest terms
                            if nH == 10 and mb == 5:
                                check(len(set(keys) & prev) >= min(1, len(prev)), w + 'nothing kept')
                        prev = set(keys)
                        ctx.state((what, j, len(keys)))


def many1(h, ctx):
    """several operators, one after the other, each orthogonal to the others"""
    for irr in (0, 1):
        st = setup(h, irr)
        al = 'XYZ' if st.t == 'Pauli' else 'ABD'
        menu = [qy.Operator([1.0], [S(st.t, al[2], 0)]), qy.Operator([1.0], [S(st.t, al[0], 0, al[0], 1)]),
                qy.Operator([0.8, 0.6], [S(st.t, al[1], 1), S(st.t, al[2], 1)])]
        for sel in ((0,), (0, 1), (2, 1), (0, 1, 2), (2, 0)):
            for nH, mb, thr in ((1, 100, 1e-6), (3, 4, 1e-6), ([4, 1, 2], [5, 2, 3], 1e-6), (np.array([2, 5, 3]), np.array([3, 9, 2]), 1e-3), (4, 6, 0.2)) + (((40, 100, 1e-6),) if st.n > 2 else ()):
                what = 'many_ops({}, H{}/{}, nH={}, size={}, threshold={}): '.format(sel, h, irr, nH, mb, thr)
                ini = [menu[i] for i in sel]
                d = [dump(o) for o in ini]
                data = (qy.Basis(), qy.Basis(), dict()) if irr else None
                out, norms = algorithms.selected_ci_greedy_many_ops(ini, st.H(), 3, num_H_terms=nH, max_basis_size=mb, threshold=thr, verbose=False, explored_data=data)
                check([dump(o) for o in ini] == d, what + 'an argument was modified')
                check(len(out) == len(norms) == 3 and all(len(a) == len(b) == len(sel) for a, b in zip(out, norms)), what + 'wrong number of results')
                cur = list(ini)
                for j in range(3):
                    for i in range(len(sel)):
                        ctx.step()
                        w = what + 'step {}, operator {}: '.format(j, i)
                        o, c = out[j][i], norms[j][i]
                        keys = [ref.key(s) for _, s in o]
                        v = vec(st, o)
                        idx = [st.a.pos[x] for x in keys]
                        r = np.linalg.norm(st.L @ v) ** 2
                        check(abs(np.linalg.norm(v) - 1) < 1e-8 and abs(r - c) <= 1e-4 * max(1, r), w + 'reported |[H,O]|^2 = {}, it is {}', c, r)
                        B = np.array([vec(st, q)[idx].real for k, q in enumerate(cur) if k != i]).reshape(-1, len(idx)).T
                        u, sv, _ = np.linalg.svd(B) if B.shape[1] else (np.eye(len(idx)), np.zeros(0), None)
                        q = u[:, int(np.sum(sv > 1e-8)):]
                        if q.shape[1] and not np.any((sv > 1e-11) & (sv <= 1e-8)):
                            check(not B.shape[1] or np.abs(B.T @ v[idx]).max() < 1e-4, w + 'overlap with the other operators')
                            A = st.L[:, idx] @ q
                            z = np.linalg.eigvalsh((A.conj().T @ A).real)[0]
                            check(abs(c - z) < 1e-4 * max(1, z), w + '|[H,O]|^2 = {} but {} is possible', c, z)
                        pk = [ref.key(s) for _, s in cur[i]]
                        if j:
                            size = at(list(mb), j - 1) if not isinstance(mb, int) else mb
                            sure, poss = P25.trunc(pk, cur[i].coeffs, size, thr)
                        else:
                            sure = poss = set(pk)
                        n = nH if isinstance(nH, int) else list(nH)[j]
                        check(sure <= set(keys), w + 'strings {} are lost', sure - set(keys))
                        check(set(keys) <= poss | st.expand(st.expand(poss)), w + 'its basis {} has unrelated strings', keys)
                        check(len(keys) <= len(poss) + n, w + '{} strings', len(keys))
                        if sure == poss:
                            e1 = st.expand(poss)
                            e2 = st.expand(e1)
                            if n >= len(e1):
                                check(len(keys) == len(poss) + min(n, len(e2), len(e2 - poss)), w + '{} strings are added to {}', len(keys) - len(poss), poss)
                        cur[i] = o
                        ctx.state((what, j, i, len(keys)))
                    ctx.outcome(('many', len(sel), max(len(x) for x in cur) >= 20))


def large(st, case, ctx):
    """constraints in bases of many strings"""
    spec = inits(st, 'quick')[case[3]]
    H = st.H()
    H.normalize()
    al = 'XYZ' if st.t == 'Pauli' else 'ABD'
    mix = qy.Operator([0.6, 0.8], [S(st.t, al[2], 0), S(st.t, al[2], 1)])
    cplx = qy.Operator([0.6, 0.8j], [S(st.t, al[2], 0), S(st.t, al[0], 0, al[0], 1)])
    for j, orth in enumerate(([H], [H, mix], [cplx], [H, mix, H], None)):
        kw = dict(orth_ops=orth) if orth else dict(transformations=[qy.label_permutation(np.arange(st.n)[::-1].copy())])
        if not orth and st.t != 'Pauli':
            continue
        op0 = qy.Operator([c for c, _ in spec], [qy.OperatorString(list(o), list(l), st.t) for _, (o, l) in spec])
        what = 'greedy, large basis {}, constraint {}: '.format(case, j)
        for o, c in zip(*algorithms.selected_ci_greedy(op0, st.H(), 3, num_H_terms=20, verbose=False, **kw)[2:]):
            ctx.step()
            keys = [ref.key(s) for _, s in o]
            idx = [st.a.pos[x] for x in keys]
            v = vec(st, o)
            r = np.linalg.norm(st.L @ v) ** 2
            check(abs(np.linalg.norm(v) - 1) < 1e-8 and abs(r - c) < 1e-6 * max(1, r), what + 'reported |[H,O]|^2 = {}, it is {}', c, r)
            if orth:
                B = np.array([f(vec(st, q)[idx]) for q in orth for f in (np.real, np.imag)]).T
            else:
                B = np.eye(len(idx))
                for a, x in enumerate(keys):
                    B[keys.index(reflect(st, x)), a] -= 1
            u, s, _ = np.linalg.svd(B)
            q = u[:, int(np.sum(s > 1e-9)):]
            if q.shape[1]:
                check(np.abs(B.conj().T @ v[idx]).max() < 1e-4, what + 'the constraint is violated by {}', np.abs(B.conj().T @ v[idx]).max())
                A = st.L[:, idx] @ q
                z = np.linalg.eigvalsh((A.conj().T @ A).real)[0]
                check(abs(c - z) < 1e-4 * max(1, z), what + '|[H,O]|^2 = {} but {} is possible', c, z)
            ctx.state((case, j, tuple(keys)))
            ctx.outcome(('large', len(keys) >= 20))


def run(case, ctx):
    kind = case[0]
    if kind == 'fid':
        fid(ctx)
    elif kind == 'large':
        large(setup(case[1], case[2]), case, ctx)
    elif kind == 'retry':
        retry(RETRY[case[1]], ctx)
    elif kind == 'many1':
        many1(case[1], ctx)
    elif kind == 'many2':
        many2(case[1], case[2], ctx)
    else:
        _, h, irr, i, tier = case
        st = setup(h, irr)
        spec = inits(st, tier)[i]
        steps = 3 if tier == 'quick' else 5
        if kind == 'grow':
            for kw in GROW:
                search(st, spec, steps, kw, {}, 'greedy({}, H{}/{}, {}, {}): '.format(spec, h, irr, steps, kw), ctx)
        else:
            for kw in (GROW[1::7] if tier == 'quick' else GROW):
                for opt in options():
                    if opt.get('reflect') and (st.t != 'Pauli' or st.n > 3):
                        continue
                    search(st, spec, steps, kw, opt, 'greedy({}, H{}/{}, {}, {}, {}): '.format(spec, h, irr, steps, kw, opt), ctx)
