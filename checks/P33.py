"""Sweeping searches go from site to site and use the filters and weights they are given."""
import itertools as it
import numpy as np
import qosy as qy
from qosy import algorithms
from mc import ref
from mc.harness import check
from checks import P25, P29
from checks.P25 import S, dump, vec

ID = 'P33'
BOUND = {
    'quick': 'selected_ci_sweep: 12 Hamiltonians with regular and irregular coefficients (2-4 sites, Pauli and Majorana) x initial operators (weight <=2 and superpositions) '
             'x 1-3 sweeps (selected_ci: up to 5 steps) x 4 truncations x 21 combinations of filters, eigenvalue selections, weights of the strings, constraints and unitarity expansions; selected_ci with 13 combinations; '
             'every site of every sweep compared with a reference step',
    'thorough': 'all initial strings, up to 6 sweeps',
}
CHUNK = 1
BIG = dict(max_basis_size=100, threshold=1e-6)
TRUNC = [BIG, dict(max_basis_size=2, threshold=1e-6), dict(max_basis_size=4, threshold=1e-3), dict(max_basis_size=100, threshold=0.05)]
EPS = 1e-7


def options(fun):
    out = [{}, dict(pre='all'), dict(pre='light'), dict(post='second'), dict(post='first'), dict(tf='light'), dict(tf='same'),
           dict(post='first', mx=4), dict(post='first', mx=4, thr=1.5), dict(post='first', mx=5, mn=3, thr=0.5), dict(mx=1, mn=1), dict(post='last', mx=3, mn=1, thr=2.0, tf='light')]
    if fun == 'selected_ci':
        return [o for o in out if 'pre' not in o]
    out += [dict(norm='weight'), dict(norm='label', pre='all'), dict(norm='weight', post='first', mx=3), dict(orth=1, pre='all'), dict(orth=2), dict(orth=2, norm='weight'), dict(orth=3, norm='label', pre='all'), dict(orth=4),
            dict(unitary=1, pre='all'), dict(unitary=2, pre='all'), dict(unitary=5, pre='light'), dict(unitary=3, norm='label', pre='all')]
    return out


def cases(tier):
    for h in range(12):
        for irr in (0, 1):
            st = P29.setup_light(h)
            n = len(P29.inits(st, tier))
            for i in range(n):
                if tier == 'quick' and n > 12 and (i + h) % 2 and i < n - 4:
                    continue
                yield [h, irr, i, tier]


def sub(st, keys, labels):
    """strings in the commutators of the strings with the terms of H that touch the labels"""
    st.expand(keys)
    out = set()
    for k in keys:
        g = st.step1[st.a.pos[k]]
        for (_, s), x in zip(st.terms, g):
            if set(s.orbital_labels) & labels:
                out |= x
    return out


def light(k):
    return len(k[2]) <= 2


def damp(v, lens):
    v = np.array([a * (1.0 if z <= 1 else 0.1) for a, z in zip(v, lens)])
    return 0.5 * v / np.abs(v).max()


WEIGHTS = {'weight': lambda s: 1.0 + len(s.orbital_labels), 'label': lambda s: 0.5 + sum((l + 1.0) ** 2 for l in s.orbital_labels)}


def square(st, op):
    """(strings certainly, possibly) in the square of the operator {key: coefficient} without the identity"""
    m = sum(c * st.a.m[st.a.pos[k]] for k, c in op.items())
    c = np.abs(st.a.coeffs(m @ m))
    one = set()
    for x, y in it.product(op, op):
        p = np.abs(st.a.coeffs(st.a.m[st.a.pos[x]] @ st.a.m[st.a.pos[y]]))
        one |= {st.a.keys[j] for j in np.nonzero(p > 1e-9)[0]}
    return {k for k in one if c[st.a.pos[k]] > 1e-6}, one


def run(case, ctx):
    h, irr, i, tier = case
    st = P29.setup(h, irr)
    spec = P29.inits(st, tier)[i]
    for fun in ('selected_ci_sweep', 'selected_ci'):
        for j, opt in enumerate(options(fun)):
            for kt, kw in enumerate(TRUNC):
                if tier == 'quick' and (kt + j + i) % 2 and opt:
                    continue
                if tier == 'quick' and st.n == 4 and (kt + j + i) % 3:
                    continue
                search(fun, st, spec, ((2 if opt else 3) if fun == 'selected_ci_sweep' or st.n > 3 else 5) if tier == 'quick' else 6, kw, opt, '%s H%d%s init %d %s %s: ' % (fun, h, "'" * irr, i, kw, opt), ctx)


def search(fun, st, spec, sweeps, kw, opt, what, ctx):
    what = what.replace('{', '{{').replace('}', '}}')
    sweep = fun == 'selected_ci_sweep'
    op0 = qy.Operator([c for c, _ in spec], [qy.OperatorString(list(o), list(l), st.t) for _, (o, l) in spec])
    if not len(op0) or (sweep and not any(len(s.orbital_labels) for _, s in op0)):
        return
    if opt.get('unitary') and st.t != 'Pauli':
        return
    log = []
    k = dict(kw)
    mx, mn = opt.get('mx', 2), opt.get('mn', 2)
    if 'mx' in opt:
        k['max_num_evecs'] = mx
    if 'mn' in opt:
        k['min_num_evecs'] = mn
    if 'thr' in opt:
        k['eval_threshold'] = opt['thr']

    def pre(basis):
        log.append(('pre', [ref.key(s) for s in basis]))
        return basis if opt['pre'] == 'all' else qy.Basis([s for s in basis if len(s.orbital_labels) <= 2])

    def post(evals, evecs, basis):
        log.append(('post', np.array(evals), np.array(evecs), [ref.key(s) for s in basis]))
        x = {'first': 0, 'second': min(1, len(evals) - 1), 'last': len(evals) - 1}[opt['post']]
        return evecs[:, x], evals[x]

    def tf(vector, basis):
        log.append(('tf', np.array(vector), [ref.key(s) for s in basis]))
        return vector if opt['tf'] == 'same' else damp(vector, [len(s.orbital_labels) for s in basis])

    if 'pre' in opt:
        k['pre_filter_fun'] = pre
    if 'post' in opt:
        k['post_filter_fun' if sweep else 'filter_fun'] = post
    if 'tf' in opt:
        k['trunc_filter_fun' if sweep else 'filter_trunc_fun'] = tf
    if 'unitary' in opt:
        k['expand_unitary'] = opt['unitary']
    if 'norm' in opt:
        k['norm_fun'] = WEIGHTS[opt['norm']]
    orth = []
    if 'orth' in opt:
        al = 'XYZ' if st.t == 'Pauli' else 'ABD'
        two = [qy.Operator([0.6, 0.8], [S(st.t, al[2], 0), S(st.t, al[2], 1)]), qy.Operator([1.0], [S(st.t, al[0], 1)])]
        orth = [[st.H()], two, [st.H()] + two[:1], [qy.Operator([1.0, 2.0j, 0.5 - 0.5j], [S(st.t, al[2], 0), S(st.t, al[0], 0, al[0], 1), S(st.t, al[1], 1)])]][opt['orth'] - 1]
        for o in orth:
            o.normalize()
        k['orth_ops'] = orth
    d0, dH = dump(op0), dump(st.H())
    H = st.H()
    # (random starting vectors of ARPACK)
    best, bestn, ops, norms = getattr(algorithms, fun)(op0, H, sweeps, **k)
    check(dump(op0) == d0 and dump(H) == dH, what + 'an argument was modified')
    check(len(ops) == len(norms), what + '{} operators and {} norms', len(ops), len(norms))
    log.reverse()
    maxl = max((l for _, s in st.terms for l in s.orbital_labels), default=0)
    nxt = 0
    sure = poss = {ref.key(s) for _, s in op0}
    prev = pprev = None
    done = False
    direction = 1
    for sw in range(sweeps):
        if sweep:
            if sure != poss and {l for x in sure for l in x[2]} != {l for x in poss for l in x[2]}:
                done = True
                break
            ls = [l for x in poss for l in x[2]]
            if not ls:
                done = True
                break
            sites = list(range(min(ls), max(ls) + 1))[::direction]
        else:
            sites = [None]
        stop = False
        for site in sites:
            ctx.step()
            w = what + 'sweep {}, site {}, operator {}: '.format(sw, site, nxt)
            if sweep:
                a1 = {site, min(site + 1, maxl)}
                a2 = {max(0, site - 1), site, min(site + 1, maxl), min(site + 2, maxl)}
                f = lambda b: b | sub(st, sub(st, b, a1), a2)
            else:
                f = lambda b: b | st.expand(st.expand(b))
            sure, poss = f(sure), f(poss)
            if opt.get('unitary') and nxt:
                o = ops[nxt - 1]
                s, p = P25.trunc([ref.key(x) for _, x in o], np.asarray(o.coeffs), opt['unitary'], 1e-6)
                cf = {ref.key(x): c for c, x in o}
                if s == p:
                    s, p = square(st, {x: cf[x] for x in s})
                    sure, poss = sure | sub(st, s, a2), poss | sub(st, p, a2)
                else:
                    poss = set(st.a.keys)
            if opt.get('pre'):
                check(log and log[-1][0] == 'pre', w + 'the filter was not used')
                got = set(log.pop()[1])
                check(sure <= got <= poss, w + 'the basis is {}, expected {}', got, sure)
                sure = poss = got if opt['pre'] == 'all' else {x for x in got if light(x)}
            # is the basis a known one?
            if nxt and sure == poss and (sure == prev or (not sweep and sure == pprev)):
                if sweep:
                    continue
                stop = True
                break
            if sure != poss and nxt and sure <= prev <= poss or (not sweep and sure != poss and pprev is not None and sure <= pprev <= poss):
                # undecided: the choice between equal coefficients is open
                done = True
                break
            check(nxt < len(ops), w + 'no operator was recorded')
            o, c = ops[nxt], norms[nxt]
            keys = [ref.key(s) for _, s in o]
            ks = set(keys)
            check(len(ks) == len(keys), w + 'repeated strings')
            check(sure <= ks <= poss, w + 'its basis is {}, expected {}', ks, sure)
            pprev, prev = prev, ks
            v = vec(st, o)
            idx = [st.a.pos[x] for x in keys]
            rt = 1e-4 if orth else 1e-7 if opt.get('post') in (None, 'first') else 1e-4
            check(abs(np.linalg.norm(v) - 1) < 1e-8, w + 'norm {}', np.linalg.norm(v))
            r = np.linalg.norm(st.L @ v) ** 2
            if orth:
                # (nothing is reported if no operator is orthogonal to the given ones)
                B = np.array([f(vec(st, q)[idx]) for q in orth for f in (np.real, np.imag)]).T
            check(abs(r - c) <= rt * max(1, r) or (orth and ref.rank(B) == len(idx)), w + 'reported |[H,O]|^2 = {}, it is {}', c, r)
            A = st.L[:, idx]
            A = (A.conj().T @ A).real
            D = np.array([WEIGHTS[opt['norm']](s) for _, s in o]) if 'norm' in opt else np.ones(len(idx))
            ev, Q = np.linalg.eigh(A / np.sqrt(np.outer(D, D)))
            cost = lambda x: np.linalg.norm(st.L[:, idx] @ x) ** 2 / np.sum(D * np.abs(x) ** 2)
            x = v[idx]
            lowest = x
            if opt.get('post'):
                check(log and log[-1][0] == 'post', w + 'the filter was not used')
                _, evals, evecs, b = log.pop()
                check(b == keys, w + 'the filter got the basis {}', b)
                n = min(mx, len(ev))
                check(evecs.shape == (len(idx), len(evals)) and len(evals) <= n, w + 'the filter got {} values, vectors {}', len(evals), evecs.shape)
                e = evecs / np.linalg.norm(evecs, axis=0)
                check(np.abs(e - evecs).max() < 1e-8, w + 'the filter got vectors which are not normalized')
                for a in range(len(evals)):
                    rr = np.linalg.norm(st.L[:, idx] @ e[:, a]) ** 2
                    check(abs(rr - evals[a]) < 1e-4 * max(1, rr), w + 'the filter got |[H,O]|^2 = {}, it is {}', evals[a], rr)
                lam = [cost(e[:, a]) for a in range(len(evals))]
                check(all(p <= q + 1e-4 for p, q in zip(lam, lam[1:])), w + 'the values {} are not sorted', lam)
                # as many as requested and below the threshold
                exp = list(ev[:n])
                if 'thr' in opt:
                    below = [z for z in exp if z < opt['thr']]
                    if all(abs(z - opt['thr']) > 1e-6 for z in exp):
                        exp = below if len(below) > mn else exp[:mn]
                    else:
                        exp = None
                # (without a dense diagonalization, copies of an eigenvalue may be missed)
                if exp is not None and (len(idx) < 2 * mx or all(q - p > 1e-4 for p, q in zip(ev, ev[1:n + 1]))):
                    check(len(lam) == len(exp) and np.allclose(lam, exp, atol=1e-4), w + 'the filter got {}, the lowest values are {}', lam, exp)
                y = {'first': 0, 'second': min(1, len(evals) - 1), 'last': len(evals) - 1}[opt['post']]
                check(np.linalg.norm(e[:, y] - x) < 1e-9 and abs(evals[y] - c) < 1e-9 * max(1, abs(c)), w + 'it is not the vector chosen by the filter')
                lowest = evecs[:, 0]
            if orth:
                B = np.array([f(vec(st, q)[idx]) for q in orth for f in (np.real, np.imag)]).T
                u, s, _ = np.linalg.svd(B / np.sqrt(D)[:, None], full_matrices=True)
                q = u[:, int(np.sum(s > 1e-9)):]
                if q.shape[1]:
                    check(np.abs(B.conj().T @ lowest).max() < 1e-4, w + 'overlap {} with the given operators', np.abs(B.conj().T @ lowest).max())
                    z = np.linalg.eigvalsh(q.conj().T @ (A / np.sqrt(np.outer(D, D))) @ q)[0]
                    check(cost(lowest) <= z + 1e-2 * max(1, z), w + '|[H,O]|^2 = {} but {} is possible', cost(lowest), z)
            else:
                check(cost(lowest) <= ev[0] + 1e-7 * max(1, ev[0]), w + 'weighted |[H,O]|^2 = {} but {} is possible', cost(lowest), ev[0])
            ctx.state((fun, tuple(sorted(keys)), nxt))
            ctx.outcome((fun, len(keys), sw))
            nxt += 1
            # truncation
            m = np.abs(lowest)
            if opt.get('tf'):
                check(log and log[-1][0] == 'tf', w + 'the filter for the truncation was not used')
                _, y, b = log.pop()
                check(b == keys and np.linalg.norm(y - lowest) < 1e-9, w + 'the filter for the truncation got other arguments')
                if opt['tf'] == 'light':
                    m = np.abs(damp(m, [len(z[2]) for z in keys]))
            sure, poss = P25.trunc(keys, m, kw['max_basis_size'], kw['threshold'])
        if done or stop:
            break
        direction *= -1
    if not done:
        check(nxt == len(ops), what + '{} operators were recorded, expected {}', len(ops), nxt)
        check(not log, what + 'superfluous calls of a filter')
        ctx.outcome((fun, 'complete'))
    mm = min(np.abs(norms))
    check(abs(abs(bestn) - mm) < (1e-2 if orth else 1e-12) + 1e-9 * mm and any(dump(best) == dump(o) for o in ops), what + 'the best norm is {} of {}', bestn, norms)
