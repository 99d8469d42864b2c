"""From a lattice and symmetries to operators and back, as a whole."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, reftrans
from mc.harness import check
from checks import latmodel
from checks.P18 import point_group

ID = 'P35'
BOUND = {
    'quick': '19 lattices with up to 6 orbitals (chain, dimer, square, kagome, honeycomb, triangular, centred, spinful; open, '
             'cylinder, torus), Pauli and Majorana strings, k in {1, 2, 3} with R at the first and second shells (up to 160 strings); every available '
             'symmetry alone (each translation, each point-group element about the cell and the centre, time reversal, particle-hole, spin '
             'flip, parity, spinful time reversal, total charges and spins), pairs of the families, and all of them in both orders, '
             'in both modes; the same within the symmetrized basis; back from a generic symmetric operator to its symmetries, matrices, spectra, ground states',
    'thorough': 'as quick with every pair of symmetries and up to 400 strings',
}
CHUNK = 1
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}
SP = ['Up', 'Dn']
LATS = [('chain', [3], [1], None), ('chain', [4], [1], None), ('chain', [4], [0], None), ('chain', [5], [1], None), ('chain', [6], [1], None),
        ('dimer', [2], [1], None), ('dimer', [1], [0], None), ('square', [2, 2], [1, 1], None), ('square', [2, 2], [0, 0], None), ('square', [2, 3], [1, 1], None),
        ('square', [2, 3], [0, 1], None), ('kagome', [1, 1], [0, 0], None), ('kagome', [2, 1], [1, 1], None), ('tri', [2, 2], [1, 1], None),
        ('honeycomb', [1, 2], [1, 1], None), ('honeycomb', [3, 1], [1, 0], None), ('centred', [1, 1], [1, 1], None), ('chain', [2], [0], SP), ('chain', [3], [1], SP)]


def distances(mod):
    return np.array([[mod.distance(p[0], q[0]) for q in mod.orbs] for p in mod.orbs])


def strings(mod, t, k, R):
    n = len(mod.orbs)
    D = distances(mod)
    out = []
    for w in range(1, k + 1):
        for labs in it.combinations(range(n), w):
            if all(D[i, j] <= R + 1e-7 for i, j in it.combinations(labs, 2)):
                out += [(ops, labs) for ops in it.product(ALPH[t], repeat=w)]
    return out


def shells(mod):
    n = len(mod.orbs)
    ds = sorted(mod.distance(mod.orbs[i][0], mod.orbs[j][0]) for i in range(n) for j in range(i))
    out = []
    for x in ds:
        if not out or x > out[-1] + 1e-6:
            out.append(x)
    return [x for x in out if x > 1e-6] or [0.0]


def cases(tier):
    top = 160 if tier == 'quick' else 400
    for d in LATS:
        _, mod = latmodel.make(d)
        sh = shells(mod)
        for t in ('Pauli', 'Majorana'):
            seen = set()
            for k in (1, 2, 3):
                for s in range(min(2, len(sh))):
                    m = len(strings(mod, t, k, sh[s]))
                    if m <= top and m not in seen:
                        seen.add(m)
                        yield [list(d), t, k, s, tier]


def spins(mod):
    up = [i for i, o in enumerate(mod.orbs) if o[1] == 'Up']
    dn = [[j for j, o in enumerate(mod.orbs) if o[1] == 'Dn' and np.allclose(o[0], mod.orbs[i][0])][0] for i in up]
    return up, dn


def symmetries(d, lat, mod, t):
    """-> [(family, name, qosy symmetry, map of matrices that vanishes for symmetric operators)]"""
    n = len(mod.orbs)
    orbs = tuple(range(n))
    out = []

    def inv(name, fam, tr, ac):
        out.append((fam, name, tr, lambda m: ac(m) - m))

    def com(name, op, M):
        out.append(('charge', name, op, lambda m: m @ M - M @ m))
    seen = set()
    D = distances(mod)
    dim = mod.d
    cand = [('shift%d' % i, 'space', np.eye(dim), mod.vecs[i]) for i in range(dim) if mod.pb[i] and mod.N[i] > 1]
    ctr = np.mean([o[0] for o in mod.orbs], axis=0)
    for i, R in enumerate(point_group(d[0], dim)):
        cand += [('point%d' % i, 'space', R, np.zeros(dim)), ('centre%d' % i, 'space', R, ctr - R @ ctr)]
    for name, fam, R, v in cand:
        p = [mod.find(R @ o[0] + v, o[1]) for o in mod.orbs]
        if any(len(x) != 1 for x in p):
            continue
        p = tuple(x.copy().pop() for x in p)
        if p == orbs or p in seen or len(set(p)) < n:
            continue
        # (a rotation can permute the orbitals of a torus that does not have its symmetry)
        if not np.allclose(D, D[np.ix_(p, p)]):
            continue
        seen.add(p)
        inv(name, fam, qy.space_group_symmetry(lat, R, v), reftrans.permutation(p, t))
    inv('T', 'T', qy.time_reversal(), reftrans.time_reversal(n, t))
    if t == 'Majorana':
        inv('C', 'C', qy.particle_hole(), reftrans.particle_hole(n))
    spinful = any(o[1] == 'Up' for o in mod.orbs)
    if spinful:
        up, dn = spins(mod)
        p = list(orbs)
        for u, x in zip(up, dn):
            p[u], p[x] = x, u
        inv('flip', 'spin', qy.spin_flip_symmetry(lat), reftrans.permutation(p, t))
        if t == 'Majorana':
            inv('parity', 'spin', qy.spin_parity_symmetry(lat), reftrans.spin_parity(dn, n))
            inv('TS', 'T', qy.time_reversal(lat), reftrans.spinful_time_reversal(up, dn, n))
    if t == 'Pauli':
        for x in 'XYZ':
            M = sum(ref._site(x, i, n) for i in orbs)
            com('S' + x, qy.Operator(np.ones(n), [qy.opstring('%s %d' % (x, i)) for i in orbs]), M)
    else:
        N = qy.convert(qy.Operator(np.ones(n), [qy.opstring('CDag %d C %d' % (i, i)) for i in orbs]), 'Majorana')
        com('N', N, sum(ref._site('CDag', i, n) @ ref._site('C', i, n) for i in orbs))
        if spinful:
            for nm, ph in (('Sx', 1), ('Sy', 1j)):
                terms = [qy.opstring('%s CDag %d C %d' % ('1j' if ph == 1j else '', min(u, x), max(u, x))) for u, x in zip(up, dn)]
                S = qy.convert(qy.Operator(np.ones(len(up)), terms), 'Majorana')
                M = sum(ph * ref._site('CDag', min(u, x), n) @ ref._site('C', max(u, x), n) for u, x in zip(up, dn))
                com(nm, S, M + M.conj().T)
    return out


def solution(K, names):
    w, v = np.linalg.eigh(sum(K[x] for x in names))
    return v[:, w < 1e-7]


def run(case, ctx):
    d, t, k, s, tier = case
    lat, mod = latmodel.make(d)
    n = len(mod.orbs)
    orbs = tuple(range(n))
    R = shells(mod)[s]
    fam = strings(mod, t, k, R)
    basis = qy.distance_basis(lat, k, R, t)
    ctx.step()
    keys = [ref.key(x)[1:3] for x in basis]
    check(sorted(keys) == sorted((tuple(o), tuple(l)) for o, l in fam) and all(x.op_type == t for x in basis),
          'distance basis of {} strings, expected {}', len(keys), len(fam))
    text = str(basis)
    M = [ref.string_matrix(t, o, l, 1, orbs) for o, l in keys]
    A = np.array([m.reshape(-1) for m in M]).T / np.sqrt(2.0 ** n)
    syms = symmetries(d, lat, mod, t)
    K, Q = {}, {}
    for _, name, q, f in syms:
        L = np.array([f(m).reshape(-1) for m in M]).T / np.sqrt(2.0 ** n)
        K[name] = L.conj().T @ L
        Q[name] = q
    names = [x[1] for x in syms]
    families = {}
    for x in syms:
        families.setdefault(x[0], []).append(x[1])
    seqs = [[x] for x in names]
    if tier == 'thorough':
        seqs += [list(c) for c in it.combinations(names, 2)]
    else:
        fs = list(families)
        seqs += [[families[a][0], families[b][-1]] for a, b in it.permutations(fs, 2)]
        seqs += [f for f in families.values() if len(f) > 1]
    seqs += [names, names[::-1]]
    for i, seq in enumerate(seqs):
        S = solution(K, seq)
        modes = ('cumulative', 'noncumulative') if len(seq) <= 2 or len(seq) == len(names) else (('cumulative', 'noncumulative')[i % 2],)
        for mode in modes:
            g = qy.SymmetricOperatorGenerator(basis)
            for x in seq:
                g.add_symmetry(Q[x])
            g.generate(mode=mode, verbose=False)
            ctx.step()
            V = vectors(g.projected_output_operators[-1], basis)
            check(V.shape[1] == S.shape[1] and ref.same_span(V, S), '{} {}: found a space of dimension {}, expected {}', mode, seq, V.shape[1], S.shape[1])
            ctx.state((tuple(map(str, d)), t, k, s, tuple(seq), mode))
            ctx.outcome((S.shape[1], len(seq)))
        # one after the other, through lists of operators
        if len(seq) == 2:
            ops = basis
            for x in seq:
                if len(ops) == 0:
                    break
                W = qy.commuting_operators(ops, Q[x]) if isinstance(Q[x], qy.Operator) else qy.invariant_operators(ops, Q[x])
                ctx.step()
                ops = [combine(W[:, j], ops, t) for j in range(W.shape[1])]
            V = vectors(ops, basis)
            check(V.shape[1] == S.shape[1] and ref.same_span(V, S), 'restricting {} one after the other: dimension {}, expected {}', seq, V.shape[1], S.shape[1])
    # first symmetrize by the space group
    sp = families.get('space', []) + (['flip'] if 'flip' in names else [])
    if sp:
        sym = qy.symmetrize_basis(basis, [Q[x] for x in sp])
        ctx.step()
        rest = [x for x in names if x not in sp]
        for seq in [[x] for x in rest] + [rest]:
            S = solution(K, sp + seq)
            V = np.zeros((len(basis), 0))
            if len(sym):
                g = qy.SymmetricOperatorGenerator(sym)
                for x in seq:
                    g.add_symmetry(Q[x])
                g.generate(verbose=False)
                V = vectors(g.projected_output_operators[-1], basis)
            ctx.step()
            check(V.shape[1] == S.shape[1] and ref.same_span(V, S), 'in the symmetrized basis, {}: dimension {}, expected {}', seq, V.shape[1], S.shape[1])
    # and back
    for seq in [[x] for x in names if x[:5] not in ('point', 'centr')] + [families.get('space', []), names]:
        if not seq:
            continue
        S = solution(K, seq)
        if S.shape[1] == 0:
            continue
        P = S @ S.conj().T
        c = P @ np.cos(1.0 + 1.7 * np.arange(len(basis)) ** 1.3)
        if np.linalg.norm(c) < 1e-3:
            continue
        c = np.real(c) / np.linalg.norm(c)
        H = qy.Operator(c, list(basis.op_strings))
        HM = (A @ c).reshape(2 ** n, 2 ** n) * np.sqrt(2.0 ** n)
        for x in seq:
            q = Q[x]
            if isinstance(q, qy.Operator):
                check(qy.commutator(q, H).norm() < 1e-9, '{} does not commute with a symmetric operator', x)
                W = qy.commuting_operators(basis, H)
                L = np.array([(m @ HM - HM @ m).reshape(-1) for m in M]).T / np.sqrt(2.0 ** n)
                ev = np.linalg.eigvalsh(L.conj().T @ L)
                if np.any((ev > 1e-12) & (ev < 1e-6)):
                    continue        # almost another symmetry
                E = solution({0: L.conj().T @ L}, [0])
                check(W.shape[1] == E.shape[1] and ref.same_span(W, E), 'symmetries of an operator with {}: {} found, expected {}', seq, W.shape[1], E.shape[1])
                if any(ref.key(o)[1:3] not in keys for _, o in q):
                    continue
                v = vectors([q], basis)
                check(ref.rank(np.hstack([W, v])) == W.shape[1], '{} is not among the symmetries of an operator with {}', x, seq)
            else:
                check((q.apply(H) - H).norm() < 1e-9, '{} changes a symmetric operator', x)
            ctx.step()
        w = np.linalg.eigvalsh(HM)
        e, vecs = qy.diagonalize(H, n)
        ctx.step()
        check(ref.close(e, w, 1e-8), 'spectrum of a symmetric operator: {}, expected {}', e, w)
        if t == 'Pauli':
            Hm = qy.to_matrix(H, n).toarray()
            check(ref.close(Hm, HM), 'matrix of a symmetric operator')
            for x in seq:
                if x[:5] in ('shift', 'point', 'centr') or x == 'flip':
                    v = qy.apply_transformation(Q[x], vecs[:, 0], n)
                    ctx.step()
                    check(ref.close(HM @ v, e[0] * v, 1e-8), '{} takes a ground state elsewhere', x)
    check(str(basis) == text, 'the basis was modified')


def combine(v, ops, t):
    if isinstance(ops, qy.Basis):
        return qy.Operator(v, list(ops.op_strings))
    strs, coefs = {}, {}
    for c, o in zip(v, ops):
        for x, y in o:
            strs[y] = y
            coefs[y] = coefs.get(y, 0) + c * x
    return qy.Operator([coefs[y] for y in strs], list(strs.values()), t)


def vectors(ops, basis):
    if isinstance(ops, np.ndarray):
        return ops
    ix = {ref.key(s): i for i, s in enumerate(basis)}
    V = np.zeros((len(basis), len(ops)), dtype=complex)
    for j, o in enumerate(ops):
        for c, s in o:
            if abs(c) > 1e-14:
                check(ref.key(s) in ix, 'the string {} is not in the basis', str(s))
                V[ix[ref.key(s)], j] += c
    return V
