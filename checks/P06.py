"""Cluster bases are exactly the k-local operator strings of a cluster, each once."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P06'
BOUND = {
    'quick': 'every type, every cluster of 1..4 labels from 4 label pools (all orderings of the labels as list and '
             'array), every integer k in 0..5 and every nonempty set of supports (in every order), with and without identity; clusters '
             'of 5-6 labels by counting; Gram matrix / rank on up to 3 (fermions) and 4 (others) orbitals',
    'thorough': 'as quick; rank on 4 fermion orbitals, 5 spins; counting up to 7 labels',
}
CHUNK = 2
POOLS = ([0, 1, 2, 3], [1, 2, 4, 9], [3, 10, 11, 200], [0, 2, 5, 7])
ALPH = {'Pauli': ref.PAULI, 'Majorana': ref.MAJO}


def expected(t, labels, ks, identity):
    labels = sorted(labels)
    out = set()
    if identity:
        out.add(((), (), 1.0 + 0j))
    if t != 'Fermion':
        for k in ks:
            if 1 <= k <= len(labels):
                for ops, labs in ref.strings(ALPH[t], labels, k, k):
                    ph = 1.0
                    if t == 'Majorana':
                        nab = sum(o in 'AB' for o in ops)
                        ph = 1j if (nab % 4) in (2, 3) else 1.0
                    out.add((ops, labs, complex(ph)))
        return out
    for m in ks:
        if not 1 <= m <= len(labels):
            continue
        for cd in it.combinations(labels, m):
            out.add((('CDag',) * m + ('C',) * m, cd + cd[::-1], 1.0 + 0j))
            for l in range(m + 1):
                for c in it.combinations(labels, l):
                    if l < m or c < cd:
                        for ph in (1.0, 1j):
                            out.add((('CDag',) * m + ('C',) * l, cd + c[::-1], complex(ph)))
    return out


def cases(tier):
    for t in ('Pauli', 'Majorana', 'Fermion'):
        for n in (1, 2, 3, 4):
            for pool in POOLS:
                labs = pool[:n]
                for k in range(0, 6):
                    yield [t, labs, k, 'perm' if n <= 3 or pool == POOLS[0] else 'one']
                for r in range(1, n + 1):
                    for ks in it.combinations(range(0, n + 2), r):
                        yield [t, labs, list(ks), 'one']
        for n in ((5, 6) if tier == 'quick' else (5, 6, 7)):
            labs = [2 * i for i in range(n)]
            for k in (1, 2, 3) if t != 'Fermion' else (1, 2):
                yield [t, labs, k, 'one']
            if t != 'Fermion':
                for ks in ([2], [3], [1, 3], [2, 3]):
                    yield [t, labs, ks, 'one']
        top = {'Pauli': 4, 'Majorana': 4, 'Fermion': 3}[t] + (1 if tier == 'thorough' else 0)
        for n in range(1, top + 1):
            yield [t, list(range(n)), n, 'rank']


def run(case, ctx):
    t, labs, k, mode = case
    if mode == 'rank':
        b = qy.cluster_basis(k, list(labs), t)
        n = len(labs)
        M = np.array([ref.mat(s, labs).ravel() for s in b]).T
        ctx.step()
        check(M.shape[1] == 4 ** n - 1, 'the full {} basis on {} orbitals has {} strings', t, n, M.shape[1])
        full = np.hstack([M, np.eye(2 ** n).ravel()[:, None]])
        check(ref.rank(full) == 4 ** n, 'the full {} basis on {} orbitals and the identity do not span all operators',
              t, n)
        for s in b:
            m = ref.mat(s, labs)
            check(np.allclose(m, m.conj().T), '{} is not Hermitian', str(s))
            if t != 'Fermion':
                check(abs(np.trace(m)) < 1e-9, '{} is not traceless', str(s))
        if t != 'Fermion':
            G = M.conj().T @ M / 2 ** n
            check(ref.close(G, np.eye(M.shape[1])), 'the {} strings are not orthonormal', t)
        ctx.state((t, 'rank', n))
        ctx.outcome((t, 'rank'))
        return
    ks = range(0, k + 1) if isinstance(k, int) else k
    want0 = expected(t, labs, ks, False)
    orders = [list(labs)] + ([list(p) for p in it.permutations(labs)][1:] if mode == 'perm' else [list(labs)[::-1]])
    first = None
    for order in orders:
        for ident in (False, True):
            forms = [(list(order), list(k) if not isinstance(k, int) else k)]
            if order == orders[-1]:
                forms.append((np.array(order), np.array(k) if not isinstance(k, int) else k))
                if not isinstance(k, int):
                    # the sizes in every order, also repeated
                    forms += [(list(order), list(x)) for x in list(it.permutations(k))[1:]] + [(list(order), list(k) + list(k)[:1])]
            for labels_in, kk in forms:
                before = [int(x) for x in labels_in]
                b = qy.cluster_basis(kk, labels_in, t, include_identity=ident)
                ctx.step()
                check([int(x) for x in labels_in] == before, 'cluster_basis changed its labels argument')
                got = [ref.key(s) for s in b]
                check(all(g[0] == t for g in got), 'wrong string type in {} basis', t)
                gs = set(g[1:] for g in got)
                want = want0 | ({((), (), 1.0 + 0j)} if ident else set())
                check(len(gs) == len(got), 'a string occurs twice in the basis (k={}, labels {})', k, order)
                check(gs == want, '{} basis k={} labels={} identity={}: missing {} unexpected {}', t, k, order, ident,
                      sorted(want - gs, key=repr)[:3], sorted(gs - want, key=repr)[:3])
                for i, s in enumerate(b):
                    if b.index(s) != i:
                        check(False, 'index of {} is wrong', str(s))
                if first is None:
                    first = [g for g in got if g[1]]
                check([g for g in got if g[1]] == first, 'the order of the basis depends on the order of the labels')
    ctx.state((t, tuple(labs), repr(k), len(want0)))
    ctx.outcome((t, len(want0)))
