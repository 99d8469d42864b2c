"""Group averaging of a basis (symmetrize_basis)."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref, reftrans
from mc.harness import check

ID = 'P16'
BOUND = {
    'quick': 'Pauli and Majorana; every set of <=3 generators of S2 and S3 and of <=2 generators of S4 (in every order for S3), '
             'with the bases of <=2-site strings, every <=2-string basis on 3 orbitals',
    'thorough': 'as quick plus all generator triples of S4, three-site bases, two-generator groups on 5 orbitals',
}
CHUNK = 8


def cases(tier):
    for n in (2, 3):
        perms = [list(p) for p in it.permutations(range(n))]
        for r in (1, 2, 3):
            for g in (it.permutations(perms, r) if r < 3 else it.combinations(perms, r)):
                for t in ('Pauli', 'Majorana'):
                    yield ['full', t, n, 2, list(g)]
                    if n == 3 and r < 3:
                        yield ['full', t, n, 3, list(g)]
    perms = [list(p) for p in it.permutations(range(3))]
    for r in (1, 2):
        for g in it.permutations(perms, r):
            for t in ('Pauli', 'Majorana'):
                yield ['sub', t, 3, list(g)]
    perms = [list(p) for p in it.permutations(range(4))]
    for r in (1, 2):
        for g in it.combinations(perms, r):
            yield ['full', 'Pauli', 4, 2, list(g)]
            if r == 1 or tier == 'thorough':
                yield ['full', 'Majorana', 4, 2, list(g)]
                yield ['full', 'Pauli', 4, 3, list(g)]
    if tier == 'thorough':
        for g in it.combinations(perms, 3):
            yield ['full', 'Pauli', 4, 2, list(g)]
        c5 = [1, 2, 3, 4, 0]
        for p in it.permutations(range(5)):
            yield ['full', 'Pauli', 5, 1, [c5, list(p)]]
            yield ['full', 'Majorana', 5, 2, [list(p)]]


def closure(gens):
    n = len(gens[0])
    G = {tuple(range(n))}
    while True:
        N = G | {tuple(p[i] for i in g) for g in G for p in gens}
        if N == G:
            return sorted(G)
        G = N


def judge(basis, t, n, gens, ctx):
    orbs = range(n)
    d = 2 ** n
    before = [str(s) for s in basis]
    T = [qy.label_permutation(list(p)) for p in gens]
    res = qy.symmetrize_basis(basis, T)
    ctx.step()
    check([str(s) for s in basis] == before and len(T) == len(gens), 'the arguments were modified')
    check(all(list(a.info) == list(p) for a, p in zip(T, gens)), 'the generators were modified')
    G = closure(gens)
    A = [reftrans.permutation(p, t) for p in G]
    cols = []
    seen = set()
    for s in basis:
        m = ref.mat(s, orbs)
        cols.append(sum(a(m) for a in A).reshape(-1) / len(G))
    expect = np.array(cols).T.reshape(d * d, -1)
    got = np.array([ref.opmat(o, orbs).reshape(-1) for o in res]).T.reshape(d * d, -1)
    k = ref.rank(expect)
    check(len(res) == k, '{} symmetrized operators, the invariant space has dimension {}', len(res), k)
    check(ref.same_span(got, expect), 'the symmetrized operators do not span the invariant operators of the basis')
    for o in res:
        m = ref.opmat(o, orbs)
        for p in gens:
            ctx.step()
            check(ref.close(reftrans.permutation(p, t)(m), m), 'returned operator is not invariant under {}: {}', p, o)
        nrm = np.sqrt(sum(abs(c) ** 2 for c, s in o))
        check(abs(nrm - 1) < 1e-9, 'a returned operator is not normalized: {}', o)
        check(all(abs(c) > 1e-12 for c, s in o), 'zero terms are left in {}', o)
        check(len({ref.key(s) for c, s in o}) == len(list(o)), 'repeated terms in {}', o)
    ctx.state((t, n, len(G), k))
    ctx.outcome((len(G), k))


def run(case, ctx):
    kind, t, n = case[:3]
    if kind == 'full':
        k, gens = case[3:]
        judge(qy.cluster_basis(k, list(range(n)), t), t, n, gens, ctx)
    else:
        gens = case[3]
        full = list(qy.cluster_basis(3, list(range(n)), t))
        full = [s for i, s in enumerate(full) if i % 5 == 0 or len(s.orbital_labels) <= 1]
        for r in (1, 2):
            for sub in it.combinations(full, r):
                judge(qy.Basis(list(sub)), t, n, gens, ctx)
