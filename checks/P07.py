"""Distance bases contain exactly the strings whose orbitals are pairwise within R."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check
from checks import latmodel
from checks.P06 import expected

ID = 'P07'
BOUND = {
    'quick': '34 lattices (chain, dimer, square, kagome, honeycomb, triangular, spinful; open, cylinder, torus; up to '
             '12 orbitals), every distinct distance shell as R (slightly below, exactly, slightly above) plus 0 and '
             'very large, k in {1,2,3,[2],[1,3]}, all three string types, every subset of allowed orbitals for <=5 '
             'orbitals and 8 structured ones above, with and without identity',
    'thorough': 'as quick; all subsets of allowed orbitals for <=7 orbitals, lattices up to 18 orbitals',
}
CHUNK = 1


def lattices(tier):
    for n in (1, 2, 3, 4, 5):
        for pb in (0, 1):
            yield ['chain', [n], [pb], None]
    yield ['chain', [8], [1], None]
    yield ['chain', [2], [1], ['Up', 'Dn']]
    yield ['chain', [3], [0], ['Up', 'Dn']]
    yield ['dimer', [2], [0], None]
    yield ['dimer', [3], [1], None]
    for pb in ([0, 0], [1, 0], [1, 1]):
        yield ['square', [2, 2], pb, None]
        yield ['square', [2, 3], pb, None]
        yield ['square', [3, 3], pb, None]
        yield ['kagome', [1, 1], pb, None]
        yield ['kagome', [2, 1], pb, None]
        yield ['honeycomb', [2, 2], pb, None]
        yield ['tri', [2, 2], pb, None]
    yield ['kagome', [2, 2], [1, 1], None]
    if tier == 'thorough':
        yield ['kagome', [2, 2], [0, 1], None]
        yield ['square', [4, 4], [1, 1], None]
        yield ['tri', [3, 3], [1, 0], None]
        yield ['kagome', [2, 3], [1, 1], None]


def subsets(n, tier):
    if n <= (5 if tier == 'quick' else 7):
        for r in range(1, n + 1):
            for s in it.combinations(range(n), r):
                yield list(s)
        return
    yield list(range(n))
    yield list(range(0, n, 2))
    yield list(range(1, n, 2))
    yield list(range(n // 2))
    yield list(range(n // 2, n))
    yield [0]
    yield [0, n - 1]
    yield [i for i in range(n) if i != n // 2]


def cases(tier):
    for d in lattices(tier):
        lat, mod = latmodel.make(d)
        n = len(mod.orbs)
        ds = []
        for x in sorted(mod.distance(mod.orbs[i][0], mod.orbs[j][0]) for i in range(n) for j in range(i)):
            if not ds or x - ds[-1] > 1e-9:
                ds.append(x)
        Rs = [0.0]
        exact = {0.0, 50.0}
        for x in ds[:5] if n > 5 else ds:
            if x > 0:
                Rs += [x - 1e-4, x, x + 1e-4]
        exact = set(ds) | {0.0, 50.0}
        Rs.append(50.0)
        for R in Rs:
            if R == 50.0 and n > 6 or (n > 9 and R > 1.5):
                ks, ts = [1, 2], ['Pauli', 'Majorana']
            else:
                ks, ts = [1, 2, 3, [2], [1, 3]], ['Pauli', 'Majorana', 'Fermion']
            for k in ks:
                for t in ts:
                    if t == 'Fermion' and (not isinstance(k, int) or (k == 3 and n > 4) or (k == 2 and n > 9)):
                        continue
                    yield [d, R, k, t, 'none']
                    if R in exact:
                        if k in (2, [1, 3]) or (k == 1 and t == 'Pauli'):
                            yield [d, R, k, t, 'subsets']


def run(case, ctx):
    d, R, k, t, mode = case
    lat, mod = latmodel.make(d)
    n = len(mod.orbs)
    near = [[i != j and mod.distance(mod.orbs[i][0], mod.orbs[j][0]) <= R + 1e-9 for j in range(n)]
            for i in range(n)]
    # R is never closer than 1e-4 to a shell it should not contain, except R == shell
    ks = list(range(0, k + 1)) if isinstance(k, int) else list(k)
    kmax = max(ks)

    def cliques(allowed, maxsize):
        out = [()]
        frontier = [()]
        for _ in range(maxsize):
            nxt = []
            for c in frontier:
                for a in allowed:
                    if (not c or a > c[-1]) and all(near[a][b] for b in c):
                        nxt.append(c + (a,))
            out += nxt
            frontier = nxt
        return out[1:]
    allowed_list = [None] if mode == 'none' else list(subsets(n, ctx.tier))
    for allowed in allowed_list:
        al = list(range(n)) if allowed is None else allowed
        if t == 'Fermion':
            want = set()
            for c in cliques(al, min(len(al), 2 * kmax)):
                want |= expected(t, list(c), ks, False)
        else:
            want = set()
            alph = ref.PAULI if t == 'Pauli' else ref.MAJO
            for c in cliques(al, kmax):
                if len(c) in ks:
                    for ops in it.product(alph, repeat=len(c)):
                        nab = sum(o in 'AB' for o in ops)
                        ph = 1j if (t == 'Majorana' and nab % 4 in (2, 3)) else 1.0
                        want.add((ops, c, complex(ph)))
        forms = [None] if allowed is None else [list(allowed), np.array(allowed)]
        for f in forms:
            for ident in (False, True):
                b = qy.distance_basis(lat, k, R, t, allowed_orbitals=f, include_identity=ident)
                ctx.step()
                got = [ref.key(s) for s in b]
                gs = set(g[1:] for g in got)
                w = want | ({((), (), 1.0 + 0j)} if ident else set())
                check(len(gs) == len(got), '{}: a string occurs twice', case)
                check(gs == w, '{} allowed={} identity={}: {} strings, expected {}; missing {} unexpected {}', case,
                      allowed, ident, len(gs), len(w), sorted(w - gs, key=repr)[:3], sorted(gs - w, key=repr)[:3])
                check(all(g[0] == t for g in got), '{}: wrong string type', case)
        ctx.state((str(d), round(R, 6), str(k), t, str(allowed), len(want)))
        ctx.outcome((t, len(want)))
