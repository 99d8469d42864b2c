"""Lattices index every orbital, wrap periodically and measure minimum-image distances."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check
from checks import latmodel

ID = 'P17'
BOUND = {
    'quick': '15 lattice families (chain, square, 3-D cubic, kagome, honeycomb, triangular, dimer, centred, oblique, '
             'wide, skewed in 2-D and 3-D, fcc, atoms far from their cell or at positions with many digits), all sizes up to 9 cells (chain), 4x4 (2-D), 2x2x3, long cylinders and ladders (of 1002), every boundary condition, '
             '1-2 orbitals per site: every orbital, every shift by up to 2 periods in every direction, every pair',
    'thorough': 'as quick, sizes up to 14, 7x5 and 3x3x3',
}
CHUNK = 1


def lattices(tier):
    big = tier == 'thorough'
    for n in range(1, 15 if big else 10):
        for pb in (0, 1):
            yield ['chain', [n], [pb], None]
            if n <= 5:
                yield ['chain', [n], [pb], ['Up', 'Dn']]
                yield ['dimer', [n], [pb], None]
    m1, m2 = (7, 5) if big else (4, 4)
    for n1 in range(1, m1 + 1):
        for n2 in range(1, m2 + 1):
            for pb in it.product((0, 1), repeat=2):
                yield ['square', [n1, n2], list(pb), None]
                yield ['kagome', [n1, n2], list(pb), None]
                if n1 <= 3 and n2 <= 3:
                    for k in ('honeycomb', 'tri', 'centred', 'wide', 'oblique', 'far', 'dyadic', 'skew'):
                        yield [k, [n1, n2], list(pb), None]
                    yield ['square', [n1, n2], list(pb), ['a', 'b']]
                    yield ['kagome', [n1, n2], list(pb), ['Up', 'Dn']]
    for pb in it.product((0, 1), repeat=2):
        for nn in ([1, 6], [6, 1], [2, 8], [8, 2]):
            yield ['kagome', nn, list(pb), None]
            yield ['tri', nn, list(pb), None]
    for n in ((1, 2, 3), (2, 2, 2), (2, 2, 3)) + (((3, 3, 3),) if big else ()):
        for pb in it.product((0, 1), repeat=3):
            yield ['cubic', list(n), list(pb), None]
            if n != (3, 3, 3):
                yield ['skew3', list(n), list(pb), None]
                yield ['fcc', list(n), list(pb), None]
    for pb in it.product((0, 1), repeat=2):
        yield ['skew', [4, 4], list(pb), None]
        yield ['skew', [7, 2], list(pb), None]
        yield ['square', [2, 1002], list(pb), None]
    yield ['cubic', [2, 1, 2, 2], [1, 0, 1, 0], ['x']]


def cases(tier):
    return lattices(tier)


def run(case, ctx):
    lat, mod = latmodel.make(case)
    n = len(mod.orbs)
    check(len(lat) == n, '{}: {} orbitals, expected {}', case, len(lat), n)
    seen = list(lat)
    check(len(seen) == n, '{}: iteration yields {} orbitals', case, len(seen))
    for i, (p, nm, cell) in enumerate(mod.orbs):
        q, qn, qc = seen[i]
        ctx.step()
        check(np.allclose(q, p, atol=1e-7) and qn == nm and tuple(int(x) for x in qc) == cell,
              '{}: orbital {} is {}, expected {}', case, i, seen[i], (p, nm, cell))
        check(np.allclose(lat.position(i), p, atol=1e-7), '{}: position of {} wrong', case, i)
    # indexing, for every image of every orbital
    R = 2 if n <= 12 else 1
    images = list(mod.shifts(R))
    for i, (p, nm, cell) in enumerate(mod.orbs):
        if n > 200 and 8 <= i < n - 8 and i % 97:
            continue
        for s, v in images:
            for eps in ((0.0, 1e-11, -1e-11, 1e-15, -1e-15, 2e-10, -2e-10) if all(x == 0 for x in s) else (0.0, 1e-12)):
                pos = p + v + eps
                got = lat.index(pos, nm) if nm != '' else lat.index(pos)
                ctx.step()
                check(got == i, '{}: orbital {} shifted by {} periods is found at index {}', case, i, s, got)
        # outside an open boundary / an unknown name / an empty place
        check(lat.index(p, 'no such orbital') == -1, '{}: unknown orbital name found', case)
        check(lat.index(p + 0.0371, nm) == -1, '{}: an empty position was found', case)
        for ax in range(mod.d) if i < 8 or i >= n - 4 else ():
            for f in (-1, 1):
                pos = p + f * mod.N[ax] * mod.vecs[ax]
                want = mod.find(pos, nm)
                got = lat.index(pos, nm)
                ctx.step()
                check(got == (want.pop() if want else -1), '{}: one period along axis {} from orbital {} gives {}',
                      case, ax, i, got)
                pos = p + f * mod.vecs[ax]
                want = mod.find(pos, nm)
                got = lat.index(pos, nm)
                check(got == (want.pop() if want else -1), '{}: one cell along axis {} from orbital {} gives {}',
                      case, ax, i, got)
    # distances
    lim = n if n <= 24 else 24
    sub = sorted(set(list(range(min(n, 12))) + list(range(max(0, n - 12), n))))[:lim]
    for i in sub:
        for j in range(n):
            pi, pj = mod.orbs[i][0], mod.orbs[j][0]
            e = mod.distance(pi, pj)
            got = [lat.distance(i, j), lat.distance(j, i)]
            if (i + j) % 3 == 0:
                got += [lat.distance(pi, j), lat.distance(i, pj), lat.distance(pi.copy(), pj.copy()),
                        lat.distance(np.int64(i), np.int32(j))]
            ctx.step(len(got))
            for g in got:
                check(abs(g - e) < 1e-8 * max(1, e), '{}: distance between {} and {} is {}, expected {}', case, i, j, g, e)
            ctx.outcome(round(e, 6))
    for i in sub[:4]:
        for s, v in images:
            if all(x == 0 for x in s):
                continue
            for j in sub[:6]:
                if max(abs(x) for x in s) <= 1:
                    g = lat.distance(mod.orbs[i][0] + v, j)
                    e = mod.distance(mod.orbs[i][0], mod.orbs[j][0])
                    ctx.step()
                    check(abs(g - e) < 1e-8 * max(1, e), '{}: distance to an image of orbital {} is {}, expected {}',
                          case, i, g, e)
    ctx.state(str(case))
    # the printed table lists every orbital
    lines = str(lat).strip('\n').split('\n')
    check(len(lines) == n, '{}: printed table has {} lines', case, len(lines))
