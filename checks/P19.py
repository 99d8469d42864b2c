"""symmetrize_lattice enlarges the unit cell and makes it invariant under the point group."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P19'
s3 = np.sqrt(3)
BOUND = {
    'quick': '15 crystals (1-, 2-, 3-dimensional, several atoms and orbitals per cell, some not themselves symmetric, some with different atoms on one place) x every set of '
             '1 or 2 generators (repeats, the identity and redundant ones included) from the point group '
             'of the Bravais lattice x periodic / open / mixed boundaries x 1..3 expansions (fewer for large cells)',
    'thorough': 'as quick with all sets of 3 generators and 4 expansions',
}
CHUNK = 1
CRYSTALS = {
    'chain': ([[1.0]], [([0.0], [''])]),
    'dimer': ([[2.0]], [([-0.25], ['a']), ([0.25], ['a'])]),
    'asym': ([[2.0]], [([0.0], ['a']), ([0.5], ['b', 'c'])]),
    'ionic': ([[1.0]], [([0.25], ['a']), ([0.75], ['b'])]),
    'onsite': ([[1.0]], [([0.0], ['a']), ([0.0], ['b']), ([0.5], ['a'])]),
    'square': ([[1.0, 0], [0, 1.0]], [([0.0, 0.0], [''])]),
    'binary': ([[1.0, 0], [0, 1.0]], [([0.25, 0.0], ['a']), ([0.75, 0.0], ['b', 'c'])]),
    'bnoff': ([[1.0, 0], [0.5, s3 / 2]], [([0.25, 0.0], ['B']), ([0.75, 0.0], ['N'])]),
    'lieb': ([[1.0, 0], [0, 1.0]], [([0.0, 0.0], ['d']), ([0.5, 0.0], ['p']), ([0.0, 0.5], ['p'])]),
    'rect': ([[1.0, 0], [0, 1.5]], [([0.125, 0.0], ['Up', 'Dn'])]),
    'tri': ([[1.0, 0], [0.5, s3 / 2]], [([0.0, 0.0], [''])]),
    'honey': ([[1.0, 0], [0.5, s3 / 2]], [([0.5, s3 / 6], ['']), ([1.0, s3 / 3], [''])]),
    'kagome': ([[1.0, 0], [0.5, s3 / 2]], [([0.5, 0.0], ['']), ([0.25, s3 / 4], ['']), ([0.75, s3 / 4], [''])]),
    'obtuse': ([[1.0, 0], [-0.5, s3 / 2]], [([0.0, 0.0], ['q', 'r'])]),
    'cubic': ([[1.0, 0, 0], [0, 1.0, 0], [0, 0, 1.0]], [([0.0, 0.0, 0.0], [''])]),
}


def rot(k, n):
    a = 2 * np.pi * k / n
    return np.array([[np.cos(a), -np.sin(a)], [np.sin(a), np.cos(a)]])


def group(name):
    d = len(CRYSTALS[name][0])
    if d == 1:
        return [np.eye(1), -np.eye(1)]
    if d == 3:
        return [np.eye(3), -np.eye(3), np.eye(3)[[1, 2, 0]], np.diag([1.0, 1, -1]), np.eye(3)[[1, 0, 2]], np.eye(3)[[1, 0, 2]] @ np.diag([-1.0, 1, 1])]
    n = 6 if name in ('tri', 'honey', 'kagome', 'obtuse', 'bnoff') else 4
    m = np.diag([1.0, -1.0])
    G = [rot(k, n) for k in range(n)] + [rot(k, n) @ m for k in range(n)]
    if name == 'rect':
        G = [G[0], G[2], G[4], G[6]]
    return G


def closure(gens):
    d = len(gens[0])
    G = [np.eye(d)]
    i = 0
    while i < len(G):
        for g in gens:
            h = G[i] @ g
            if not any(np.allclose(h, x, atol=1e-8) for x in G):
                G.append(h)
        i += 1
    return G


def cases(tier):
    for name in CRYSTALS:
        d = len(CRYSTALS[name][0])
        n = len(group(name))
        if d == 1:
            sets = [c for r in (1, 2) for c in it.product(range(n), repeat=r)] + [(1, 0, 1), (1, 1, 0)]
        else:
            sets = [(i,) for i in range(n)] + [c for c in it.product(range(n), repeat=2) if tier == 'thorough' or (c[0] + 2 * c[1]) % 3 == 0 or d == 3 or n == 4]
            if tier == 'thorough':
                sets += list(it.combinations(range(n), 3))
        for gens in sets:
            for pb in it.product((True, False), repeat=d):
                mixed = any(pb) and not all(pb)
                if mixed and d == 3:
                    continue
                kmax = {1: 4, 2: 2, 3: 1}[d] + (1 if tier == 'thorough' and d < 3 else 0)
                for k in range(1, kmax + 1):
                    if k > 1 and (not all(pb)) and d > 1:
                        continue
                    if k > 1 and len(gens) > 1 and d > 1 and tier == 'quick' and (gens[0] + gens[1]) % 4:
                        continue
                    yield [name, list(gens), [bool(x) for x in pb], k]


def reduced(p, vecs):
    """Canonical representative modulo the translations in vecs (list of d-vectors)."""
    if not vecs:
        return np.round(p, 5) + 0.0
    V = np.array(vecs).T
    c = np.linalg.lstsq(V, p, rcond=None)[0]
    q = p - V @ np.floor(c + 1e-7)
    return np.round(q, 5) + 0.0


def atoms_set(atoms, vecs):
    return [(tuple(reduced(np.asarray(p, float), vecs)), tuple(o)) for p, o in atoms]


def run(case, ctx):
    name, gi, pb, k = case
    vecs, atoms = CRYSTALS[name]
    vecs = [np.array(v) for v in vecs]
    d = len(vecs)
    P = group(name)
    gens = [P[i] for i in gi]
    cell = qy.UnitCell([v.copy() for v in vecs])
    for p, o in atoms:
        cell.add_atom(np.array(p), list(o))
    lat = qy.Lattice(cell, (1,) * d, periodic_boundaries=tuple(pb))
    text = str(lat)
    new = qy.symmetrize_lattice(lat, [g.copy() for g in gens], num_expansions=k)
    ctx.step()
    check(str(lat) == text and all(np.array_equal(a, b) for a, b in zip(lat.unit_cell.lattice_vectors, vecs)) and
          len(lat.unit_cell.atom_positions) == len(atoms), '{}: the argument was modified', case)
    got_v = [np.asarray(v) for v in new.unit_cell.lattice_vectors]
    check(all(np.allclose(g, (k + 1) * v) for g, v in zip(got_v, vecs)), '{}: lattice vectors {}, expected {} times the original', case,
          got_v, k + 1)
    check(list(new.periodic_boundaries) == pb and list(new.num_cells) == [1] * d, '{}: boundaries or number of cells', case)
    T = [(k + 1) * v for v, b in zip(vecs, pb) if b]
    G = closure(gens)
    got = atoms_set(zip(new.unit_cell.atom_positions, new.unit_cell.atom_orbitals), T)
    check(len(set(got)) == len(got), '{}: the same atom is listed twice', case)
    check(len(new) == sum(len(o) for p, o in got), '{}: {} orbitals', case, len(new))
    got = set(got)
    # every atom of the enlarged cell and its images
    box = [(np.array(p) + sum((c * v for c, v in zip(cc, vecs)), np.zeros(d)), o)
           for cc in it.product(range(k + 1), repeat=d) for p, o in atoms]
    images = set(atoms_set([(g @ p, o) for p, o in box for g in G], T))
    preserves = all(np.allclose(reduced(g @ v, T), 0, atol=1e-5) for g in G for v in T)
    missing = images - got
    check(not missing, '{}: atoms are missing: {}', case, sorted(missing)[:4])
    if preserves and (k == 1 or all(pb)):
        extra = got - images
        check(not extra, '{}: spurious atoms: {}', case, sorted(extra)[:4])
    if preserves:
        for g in G:
            ctx.step()
            im = set(atoms_set([(g @ np.asarray(p, float), o) for p, o in zip(new.unit_cell.atom_positions, new.unit_cell.atom_orbitals)], T))
            check(im == got, '{}: the new unit cell is not invariant under {}', case, g.tolist())
            # as orbital permutation when all atoms of one place carry distinct names
            names = [(p, x) for p, o in got for x in o]
            if len(set(names)) == len(names):
                try:
                    qy.space_group_symmetry(new, g, np.zeros(d))
                except ValueError:
                    check(False, '{}: {} is not a symmetry of the new lattice', case, g.tolist())
    ctx.state((name, pb, k, len(G), len(got)))
    ctx.outcome((d, len(G), len(got)))
