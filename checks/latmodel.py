"""Reference model of crystal lattices, with exact-enough plain geometry."""
import itertools as it
import numpy as np
import qosy as qy


def make(desc):
    """desc = [kind, num_cells, periodic, orbital_names] -> (qosy lattice, model)"""
    kind, N, pb, names = desc
    names = None if names is None else list(names)
    pb_t = tuple(bool(x) for x in pb)
    # (open boundaries are the default)
    kw = {} if not any(pb_t) else dict(periodic_boundaries=pb_t)
    if kind == 'chain':
        lat = qy.lattice.chain(N[0], **({'periodic': True} if pb_t[0] else {}), orbital_names=names)
        vecs, atoms = [np.array([1.0])], [np.zeros(1)]
    elif kind == 'square':
        lat = qy.lattice.square(N[0], N[1], **kw, orbital_names=names)
        vecs, atoms = [np.array([1.0, 0]), np.array([0, 1.0])], [np.zeros(2)]
    elif kind == 'cubic':
        lat = qy.lattice.cubic(len(N), tuple(N), **kw, orbital_names=names)
        vecs, atoms = [np.eye(len(N))[i] for i in range(len(N))], [np.zeros(len(N))]
    elif kind == 'kagome':
        lat = qy.lattice.kagome(N[0], N[1], **kw, orbital_names=names)
        a1, a2 = np.array([1.0, 0]), np.array([0.5, np.sqrt(3) / 2])
        vecs, atoms = [a1, a2], [np.zeros(2), a1 / 2, a2 / 2]
    else:
        vecs, atoms, onames = CUSTOM[kind]
        vecs = [np.array(v, float) for v in vecs]
        atoms = [np.array(a, float) for a in atoms]
        cell = qy.UnitCell([v.copy() for v in vecs])
        for a, o in zip(atoms, onames):
            cell.add_atom(a.copy(), orbitals=None if o is None else list(o))
        lat = qy.Lattice(cell, tuple(N), **kw)
        return lat, Model(vecs, list(zip(atoms, [o or [''] for o in onames])), N, pb_t)
    return lat, Model(vecs, [(a, names or ['']) for a in atoms], N, pb_t)


CUSTOM = {
    # honeycomb: 60 degree vectors, two atoms
    'honeycomb': ([[1.0, 0.0], [0.5, np.sqrt(3) / 2]], [[0, 0], [0.5, np.sqrt(3) / 6]], [None, None]),
    # dimerised chain with two orbitals on one of the atoms, an atom at a negative position
    'dimer': ([[2.0]], [[-0.25], [0.5]], [['s', 'p'], None]),
    # centred rectangle whose atoms carry spin orbitals
    'centred': ([[2.0, 0.0], [0.0, 1.0]], [[0.0, 0.0], [1.0, 0.5]], [['Up', 'Dn'], ['Up', 'Dn']]),
    # triangular with obtuse vectors
    'tri': ([[1.0, 0.0], [-0.5, np.sqrt(3) / 2]], [[0, 0]], [None]),
    # coarse spacing: many-digit coordinates
    'wide': ([[1000.0, 0.0], [0.0, 0.125]], [[0.0, 0.0], [333.25, 0.0625]], [None, ['q', 'r']]),
    # atoms several periods away from the cell they belong to
    'far': ([[2.0, 0.0], [1.0, 1.75]], [[-0.5, -2.0], [0.5, 0.25], [5.25, -4.5]], [None, ['a', 'b'], None]),
    # positions that end after nine digits
    'dyadic': ([[1.0, 0.0], [0.0, 1.0]], [[1.0 / 512, 0.25], [-1.0 / 512, -0.25], [0.5, 3.0 / 512]], [None, None, ['a', 'b']]),
    # strongly skewed cells
    'skew': ([[1.0, 0.0], [2.5, 1.0]], [[0.0, 0.0]], [None]),
    'skew3': ([[1.0, 0.0, 0.0], [2.5, 1.0, 0.0], [1.75, -2.25, 1.0]], [[0.0, 0.0, 0.0]], [None]),
    'fcc': ([[0.0, 0.5, 0.5], [0.5, 0.0, 0.5], [0.5, 0.5, 0.0]], [[0.0, 0.0, 0.0], [0.25, 0.25, 0.25]], [None, None]),
    # oblique cell
    'oblique': ([[1.0, 0.25], [-0.125, 1.5]], [[0.125, 0.25]], [['a', 'b']]),
}


class Model:
    def __init__(self, vecs, atoms, N, pb):
        self.vecs, self.N, self.pb = vecs, list(N), list(pb)
        self.d = len(self.N)
        self._sh = {}
        self.orbs = []          # (position, name, cell)
        for cell in it.product(*[range(n) for n in self.N]):
            base = sum((c * v for c, v in zip(cell, vecs)), np.zeros(self.d))
            for a, names in atoms:
                for nm in names:
                    self.orbs.append((base + a, nm, cell))

    def shifts(self, r):
        rs = [range(-r, r + 1) if p else (0,) for p in self.pb]
        for s in it.product(*rs):
            yield s, sum((x * n * v for x, n, v in zip(s, self.N, self.vecs)), np.zeros(self.d))

    def distance(self, p, q):
        """Minimum over all periodic images that can be closer than the points themselves."""
        D = np.linalg.norm(p - q)
        key = ('distance', int(np.ceil(D)))
        if key not in self._sh:
            ps = np.array([n * v for n, v, b in zip(self.N, self.vecs, self.pb) if b]).reshape(-1, self.d)
            # |p - q + v| <= |p - q| only if |v| <= 2 |p - q|
            dual = np.linalg.norm(np.linalg.pinv(ps), axis=0) if len(ps) else []
            rs = [range(-int(2 * key[1] * x + 1e-9), int(2 * key[1] * x + 1e-9) + 1) for x in dual]
            self._sh[key] = np.array([np.dot(c, ps) if len(ps) else np.zeros(self.d) for c in it.product(*rs)])
        return float(np.min(np.linalg.norm((p - q)[None, :] + self._sh[key], axis=1)))

    def find(self, pos, name, tol=1e-5):
        """All orbitals of that name at an image of the position."""
        ps = np.array([n * v for n, v in zip(self.N, self.vecs)])
        inv = np.linalg.inv(ps)
        out = set()
        for i, (p, nm, _) in enumerate(self.orbs):
            if nm == name:
                c = (pos - p) @ inv
                c = c - np.where(self.pb, np.round(c), 0)
                if np.max(np.abs(c @ ps)) < tol:
                    out.add(i)
        return out
