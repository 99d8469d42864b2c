"""Plots of lattices and operators show exactly what they are given."""
import itertools as it
import warnings
import collections
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
import matplotlib.colors as mcolors
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P34'
BOUND = {
    'quick': 'lattice plots: 27 lattices in 1, 2 and 3 dimensions (1-3 atoms with 0-3 orbitals, skewed cells) x all 16 combinations of options; operator plots: every string of '
             'weight 1 and 2 and every third one of weight 3 on up to 4 orbitals (2 types and fermions) as one-term operators, two- and three-term operators with 5 coefficients, '
             'x 8 lattices x 3 distance cutoffs; polygons: every choice of 3 to 6 orbitals '
             'of 5 lattices, cutoffs just below and above the size of the polygon',
    'thorough': 'as quick with every string of weight 3 and 4, 9 coefficients',
}
CHUNK = 2


def custom(vectors, atoms, num, periodic=None):
    uc = qy.lattice.UnitCell([np.array(v, float) for v in vectors])
    for pos, orbs in atoms:
        uc.add_atom(np.array(pos, float), list(orbs))
    return qy.lattice.Lattice(uc, tuple(num), periodic_boundaries=periodic)


def lattices():
    L = qy.lattice
    out = []
    for n in (1, 2, 4):
        for orbs in ((None, [''], ['Up', 'Dn'])):
            out.append(lambda n=n, orbs=orbs: L.chain(n, periodic=n > 2, orbital_names=orbs))
    out.append(lambda: custom([[1.5]], [([0.2], ['s', 'p', 'd']), ([0.9], ['']), ([1.1], [])], [3]))
    for m, n in ((1, 1), (2, 2), (3, 2)):
        out.append(lambda m=m, n=n: L.square(m, n, periodic_boundaries=(False, m > 2)))
        out.append(lambda m=m, n=n: L.kagome(m, n, periodic_boundaries=(False, False)))
        out.append(lambda m=m, n=n: custom([[1.0, 0.0], [0.5, np.sqrt(3) / 2]], [([0.0, 0.0], ['A', 'B']), ([0.3, 0.1], [])], [m, n], (True, True)))
        out.append(lambda m=m, n=n: custom([[1.0, 0.2], [-0.3, 1.4]], [([0.1, -0.2], ['']), ([0.5, 0.5], ['x'])], [m, n]))
    for k in ((1, 1, 1), (2, 1, 2), (2, 2, 2)):
        out.append(lambda k=k: custom(np.eye(3), [([0.0, 0.0, 0.0], [''])], k))
        out.append(lambda k=k: custom([[1.0, 0.0, 0.2], [0.0, 2.0, 0.0], [0.1, 0.3, 1.5]], [([0.0, 0.1, 0.0], ['Up', 'Dn']), ([0.5, 0.5, 0.5], ['']), ([0.9, 0.0, 0.0], [])], k))
    return out


def rgb(c):
    return tuple(int(round(255 * x)) for x in mcolors.to_rgb(c))


RED, BLUE, BLACK, GREEN = rgb('r'), rgb('b'), rgb('k'), rgb('g')


def rnd(p):
    return tuple(float(round(x, 6)) + 0.0 for x in np.asarray(p, float).ravel())


class Scene:
    """everything drawn in the current figure"""

    def __init__(self):
        self.dots, self.lines, self.polys, self.texts, self.arrows = [], [], [], [], 0
        for ax in plt.gcf().axes:
            three = ax.name == '3d'
            for l in ax.lines:
                xyz = np.array(l.get_data_3d() if three else l.get_data(), float).T
                a = l.get_alpha()
                a = 1.0 if a is None else a
                if l.get_marker() not in (None, 'None', '', ' '):
                    for p in xyz:
                        self.dots.append((rnd(p), rgb(l.get_markerfacecolor()), round(a, 6)))
                if l.get_linestyle() not in ('None', '', ' ') and len(xyz) > 1:
                    for p, q in zip(xyz, xyz[1:]):
                        self.lines.append((tuple(sorted([rnd(p), rnd(q)])), rgb(l.get_color()), round(a, 6)))
            for c in ax.collections:
                pts = np.array(c._offsets3d, float).T if three else np.asarray(c.get_offsets(), float)
                fc = c.get_facecolors() if not three else c._facecolor3d if hasattr(c, '_facecolor3d') else c.get_facecolors()
                fc = np.atleast_2d(fc)
                a = c.get_alpha()
                for i, p in enumerate(pts):
                    f = fc[i % len(fc)]
                    self.dots.append((rnd(p), rgb(f[:3]), round(1.0 if a is None else float(a), 6)))
            for p in ax.patches:
                if isinstance(p, matplotlib.patches.FancyArrow):
                    self.arrows += 1
                else:
                    xy = p.get_xy()
                    if len(xy) > 1 and np.allclose(xy[0], xy[-1]):
                        xy = xy[:-1]
                    a = p.get_alpha()
                    self.polys.append(([rnd(x) for x in xy], rgb(p.get_facecolor()[:3]), round(1.0 if a is None else a, 6)))
            for t in ax.texts:
                if three:
                    pos = t.get_position_3d() if hasattr(t, 'get_position_3d') else (t._x, t._y, t._z)
                else:
                    pos = t.xy if hasattr(t, 'xy') else t.get_position()
                self.texts.append((t.get_text(), rnd(pos)))


def snapshot(lat):
    return [(rnd(p), str(n), tuple(c)) for p, n, c in lat], [rnd(v) for v in lat.unit_cell.lattice_vectors]


def place(lat, i):
    """position of an orbital in the plot"""
    p = list(lat.position(i))
    return rnd(p + [0.0] if lat.dim == 1 else p)


def cases(tier):
    for k in range(len(lattices())):
        yield ['lattice', k]
    for k in range(len(scenes())):
        for t in ('Pauli', 'Majorana', 'Fermion'):
            for c in range(3):
                yield ['operator', k, t, c, tier]
    for k in range(len(wide())):
        for t in ('Pauli', 'Majorana', 'Fermion'):
            yield ['polygons', k, t, tier]
    yield ['errors']


def wide():
    # lattices on which the corners of a polygon come in many orders
    L = qy.lattice
    return [
        lambda: L.kagome(2, 1, periodic_boundaries=(False, False)),
        lambda: L.square(3, 2, periodic_boundaries=(False, False)),
        lambda: custom([[1.0, 0.0], [0.5, np.sqrt(3) / 2]], [([0.0, 0.0], ['A']), ([0.6, 0.1], ['B']), ([0.1, -0.7], [''])], [2, 1], (True, True)),
        lambda: custom([[3.0, 0.1], [0.0, 2.5]], [([0.0, 0.0], ['s', 'p']), ([-1.0, 0.4], ['']), ([0.7, 0.9], ['B']), ([0.2, -1.3], ['']), ([1.4, -0.2], [''])], [1, 1]),
        lambda: L.chain(6),
    ]


def scenes():
    L = qy.lattice
    return [
        lambda: L.chain(4),
        lambda: L.chain(2, True, ['Up', 'Dn']),
        lambda: L.square(2, 2, periodic_boundaries=(False, False)),
        lambda: custom([[1.0, 0.0], [0.5, np.sqrt(3) / 2]], [([0.0, 0.0], ['A']), ([0.4, 0.3], ['B'])], [2, 1], (True, True)),
        lambda: L.kagome(2, 1, periodic_boundaries=(False, False)),
        lambda: custom([[1.0, 0.2], [-0.3, 1.4]], [([0.1, -0.2], ['']), ([0.1, -0.2], ['x'])], [1, 2]),
        lambda: custom(np.eye(3), [([0.0, 0.0, 0.0], [''])], (2, 2, 1)),
        lambda: custom([[1.0, 0.0, 0.2], [0.0, 2.0, 0.0], [0.1, 0.3, 1.5]], [([0.0, 0.1, 0.0], ['Up', 'Dn']), ([0.5, 0.5, 0.5], [''])], (1, 1, 2)),
    ]


COLOR = {'X': RED, 'Y': GREEN, 'Z': BLUE, 'A': RED, 'B': GREEN, 'D': BLUE, 'CDag': RED, 'C': BLUE}


def expected(terms, lat, cutoff):
    """terms: [(coefficient, orbital operators, labels)]"""
    dots, lines, polys, texts = [], [], [], []
    big = max(abs(c) for c, _, _ in terms)
    for c, ops, labs in terms:
        w = (c / big).real
        a = round(0.5 * abs(w), 6)
        pos = [place(lat, i) for i in labs]
        far = max([np.linalg.norm(np.subtract(p, q)) for p in pos for q in pos] + [0.0])
        if not ops or (cutoff is not None and len(ops) > 1 and far > cutoff):
            continue
        bond = BLUE if w > 0 else RED
        if len(ops) <= 2:
            for o, i, p in zip(ops, labs, pos):
                dots.append((p, COLOR[o], a))
                if list(lat)[i][1] != '':
                    texts.append((list(lat)[i][1], p))
        if len(ops) == 2:
            lines.append((tuple(sorted(pos)), bond, a))
        elif len(ops) > 2:
            polys.append((pos, bond, a))
    return dots, lines, polys, texts


def blur(items):
    # (the opacities are not rounded consistently in the last digit)
    return collections.Counter((x[:-1] + (round(x[-1], 4),)) for x in items)


def around(poly):
    """are the corners in the order of their angles, seen from the middle?"""
    m = np.mean(poly, axis=0)
    d = np.array(poly) - m
    if np.min(np.linalg.norm(d, axis=1)) < 1e-6:
        return True
    a = np.arctan2(d[:, 1], d[:, 0])
    s = np.sort(np.mod(a, 2 * np.pi))
    if np.min(np.diff(np.append(s, s[0] + 2 * np.pi))) < 1e-6:
        return True
    turns = np.mod(np.diff(np.append(a, a[0])), 2 * np.pi)
    return abs(np.sum(turns) - 2 * np.pi) < 1e-6 or abs(np.sum(2 * np.pi - turns) - 2 * np.pi) < 1e-6


def judge_operator(terms, t, lat, cutoff, ctx, what, order=None):
    op = qy.Operator([c for c, _, _ in terms], [qy.OperatorString(list(o), list(l), t) for _, o, l in terms], t)
    before = [(complex(c), ref.key(s)) for c, s in op], snapshot(lat)
    plt.figure()
    try:
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter('always')
            if cutoff is None:
                qy.plot_operator(op, lat)
            else:
                qy.plot_operator(op, lat, distance_cutoff=cutoff)
        s = Scene()
    finally:
        plt.close('all')
    ctx.step()
    dots, lines, polys, texts = expected(terms, lat, cutoff)
    check(blur(s.dots) == blur(dots), '{}: markers {}, expected {}', what, s.dots, dots)
    check(blur(s.lines) == blur(lines), '{}: lines {}, expected {}', what, s.lines, lines)
    key = lambda ps: collections.Counter((tuple(sorted(set(p))), c, round(float(a), 4)) for p, c, a in ps)
    check(key(s.polys) == key(polys), '{}: polygons {}, expected {}', what, s.polys, polys)
    check(all(around(p) for p, _, _ in s.polys), '{}: the polygons {} are not in order', what, s.polys)
    check(collections.Counter(s.texts) == collections.Counter(texts), '{}: texts {}, expected {}', what, s.texts, texts)
    big = max(abs(x) for x, _, _ in terms)
    imag = [bool(o) for c, o, _ in terms if abs((c / big).imag) > 1e-9]
    warned = any('imaginary' in str(x.message) for x in w)
    check(warned or not any(imag), '{}: no warning about imaginary coefficients', what)
    check(imag or not warned, '{}: a warning about imaginary coefficients', what)
    check(before == ([(complex(c), ref.key(x)) for c, x in op], snapshot(lat)), '{}: an argument was modified', what)
    ctx.outcome((len(dots), len(lines), len(polys)))


def run(case, ctx):
    kind = case[0]
    if kind == 'lattice':
        lat = lattices()[case[1]]()
        before = snapshot(lat)
        n = len(lat)
        pos = [place(lat, i) for i in range(n)]
        pad = lambda p: rnd(list(p) + [0.0] * (lat.dim == 1))
        for flags in it.product((False, True), repeat=4):
            kw = dict(zip(('with_labels', 'with_lattice_vectors', 'with_unit_cell', 'with_wigner_seitz'), flags))
            plt.figure()
            try:
                qy.plot(lat, **kw)
                s = Scene()
            finally:
                plt.close('all')
            ctx.step()
            what = 'plot(lattice %d, %s)' % (case[1], kw)
            black = [p for p, c, _ in s.dots if c == BLACK]
            check(set(black) == set(pos), '{}: orbitals drawn at {}, expected {}', what, black, pos)
            red = {p for p, c, _ in s.dots if c == RED}
            want = set()
            vecs = [pad(v) for v in lat.unit_cell.lattice_vectors]
            if kw['with_lattice_vectors'] and lat.dim < 3:
                want |= set(vecs) | {pad([0.0] * lat.dim)}
            if kw['with_unit_cell']:
                want |= {pad(p) for p in lat.unit_cell.atom_positions}
            check(red == want, '{}: red markers at {}, expected {}', what, red, want)
            check(s.arrows == (len(vecs) if kw['with_lattice_vectors'] and lat.dim < 3 else 0), '{}: {} arrows', what, s.arrows)
            if not kw['with_labels']:
                check(s.texts == [], '{}: texts {}', what, s.texts)
            elif lat.dim < 3:
                check(sorted(s.texts) == sorted((str(i), pos[i]) for i in range(n)), '{}: labels {}', what, s.texts)
            else:
                got = sorted((int(i), p) for x, p in s.texts for i in x.replace('[', ' ').replace(']', ' ').replace(',', ' ').split())
                check(got == [(i, pos[i]) for i in range(n)], '{}: labels {}', what, s.texts)
            if kw['with_wigner_seitz'] and lat.dim == 2:
                # the cell of points which are closer to the origin than to other lattice points
                check(len(s.lines) >= 3 and all(c == RED for _, c, _ in s.lines), '{}: cell boundary {}', what, s.lines)
                V = np.array(lat.unit_cell.lattice_vectors)
                pts = [a * V[0] + b * V[1] for a in range(-3, 4) for b in range(-3, 4) if a or b]
                area = 0.0
                for (p, q), _, _ in s.lines:
                    area += abs(p[0] * q[1] - p[1] * q[0]) / 2
                    for x in (p, q):
                        d = [np.linalg.norm(np.array(x) - y) - np.linalg.norm(x) for y in pts]
                        check(min(d) > -1e-5 and sorted(d)[1] < 1e-5, '{}: {} is no corner of the Wigner-Seitz cell', what, x)
                check(abs(area - abs(np.linalg.det(V))) < 1e-4, '{}: the cell has area {}', what, area)
                deg = collections.Counter(x for seg, _, _ in s.lines for x in seg)
                check(set(deg.values()) == {2}, '{}: the cell boundary is not closed', what)
            else:
                check(s.lines == [], '{}: lines {}', what, s.lines)
            check(s.polys == [], '{}: polygons', what)
            ctx.state((case[1], flags))
        check(before == snapshot(lat), 'plotting modified lattice {}', case[1])
        ctx.outcome((lat.dim, n))
    elif kind == 'operator':
        _, k, t, c, tier = case
        lat = scenes()[k]()
        n = min(len(lat), 4)
        cutoff = [None, 0.75, 1.0][c]
        if t == 'Fermion':
            fam = [(('CDag', 'C'), (i, j)) for i in range(n) for j in range(i + 1)]
            fam += [(('CDag', 'CDag', 'C', 'C'), (i, j, m, i)) for i in range(n) for j in range(i + 1, n) for m in range(i + 1, n) if j >= m]
            fam += [(('C',), (i,)) for i in range(n)][:0]
        else:
            fam = ref.strings('XYZ' if t == 'Pauli' else 'ABD', range(n), 0, 2)
            big = [s for s in ref.strings('XYZ' if t == 'Pauli' else 'ABD', range(n), 3, 4)]
            fam = list(fam) + (big if tier == 'thorough' else [s for i, s in enumerate(big) if len(s[0]) == 3 and i % 3 == c or i % 31 == c])
        if lat.dim == 3:
            fam = [s for s in fam if len(s[0]) <= 2]
        for o, l in fam:
            for x in (1.0, -2.5)[:1 + (len(o) + sum(l)) % 2]:
                judge_operator([(x + 0j, o, l)], t, lat, cutoff, ctx, 'plot of %s (%s %s) on lattice %d, cutoff %s' % (x, o, l, k, cutoff))
            ctx.state((k, t, c, o, l))
        cs = [1.0, -1.0, 0.25, -0.6 + 0.3j, 0.5 - 2j] + ([3.0, -1j, 1e-3, -4.0] if tier == 'thorough' else [])
        m = len(fam)
        for i in range(m):
            for j in (i + 1, 2 * i + 3):
                if j % m == i:
                    continue
                for x, y in [(1.0, y) for y in cs] + [(-0.7, 0.25)]:
                    T = [(x + 0j, *fam[i]), (y + 0j, *fam[j % m])]
                    if i % 4 == 0 and (i + 7) % m not in (i, j % m):
                        T.append((0.1 + 0j, *fam[(i + 7) % m]))
                    if i % 3 == c or tier == 'thorough':
                        judge_operator(T, t, lat, cutoff, ctx, 'plot of %s on lattice %d, cutoff %s' % (T, k, cutoff))
                        ctx.state((k, c, str(T)))
    elif kind == 'polygons':
        _, k, t, tier = case
        lat = wide()[k]()
        n = len(lat)
        for w in range(3, n + 1):
            for labs in it.combinations(range(n), w):
                far = max(np.linalg.norm(np.subtract(place(lat, i), place(lat, j))) for i in labs for j in labs)
                for v in range(4 if tier == 'thorough' else 2):
                    if t == 'Fermion':
                        # increasing labels of creation operators, decreasing ones of annihilation operators
                        m = w // 2 if v % 2 == 0 else v * 2 % w
                        o, l = ('CDag',) * m + ('C',) * (w - m), tuple(labs[:m]) + tuple(reversed(labs[m:]))
                        if v % 2:
                            # an orbital which appears twice
                            o, l = ('CDag',) + ('C',) * w, (labs[v % w],) + tuple(reversed(labs))
                    else:
                        o, l = tuple(('XYZ' if t == 'Pauli' else 'ABD')[(i * (v + 1) + sum(labs)) % 3] for i in range(w)), labs
                    for cutoff in (None, far - 1e-3, far + 1e-3):
                        x = -1.5 if (sum(labs) + v) % 2 else 0.5
                        judge_operator([(x + 0j, o, l)], t, lat, cutoff, ctx, 'plot of %s (%s %s) on wide lattice %d, cutoff %s' % (x, o, l, k, cutoff))
                    ctx.state(('wide', k, t, o, l))
    else:
        four = qy.lattice.Lattice(qy.lattice.UnitCell(list(np.eye(4)), atom_positions=[np.zeros(4)], atom_orbitals=[['']]), (1, 1, 1, 2))
        for f in (lambda: qy.plot(four), lambda: qy.plot_opstring(qy.opstring('X 0'), four), lambda: qy.plot_operator(qy.Operator([1.0], [qy.opstring('Z 1')]), four)):
            plt.figure()
            try:
                f()
                check(False, 'a four-dimensional lattice was plotted')
            except ValueError:
                ctx.step()
            finally:
                plt.close('all')
        ctx.outcome('errors')
