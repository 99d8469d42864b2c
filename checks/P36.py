"""No call influences another: results depend on the arguments only."""
import contextlib
import io
import os
import pickle
import signal
import sys
import traceback
import numpy as np
import scipy.sparse as ss
import qosy as qy
from mc.harness import Violation, check

ID = 'P36'
BOUND = {
    'quick': 'all ordered pairs (i, j) of ~360 calls (every public function and constructor, each with up to ten arguments chosen to collide in any incomplete cache key) on shared '
             'arguments: j after i (and at most 6 calls of other functions in between) in a fresh process, against j alone; '
             'the result of i overwritten by the caller before j',
    'thorough': 'as quick, and all triples whose three members are any of 53 core calls',
}
CHUNK = 1
CASE_TIMEOUT = 800
GROUP = 6
OUT = io.StringIO()


# ---------------------------------------------------------------- the shared arguments
def world():
    w = {}
    S = lambda x, t=None: qy.opstring(x, t)
    for t, names in (('Pauli', ['X 0', 'Z 1', 'X 0 X 1', 'Y 0 Y 1', 'Z 0 Z 1', 'X 2', 'Z 0 Z 2', 'X 0 Y 1']),
                     ('Majorana', ['A 0', 'D 1', '1j A 0 A 1', '1j B 0 B 1', 'D 0 D 1', 'A 2', '1j A 0 B 1', '1j A 0 B 2']),
                     ('Fermion', ['CDag 0', 'CDag 0 C 0', 'CDag 0 C 1', '1j CDag 0 C 1', 'CDag 0 CDag 1 C 1 C 0', 'CDag 1 C 1', 'CDag 0 CDag 1', 'CDag 1 C 2'])):
        k = t[0]
        s = [S(x, t) for x in names]
        w[k + 's'] = s
        w[k + 'id'] = qy.OperatorString([], [], t)
        w[k + 'o1'] = qy.Operator([1.0, 0.5, 0.25], [s[2], s[3], s[4]], t)
        w[k + 'o2'] = qy.Operator([1.0, -0.5, 0.25], [s[2], s[3], s[4]], t)
        w[k + 'o3'] = qy.Operator([1.0, 0.5], [s[1], s[5]], t)
        w[k + 'b1'] = qy.Basis(s[:5])
        w[k + 'b2'] = qy.Basis(s[:5][::-1])
        w[k + 'b3'] = qy.Basis(s[:3])
        w[k + 'l1'] = [qy.Operator([1.0, 1.0], [s[2], s[3]], t), qy.Operator([1.0], [s[4]], t)]
        w[k + 'l2'] = [qy.Operator([1.0, -1.0], [s[2], s[3]], t), qy.Operator([1.0], [s[4]], t)]
    w['hop'] = qy.Operator([1.0, 1.0, 0.5], [S('CDag 0 C 1'), S('CDag 1 C 2'), S('CDag 1 C 1')])
    w['hop2'] = qy.Operator([1.0, -2.0, 0.5], [S('CDag 0 C 1'), S('CDag 1 C 2'), S('CDag 1 C 1')])
    w['pair'] = qy.Operator([1.0, 0.3], [S('CDag 0 C 1'), S('CDag 0 CDag 1')])
    w['pair2'] = qy.Operator([1.0, 0.7], [S('CDag 0 C 1'), S('CDag 0 CDag 1')])
    w['chain'] = qy.lattice.chain(3, True)
    w['four'] = qy.lattice.chain(4, True)
    w['open'] = qy.lattice.chain(3, False)
    w['square'] = qy.lattice.square(2, 2, (True, True))
    w['spins'] = qy.lattice.chain(2, True, ['Up', 'Dn'])
    w['spins2'] = qy.lattice.chain(2, True, ['Dn', 'Up'])
    w['T'] = qy.time_reversal()
    w['P'] = qy.particle_hole()
    w['swap'] = qy.label_permutation([1, 0, 2])
    w['cycle'] = qy.label_permutation([1, 2, 0])
    w['one'] = qy.label_permutation([0, 1, 2])
    w['R'] = np.array([[-1.0]])
    w['d'] = np.array([1.0])
    w['vecs'] = np.array([[1.0, 1.0, 0.0], [1.0, -1.0, 0.0], [0.0, 0.0, 2.0], [0.5, 0.0, 0.0], [0.0, 1.0, 1.0]])
    w['vecs2'] = np.array([[0.0, 1.0], [1.0, 0.0], [0.0, 0.0], [0.5, 0.25], [0.0, 0.5]])
    w['state'] = np.array([1.0, 0.0, 0.5j, 0.0, 0.0, -1.0, 0.0, 0.25]) / np.linalg.norm([1.0, 0.5, 1.0, 0.25])
    w['state2'] = np.roll(w['state'], 1)
    w['graph'] = [{1, 2}, {0, 2}, {0, 1}, {4}, {3}]
    w['graph2'] = [{1}, {0, 2}, {1}, {4}, {3}]
    w['perm'] = [2, 0, 1]
    w['perm2'] = [0, 2, 1]
    w['R90'] = np.array([[0.0, -1.0], [1.0, 0.0]])
    w['list'] = ['b', 'a', 'c']
    return w


def terms(o):
    return {(complex(s.prefactor), s.op_type, tuple(str(x) for x in s.orbital_operators), tuple(int(x) for x in s.orbital_labels)): complex(c) for c, s in o}


def string(s):
    return ('String', s.op_type, complex(s.prefactor), tuple(str(x) for x in s.orbital_operators), tuple(int(x) for x in s.orbital_labels))


def canon(x):
    """a comparable description of a result"""
    if isinstance(x, qy.Operator):
        return ('Operator', str(x.op_type), terms(x), len(x))
    if isinstance(x, qy.Basis):
        return ('Basis', [string(s) for s in x])
    if isinstance(x, qy.OperatorString):
        return string(x)
    if isinstance(x, qy.Lattice):
        return ('Lattice', [(np.array(p, dtype=float), str(n)) + tuple(np.array(y) for y in r) for p, n, *r in x], [np.array(x.position(i)) for i in range(len(x))],
                [np.array(v) for v in x.unit_cell.lattice_vectors], str(x))
    if isinstance(x, qy.UnitCell):
        return ('UnitCell', [np.array(v) for v in x.lattice_vectors])
    if isinstance(x, qy.Transformation):
        r = []
        for t in (['X 0', 'Y 1 Z 0', 'Y 0'], ['A 0', 'B 0 A 1', 'D 1']):
            for s in t:
                with contextlib.suppress(Exception):
                    r.append(canon(x.apply(qy.opstring(s))))
        return ('Transformation', r)
    if ss.issparse(x):
        return ('sparse', np.array(x.toarray(), dtype=complex))
    if isinstance(x, np.ndarray):
        if x.dtype == object or x.dtype.kind in 'US':
            return ('list', [canon(y) for y in x.tolist()])
        return ('array', np.array(x, dtype=complex))
    if isinstance(x, dict):
        return ('dict', sorted(((repr(canon(k)), canon(v)) for k, v in x.items()), key=lambda y: y[0]))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [canon(y) for y in x])
    if isinstance(x, (set, frozenset)):
        return ('set', sorted(repr(canon(y)) for y in x))
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, complex, np.number)):
        return complex(x)
    return str(x) if not isinstance(x, type(None)) else None


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and (a.size == 0 or bool(np.allclose(a, b, rtol=1e-7, atol=1e-7, equal_nan=True)))
    if isinstance(a, complex):
        return a == b or abs(a - b) <= 1e-7 * max(1.0, abs(a)) or (a != a and b != b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        # (terms that cancelled may be absent or zero)
        return all(abs(a.get(k, 0) - b.get(k, 0)) < 1e-7 for k in set(a) | set(b))
    return a == b


# ---------------------------------------------------------------- the calls
def proj(V):
    """the space spanned by columns, whatever basis of it was chosen"""
    V = V.toarray() if ss.issparse(V) else np.asarray(V)
    if V.size == 0:
        return (V.shape, np.zeros((0, 0)))
    q, s, _ = np.linalg.svd(V, full_matrices=False)
    q = q[:, s > 1e-8]
    return (V.shape, q @ q.conj().T)


def span(ops):
    strs = sorted({k for o in ops for k in terms(o)}, key=repr)
    V = np.array([[terms(o).get(k, 0) for o in ops] for k in strs]).reshape(len(strs), len(ops))
    return (len(ops), [str(k) for k in strs], proj(V))


def eig(r):
    """eigenvalues, and the eigenvectors as a matrix function"""
    E, V = np.asarray(r[0]), np.asarray(r[1])
    return (E, (V * (E + 3.7)) @ V.conj().T)


def ci(r):
    return (float(np.real(r[1])), len(r[2]), [sorted(map(repr, terms(o))) for o in r[2]], [float(np.real(x)) for x in np.ravel(r[3])])


def gen(b, *syms, **kw):
    g = qy.SymmetricOperatorGenerator(b)
    for s in syms:
        if isinstance(s, tuple):
            g.add_symmetry(s[0], operation_mode=s[1])
        else:
            g.add_symmetry(s)
    g.generate(**kw)
    r = g.projected_output_operators
    return [proj(x) for x in r] if not isinstance(r, list) or not r or not isinstance(r[0], list) else [span(x) for x in r]


def printed(f):
    def g(w):
        OUT.seek(0)
        OUT.truncate()
        with contextlib.redirect_stdout(OUT):
            f(w)
        return OUT.getvalue()
    return g


def drawn(f):
    def g(w):
        import matplotlib.pyplot as plt
        plt.close('all')
        fig = plt.figure()
        f(w)
        ax = fig.gca()
        r = [[np.array(x.get_xdata(orig=False), dtype=float) for x in ax.lines], [np.array(x.get_ydata(orig=False), dtype=float) for x in ax.lines],
             [str(x.get_color()) + str(x.get_alpha()) for x in ax.lines], [np.array(c.get_offsets()) for c in ax.collections],
             [np.array(c.get_facecolor()) for c in ax.collections], [x.get_text() for x in ax.texts], [np.array(p.get_path().vertices) for p in ax.patches], len(plt.get_fignums())]
        plt.close('all')
        return r
    return g


def calls():
    c = []

    def add(name, f):
        c.append((name, f))

    A = qy.algorithms
    # parsing: the same names, read as different things
    for t in ('X 0', 'Y 1 X 0', '1j A 0 A 1', 'A 1 A 0', 'A 0 A 1', 'CDag 0 C 1', 'CDag 1 C 0', '1j CDag 0 C 1', 'Z 10', 'Z 1'):
        add('opstring(%r)' % t, lambda w, t=t: qy.opstring(t))
    for t in ('Pauli', 'Majorana', 'Fermion', 'Spin'):
        add("opstring('', %s)" % t, lambda w, t=t: qy.opstring('', t))
        add('OperatorString([], [], %s)' % t, lambda w, t=t: qy.OperatorString([], [], t))
        add('OperatorString([X], [0], %s)' % t, lambda w, t=t: qy.OperatorString(['X'], [0], t))
        add('Operator([], [], %s)' % t, lambda w, t=t: qy.Operator([], [], t))
    add('Basis()', lambda w: qy.Basis())
    add('Operator()', lambda w: qy.Operator())
    add('Operator([2], [s])', lambda w: qy.Operator([2.0], [w['Ps'][0]]))
    add('Operator([3], [s])', lambda w: qy.Operator([3.0], [w['Ps'][0]]))
    add('opstring(invalid)', lambda w: qy.opstring('X 0 Q'))
    add('Basis(twice)', lambda w: qy.Basis([w['Ps'][0], w['Ps'][0]]))
    # bases
    for k, l, t, i in ((1, [0, 1], 'Pauli', False), (2, [0, 1], 'Pauli', False), (2, [1, 0], 'Pauli', True), (2, [0, 2], 'Pauli', False), (2, [0, 1], 'Majorana', False),
                       (2, [0, 1], 'Fermion', False), ([2], [0, 1], 'Pauli', False), ([1, 2], [0, 1], 'Majorana', True)):
        add('cluster_basis(%s, %s, %s, %s)' % (k, l, t, i), lambda w, k=k, l=l, t=t, i=i: qy.cluster_basis(k, list(l), t, include_identity=i))
    for L, k, R, t, o in (('chain', 2, 1, 'Pauli', None), ('open', 2, 1, 'Pauli', None), ('chain', 2, 0.5, 'Pauli', None), ('chain', 2, 1, 'Majorana', None),
                          ('chain', 2, 1, 'Pauli', ['']), ('chain', 1, 1, 'Pauli', None), ('square', 2, 1, 'Fermion', None)):
        add('distance_basis(%s, %s, %s, %s, %s)' % (L, k, R, t, o), lambda w, L=L, k=k, R=R, t=t, o=o: qy.distance_basis(w[L], k, R, t, allowed_orbitals=None if o is None else [0, 1]))
    # Operators
    for k in 'PMF':
        add(k + 'o1 + o2', lambda w, k=k: w[k + 'o1'] + w[k + 'o2'])
        add(k + 'o1 - o1', lambda w, k=k: w[k + 'o1'] - w[k + 'o1'])
        add('2 * %so1' % k, lambda w, k=k: 2.0 * w[k + 'o1'])
        add(k + 'o2.norm()', lambda w, k=k: [w[k + 'o2'].norm(), w[k + 'o2'].norm(order=1)])
        add(k + 'o1.remove_zeros()', lambda w, k=k: w[k + 'o1'].remove_zeros(tol=0.3))
        add(k + 'o1.to_vector(b1)', lambda w, k=k: w[k + 'o1'].to_vector(w[k + 'b1']))
        add(k + 'o1.to_vector(b2)', lambda w, k=k: w[k + 'o1'].to_vector(w[k + 'b2']))
        add('str(%so1)' % k, lambda w, k=k: [str(w[k + 'o1']), str(w[k + 'b1']), str(w[k + 's'][3])])
        add('%sb3 + b2' % k, lambda w, k=k: w[k + 'b3'] + w[k + 'b2'])
        add('%sb3 + s' % k, lambda w, k=k: w[k + 'b3'] + w[k + 's'][7])
        add('%sb.index' % k, lambda w, k=k: [w[b].index(w[k + 's'][1]) for b in (k + 'b1', k + 'b2', k + 'b3')] + [w[k + 's'][7] in w[k + 'b1']])
    add('Po1 + Mo1', lambda w: w['Po1'] + w['Mo1'])
    # conversions
    for a, t in (('P', 'Majorana'), ('M', 'Pauli'), ('M', 'Fermion'), ('F', 'Majorana'), ('F', 'Pauli'), ('P', 'Fermion')):
        add('convert(%ss, %s)' % (a, t), lambda w, a=a, t=t: [qy.convert(s, t) for s in w[a + 's'][:5]])
        add('convert(%so1, %s)' % (a, t), lambda w, a=a, t=t: qy.convert(w[a + 'o1'], t))
    for i in (False, True):
        add('convert(D, Fermion, %s)' % i, lambda w, i=i: qy.convert(w['Ms'][1], 'Fermion', include_identity=i))
        add('convert(CDag C, Majorana, %s)' % i, lambda w, i=i: qy.convert(w['Fs'][1], 'Majorana', include_identity=i))
    add('conversion_matrix(b1, b2)', lambda w: qy.conversion_matrix(w['Mb1'], qy.cluster_basis(2, [0, 1], 'Pauli')))
    add('conversion_matrix(b2, b1)', lambda w: qy.conversion_matrix(w['Mb2'], qy.cluster_basis(2, [0, 1], 'Pauli')))
    # algebra
    for f in ('product', 'commutator', 'anticommutator'):
        for k in 'PM':
            add('%s(%ss2, s4)' % (f, k), lambda w, f=f, k=k: getattr(qy, f)(w[k + 's'][2], w[k + 's'][1]))
            add('%s(%ss4, s2)' % (f, k), lambda w, f=f, k=k: getattr(qy, f)(w[k + 's'][1], w[k + 's'][2]))
            add('%s(%so1, o3)' % (f, k), lambda w, f=f, k=k: getattr(qy, f)(w[k + 'o1'], w[k + 'o3']))
            add('%s(%so2, o3)' % (f, k), lambda w, f=f, k=k: getattr(qy, f)(w[k + 'o2'], w[k + 'o3']))
    add('product(F, F)', lambda w: qy.product(w['Fo1'], w['Fo2']))
    for m in ('commutator', 'anticommutator', 'product', 'commute', 'wrong'):
        for k, b in (('P', 'b1'), ('P', 'b2'), ('M', 'b1')):
            add('structure_constants(%s%s, b3, %s)' % (k, b, m), lambda w, k=k, b=b, m=m: list(zip(map(string, w[k + 'b3']), [qy.structure_constants(w[k + b], w[k + 'b3'], operation_mode=m)[s] for s in w[k + 'b3']])))
        for o in ('o1', 'o2'):
            add('liouvillian_matrix(Pb1, %s, %s)' % (o, m), lambda w, o=o, m=m: qy.liouvillian_matrix(w['Pb1'], w['P' + o], operation_mode=m))
    add('liouvillian_matrix(extended)', lambda w: qy.liouvillian_matrix(w['Pb1'], w['Po1'], return_extended_basis=True))
    for l in ('l1', 'l2'):
        add('liouvillian_matrix(%s)' % l, lambda w, l=l: qy.liouvillian_matrix(w['P' + l], w['Po3']))
        add('commutant_matrix(%s)' % l, lambda w, l=l: qy.commutant_matrix(w['P' + l], w['Po3']))
        add('symmetry_matrix(%s)' % l, lambda w, l=l: qy.symmetry_matrix(w['P' + l], w['swap']))
        add('invariant_operators(%s)' % l, lambda w, l=l: proj(qy.invariant_operators(w['P' + l], w['swap'])))
    add('generate_lie_algebra', lambda w: span(list(qy.generate_lie_algebra([w['Po1'], w['Po3']]))))
    add('generate_lie_algebra 2', lambda w: span(list(qy.generate_lie_algebra(w['Ml1']))))
    add('generate_lie_algebra 3', lambda w: span(list(qy.generate_lie_algebra(w['Ml2']))))
    for b in ('Pb1', 'Mb3'):
        add('generate_lie_algebra(%s)' % b, lambda w, b=b: qy.generate_lie_algebra(w[b]))
    # transformations
    for n, f in (('T', lambda w: qy.time_reversal()), ('T01', lambda w: qy.time_reversal(w['spins'])), ('T10', lambda w: qy.time_reversal((w['spins2'], 'Up', 'Dn'))), ('T10 reversed', lambda w: qy.time_reversal((w['spins2'], 'Dn', 'Up'))), ('P', lambda w: qy.particle_hole()), ('C', lambda w: qy.charge_conjugation()),
                 ('swap', lambda w: qy.label_permutation([1, 0, 2])), ('cycle', lambda w: qy.label_permutation([1, 2, 0])), ('space', lambda w: qy.space_group_symmetry(w['chain'], w['R'], w['d'])),
                 ('space shift', lambda w: qy.space_group_symmetry(w['chain'], -w['R'], w['d'])), ('space open', lambda w: qy.space_group_symmetry(w['open'], w['R'], 2 * w['d'])),
                 ('not a symmetry', lambda w: qy.space_group_symmetry(w['open'], -w['R'], w['d'])), ('flip', lambda w: qy.spin_flip_symmetry(w['spins'])), ('flip2', lambda w: qy.spin_flip_symmetry(w['spins2'])),
                 ('parity', lambda w: qy.spin_parity_symmetry(w['spins'])), ('parity2', lambda w: qy.spin_parity_symmetry(w['spins2'])), ('swap cycle', lambda w: w['swap'] * w['cycle']),
                 ('cycle swap', lambda w: w['cycle'] * w['swap']), ('cycle^2', lambda w: w['cycle'] ** 2), ('cycle^3', lambda w: w['cycle'] ** 3), ('P T', lambda w: w['P'] * w['T'])):
        add('Transformation ' + n, f)
    for n in ('T', 'P', 'swap', 'cycle', 'one'):
        add(n + '.apply', lambda w, n=n: [canon(w[n].apply(x)) for x in w['Ms'][:4]] + [canon(w[n].apply(w['Mo1' if n == 'P' else 'Po1']))])
        add('symmetry_matrix(%s)' % n, lambda w, n=n: qy.symmetry_matrix(qy.cluster_basis(2, [0, 1, 2], 'Majorana' if n == 'P' else 'Pauli'), w[n]))
        add('invariant_operators(%s)' % n, lambda w, n=n: proj(qy.invariant_operators(w['Mb3' if n == 'P' else 'Pb3'], w[n])))
    for n in ('swap', 'cycle', 'one'):
        add('symmetrize_basis(%s)' % n, lambda w, n=n: [canon(o) for o in qy.symmetrize_basis(w['Mb1'] if n == 'swap' else w['Pb3'], [w[n]])])
    add('symmetrize_basis(two)', lambda w: [canon(o) for o in qy.symmetrize_basis(w['Pb3'], [w['swap'], w['cycle']])])
    for m in ('symmetry', 'antisymmetry', 'commutator', 'anticommutator', 'wrong'):
        add('invariant_operators(swap, %s)' % m, lambda w, m=m: proj(qy.invariant_operators(qy.cluster_basis(2, [0, 1], 'Pauli'), w['swap'], operation_mode=m)))
    # the main searches
    for b in ('b1', 'b2', 'b3'):
        for m in ('commutator', 'anticommutator'):
            add('commuting_operators(%s, %s)' % (b, m), lambda w, b=b, m=m: proj(qy.commuting_operators(w['P' + b], w['Po3'], operation_mode=m)))
    add('commuting_operators(tol)', lambda w: proj(qy.commuting_operators(w['Pb1'], w['Po3'], tol=1e3)))
    add('commuting_operators(super)', lambda w: (lambda r: [proj(r[0]), r[1], r[2]])(qy.commuting_operators(w['Pb1'], w['Po3'], return_superoperator=True)))
    add('commuting_operators(o2)', lambda w: proj(qy.commuting_operators(w['Pb1'], w['Po2'])))
    for m in ('cumulative', 'noncumulative', 'wrong'):
        add('generator(%s)' % m, lambda w, m=m: gen(qy.cluster_basis(2, [0, 1, 2], 'Pauli'), w['swap'], w['Po3'], mode=m, verbose=False))
    add('generator(anti)', lambda w: gen(qy.cluster_basis(2, [0, 1], 'Pauli'), (w['swap'], 'anticommutator'), verbose=False))
    add('generator(none)', lambda w: gen(w['Pb3'], w['one'], verbose=False))
    add('generator(orth)', lambda w: gen(w['Mb1'], w['Mo3'], sparsification=False, orthogonalization=True, verbose=False))
    # matrices and states
    for o in ('Po1', 'Po2', 'Po3', 'Mo1'):
        for n in (2, 3) if o == 'Po1' else (3,):
            add('to_matrix(%s, %d)' % (o, n), lambda w, o=o, n=n: qy.to_matrix(w[o], n))
    add('to_vector', lambda w: qy.to_vector(qy.to_matrix(w['Po1'], 2), w['Pb1'], 2))
    add('to_vector b2', lambda w: qy.to_vector(qy.to_matrix(w['Po1'], 2), w['Pb2'], 2))
    add('to_operator', lambda w: qy.to_operator(qy.to_matrix(w['Po1'], 2), w['Pb1'], 2))
    for s in ('state', 'state2'):
        for n in ('swap', 'cycle'):
            add('apply_transformation(%s, %s)' % (n, s), lambda w, s=s, n=n: qy.apply_transformation(w[n], w[s], 3))
        for k in ([0], [1], [0, 1], [1, 0]):
            add('reduced_density_matrix(%s, %s)' % (s, k), lambda w, s=s, k=k: qy.reduced_density_matrix(w[s], list(k), 3))
        for n in (2, 3):
            add('renyi_entropy(%s, %d)' % (s, n), lambda w, s=s, n=n: qy.renyi_entropy(np.outer(w[s], np.conj(w[s]))[:4, :4] + 0.25 * np.eye(4), n=n))
    for o in ('Po1', 'Po3', 'Mo1'):
        add('diagonalize(%s)' % o, lambda w, o=o: eig(qy.diagonalize(w[o], 3)))
    add('diagonalize(few)', lambda w: np.asarray(qy.diagonalize(w['Po1'], 3, num_vecs=2)[0]))
    for h in ('hop', 'hop2'):
        add('diagonalize_quadratic(%s)' % h, lambda w, h=h: np.asarray(qy.diagonalize_quadratic(w[h], 3)[0]))
        add('tightbinding(%s)' % h, lambda w, h=h: eig(qy.diagonalize_quadratic_tightbinding(w[h], 3)))
    for h in ('pair', 'pair2'):
        add('diagonalize_bdg(%s)' % h, lambda w, h=h: np.sort(np.real(np.asarray(qy.diagonalize_bdg(w[h], 2)[0]))))
    # lattices
    for n, f in (('chain 3', lambda w: qy.lattice.chain(3)), ('chain 3 periodic', lambda w: qy.lattice.chain(3, True)), ('chain 4', lambda w: qy.lattice.chain(4)), ('chain orbitals', lambda w: qy.lattice.chain(3, True, ['Up', 'Dn'])),
                 ('square', lambda w: qy.lattice.square(2, 2)), ('square 2x3', lambda w: qy.lattice.square(2, 3, (True, False))), ('cubic', lambda w: qy.lattice.cubic(3, (2, 1, 2))), ('kagome', lambda w: qy.lattice.kagome(2, 1)),
                 ('kagome periodic', lambda w: qy.lattice.kagome(2, 1, (True, True)))):
        add('lattice ' + n, f)
    for l in ('chain', 'open'):
        add('positions in ' + l, lambda w, l=l: [np.array(w[l].position(i)) for i in range(len(w[l]))] + [w[l].index(p, n) for p, n, *_ in w[l]])
        add('distances in ' + l, lambda w, l=l: [w[l].distance(w[l].position(0), w[l].position(i)) for i in range(len(w[l]))] + [w[l].distance(w[l].position(0), np.array([1.7]))])
    def cell(names):
        def f(w):
            u = qy.UnitCell([np.array([1.0])])
            u.add_atom(np.array([0.0]), list(names) if names else None)
            return qy.Lattice(u, (2,), periodic_boundaries=(True,))
        return f
    add('UnitCell', cell(None))
    add('UnitCell names', cell(['a', 'b']))
    add('UnitCell two', lambda w: qy.Lattice(qy.UnitCell([np.array([2.0])], [np.array([0.0]), np.array([0.5])], [['a'], ['b']]), (2,)))
    add('symmetrize_lattice', lambda w: qy.symmetrize_lattice(w['square'], [w['R90']]))
    add('symmetrize_lattice -', lambda w: qy.symmetrize_lattice(w['square'], [np.diag([-1.0, 1.0])]))
    # output
    for k, l in (('P', None), ('M', None), ('F', None), ('P', 'chain')):
        for cv in (None, 'Pauli' if k != 'P' else 'Majorana'):
            add('print_operators(%s, %s, %s)' % (k, l, cv), printed(lambda w, k=k, l=l, cv=cv: qy.print_operators([w[k + 'o1']], lattice=l and w[l], convert_to=cv)))
    add('print_vectors', printed(lambda w: qy.print_vectors(w['Pb1'], w['vecs'])))
    add('print_vectors keywords', printed(lambda w: qy.print_vectors(w['Pb1'], w['vecs'], keywords=['X'])))
    add('print_vectors norm', printed(lambda w: qy.print_vectors(w['Pb2'], w['vecs2'], norm_order=1)))
    add('print_vectors norm inf', printed(lambda w: qy.print_vectors(w['Pb2'], w['vecs2'], norm_order=np.inf)))
    # (four lattices of four orbitals)
    for l in ('four', 'square', 'spins', 'spins2'):
        add('relabel_orbitals(%s)' % l, lambda w, l=l: [qy.relabel_orbitals('X 0 Y 3', w[l]), qy.relabel_orbitals('X 2 Y 1', w[l])])
        add('print_operators(Po1, %s)' % l, printed(lambda w, l=l: qy.print_operators([w['Po1']], lattice=w[l])))
        add('distance_basis(%s, 2, 1, Pauli, 4)' % l, lambda w, l=l: qy.distance_basis(w[l], 2, 1, 'Pauli'))
        add('space_group_symmetry(%s)' % l, lambda w, l=l: qy.space_group_symmetry(w[l], np.eye(2) if l == 'square' else np.eye(1), np.array([1.0, 0.0]) if l == 'square' else w['d']))
        add('positions and distances(%s)' % l, lambda w, l=l: [[np.array(w[l].position(i)), w[l].distance(w[l].position(0), w[l].position(i))] for i in range(4)])
        add('str(%s)' % l, lambda w, l=l: [str(w[l]), len(w[l])])
    add('plot chain', drawn(lambda w: qy.plot(w['four'])))
    add('plot spins', drawn(lambda w: qy.plot(w['spins'], with_labels=True)))
    add('plot square', drawn(lambda w: qy.plot(w['square'], with_labels=True, with_unit_cell=True)))
    add('plot_opstring', drawn(lambda w: qy.plot_opstring(w['Ps'][2], w['chain'])))
    add('plot_opstring weight', drawn(lambda w: qy.plot_opstring(w['Ps'][2], w['chain'], weight=-0.5)))
    add('plot_operator', drawn(lambda w: qy.plot_operator(w['Po1'], w['square'])))
    add('plot_operator 2', drawn(lambda w: qy.plot_operator(w['Po2'], w['square'])))
    # selected configuration interaction
    H = lambda w: w['Po1'] + w['Po3']
    for o in ('Pl1', 'Pl2'):
        for k in (1, 2):
            add('selected_ci(%s, %d)' % (o, k), lambda w, o=o, k=k: ci(A.selected_ci(w[o][0], H(w), k)))
        add('selected_ci_simple(%s)' % o, lambda w, o=o: ci(A.selected_ci_simple(w[o][0], H(w), 2)))
        add('selected_ci_sweep(%s)' % o, lambda w, o=o: ci(A.selected_ci_sweep(w[o][0], H(w), 1)))
        add('selected_ci_greedy(%s)' % o, lambda w, o=o: ci(A.selected_ci_greedy(w[o][0], [H(w)], 2, verbose=False)))
        add('selected_ci_greedy_simple(%s)' % o, lambda w, o=o: ci(A.selected_ci_greedy_simple(w[o][0], H(w), 2)))
    for t in (1e-6, 0.4):
        add('_truncate_basis(%s)' % t, lambda w, t=t: list(map(canon, [A._truncate_basis(w['Pb1'], np.array([0.9, 0.1, 0.3, 0.05, 0.2]), threshold=t)])))
    # utilities
    for p in ('perm', 'perm2'):
        add('sign(%s)' % p, lambda w, p=p: qy.sign(w[p]))
        for m in ('insertionsort', 'mergesort'):
            add('sort_sign(%s, %s)' % (p, m), lambda w, p=p, m=m: qy.sort_sign(np.array(w[p]), method=m))
        add('compose(%s)' % p, lambda w, p=p: qy.compose_permutations(w[p], w['perm']))
    add('compare', lambda w: [qy.compare(w['perm'], w['perm2']), qy.compare(w['perm2'], w['perm']), qy.compare([1], [0, 1])])
    for g in ('graph', 'graph2'):
        add('maximal_cliques(%s)' % g, lambda w, g=g: sorted(sorted(int(x) for x in c) for c in qy.maximal_cliques(w[g])))
        for m in (None, 'BFS', 'DFS'):
            add('connected_components(%s, %s)' % (g, m), lambda w, g=g, m=m: sorted(sorted(int(x) for x in c) for c in qy.connected_components(w[g], mode=m)))
    add('argsort', lambda w: [int(x) for x in qy.argsort(w['list'])])
    add('argsort reverse', lambda w: [int(x) for x in qy.argsort(w['list'], comp=lambda a, b: (a < b) - (a > b))])
    add('remove_duplicates', lambda w: qy.remove_duplicates([1.0, 1.5, 1.0, 2.0]))
    add('remove_duplicates tol', lambda w: qy.remove_duplicates([1.0, 1.5, 1.0, 2.0], tol=0.6))
    add('remove_duplicates equiv', lambda w: qy.remove_duplicates([1.0, 1.5, 1.0, 2.0], equiv=lambda a, b: int(a) == int(b)))
    add('swap', lambda w: qy.swap('a b ab', 'a', 'b'))
    add('swap 2', lambda w: qy.swap('a b ab', 'a', 'ab'))
    add('replace', lambda w: qy.replace('a b ab', {'a': 'b', 'ab': 'c'}))
    add('replace nothing', lambda w: qy.replace('a b ab', {}))
    for v in ('vecs', 'vecs2'):
        add('gram_schmidt(%s)' % v, lambda w, v=v: qy.gram_schmidt(w[v]))
        add('gram_schmidt(sparse %s)' % v, lambda w, v=v: qy.gram_schmidt(ss.csc_matrix(w[v])))
        for o in (True, False):
            add('sparsify(%s, %s)' % (v, o), lambda w, v=v, o=o: qy.sparsify(w[v], orthogonalize=o))
    add('intersection', lambda w: proj(qy.intersection(np.linalg.qr(w['vecs'])[0], np.linalg.qr(w['vecs2'])[0])))
    add('intersection same', lambda w: proj(qy.intersection(np.linalg.qr(w['vecs'])[0], np.linalg.qr(w['vecs'])[0])))
    return c


CORE = ('opstring(', 'cluster_basis(2', 'distance_basis(chain', 'convert(', 'product(', 'commutator(P', 'structure_constants(Pb1', 'liouvillian_matrix(Pb1', 'symmetry_matrix(', 'commuting_operators(b1',
        'generator(', 'to_matrix(P', 'Transformation swap', 'Transformation T', 'Operator(', 'OperatorString([]', 'selected_ci(')


def overwrite(r):
    """what a caller may do with what it was given"""
    with contextlib.suppress(Exception):
        if isinstance(r, (list, tuple)):
            for y in r:
                if isinstance(y, np.ndarray) or ss.issparse(y):
                    overwrite(y)
        if isinstance(r, np.ndarray):
            r[...] = 7
        elif ss.issparse(r):
            r.data[...] = 7
        elif isinstance(r, (list, dict)):
            r.clear()
        elif isinstance(r, qy.Operator):
            r += qy.Operator([5.0], [qy.OperatorString([], [], r.op_type)])
            r.coeffs[...] = 7
        elif isinstance(r, qy.Basis):
            r += qy.opstring('X 77')


def perform(f, w):
    np.random.seed(12345)
    try:
        r = f(w)
    except Exception as e:
        return None, ('exception', type(e).__name__)
    return r, canon(r)


def in_child(f):
    """f() in a child process -> its (picklable) answer"""
    r, s = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            signal.alarm(0)
            os.close(r)
            try:
                a = ('ok', f())
            except BaseException as e:
                a = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            with os.fdopen(s, 'wb') as p:
                p.write(pickle.dumps(a))
            code = 0
        finally:
            os._exit(code)
    os.close(s)
    with os.fdopen(r, 'rb') as p:
        data = p.read()
    os.waitpid(pid, 0)
    if not data:
        raise Violation('the process died')
    a = pickle.loads(data)
    if a[0] != 'ok':
        raise Violation(a[1])
    return a[1]


STATE = {}


def prepare():
    if not STATE:
        STATE['calls'] = calls()
        STATE['world'] = w = world()
        STATE['before'] = {k: canon(v) for k, v in w.items()}
        STATE['alone'] = [in_child(lambda f=f: perform(f, w)[1]) for _, f in STATE['calls']]
    return STATE['calls'], STATE['world'], STATE['alone']


def unchanged(w, what):
    for k, v in w.items():
        check(same(canon(v), STATE['before'][k]), '{}: the argument {} was modified: {} -> {}', what, k, STATE['before'][k], str(v))


def core_calls():
    return [i for i, (n, _) in enumerate(calls()) if n.startswith(CORE)][::2]


def cases(tier):
    c = [n for n, _ in calls()]
    assert len(c) == len(set(c)), [x for x in c if c.count(x) > 1]
    for i in range(len(c)):
        yield ['pairs', i]
    if tier == 'thorough':
        core = core_calls()
        for i in core:
            for j in core:
                yield ['triples', i, j]


def first(i, what):
    """run call i, check its result and its arguments, and overwrite the result"""
    C, w, alone = prepare()
    r, got = perform(C[i][1], w)
    check(same(got, alone[i]), '{}: {}, alone: {}', what, got, alone[i])
    unchanged(w, what)
    overwrite(r)
    unchanged(w, what + ', result overwritten')


def run(case, ctx):
    C, w, alone = prepare()
    todo = case[1:]

    def session():
        for n, i in enumerate(todo):
            first(i, ' then '.join(C[k][0] for k in todo[:n + 1]))
        bad = []
        targets = list(range(len(C))) if len(todo) == 1 else core_calls()
        # the calls of one process are of different functions, far apart in the list
        step = max(1, len(targets) // GROUP)
        for g in range(step):
            def then():
                done, bad = [], []
                for j in targets[g::step]:
                    _, got = perform(C[j][1], w)
                    if not same(got, alone[j]):
                        bad.append((C[j][0], ' then '.join(C[k][0] for k in list(todo) + done), str(got)[:400], str(alone[j])[:400]))
                    done.append(j)
                return bad
            bad += in_child(then)
        return bad
    bad = in_child(session)
    ctx.step(len(C) if len(todo) == 1 else len(core_calls()))
    ctx.state(tuple(todo))
    ctx.outcome(alone[todo[-1]][1] if isinstance(alone[todo[-1]], tuple) and alone[todo[-1]][0] == 'exception' else 'result')
    for name, before, a, b in bad:
        raise Violation('%s, after %s: %s, alone: %s' % (name, before, a, b))
