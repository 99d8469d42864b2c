"""User-defined transformations S -> U S U^dag whose images are sums of many strings."""
import functools
import numpy as np
import qosy as qy
from . import ref, reftrans

# generators: U = exp(-i angle/2 G) with G = sum of strings
SPECS = {
    'Pauli': [[(0.7, 'Z 0')], [(np.pi / 3, 'X 0'), (np.pi / 3, 'X 1'), (np.pi / 3, 'X 2')], [(0.5, 'Z 0 Z 1'), (0.9, 'Y 1')], [(np.pi / 2, 'Y 2')],
              [(0.4, 'X 0 Y 1'), (0.3, 'Z 1 Z 2')]],
    'Majorana': [[(0.7, 'D 0')], [(0.8, 'A 0 B 1'), (-0.8, 'B 0 A 1')], [(0.5, 'D 0 D 1'), (0.9, 'A 1 A 2')], [(np.pi / 2, 'A 0 B 0')] if 0 else [(np.pi / 2, 'D 2')],
                 [(0.6, 'A 0 A 2'), (0.2, 'D 1 D 2')]],
}


def specs(t, n):
    return [k for k, s in enumerate(SPECS[t]) if all(int(l) < n for _, x in s for l in x.split()[1::2])]


def matrix(op_type, text, n):
    w = text.split()
    return ref.string_matrix(op_type, tuple(w[0::2]), tuple(int(x) for x in w[1::2]), _phase(op_type, w[0::2]), tuple(range(n)))


def _phase(t, ops):
    k = sum(o in 'AB' for o in ops)
    return 1j if t == 'Majorana' and (k * (k - 1) // 2) % 2 else 1.0


@functools.lru_cache(maxsize=None)
def unitary(t, k, n):
    U = np.eye(2 ** n, dtype=complex)
    for angle, text in SPECS[t][k]:
        G = matrix(t, text, n)
        assert np.allclose(G @ G, np.eye(2 ** n)) and np.allclose(G, G.conj().T)
        U = U @ (np.cos(angle / 2) * np.eye(2 ** n) - 1j * np.sin(angle / 2) * G)
    return U


@functools.lru_cache(maxsize=None)
def _family(t, n):
    fam = ref.strings('XYZ' if t == 'Pauli' else 'ABD', range(n))
    M = np.array([ref.string_matrix(t, o, l, _phase(t, o), tuple(range(n))).reshape(-1) for o, l in fam])
    return fam, M


def rule(op_string, info):
    t, k, n = info
    U = unitary(t, k, n)
    fam, M = _family(t, n)
    c = M.conj() @ (U @ ref.mat(op_string, tuple(range(n))) @ U.conj().T).reshape(-1) / 2 ** n
    inds = np.nonzero(np.abs(c) > 1e-13)[0]
    return qy.Operator(c[inds], [qy.OperatorString(list(fam[i][0]), list(fam[i][1]), t) for i in inds], t)


def make(t, k, n):
    return qy.Transformation(rule, (t, k, n)), reftrans.Action(unitary(t, k, n))
