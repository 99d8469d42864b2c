"""Reference (anti)unitary transformations as maps of matrices on Fock space."""
import functools
import itertools as it
import numpy as np
from . import ref


def _fock(images, n):
    """Unitary that maps prod_i (c_i^dag)^{n_i} |0> to prod_i (s_i c_{p_i}^dag)^{n_i} |0>."""
    d = 2 ** n
    vac = np.zeros(d, dtype=complex)
    vac[0] = 1

    def state(ops):
        v = vac
        for p, s in reversed(ops):
            v = s * (ref._site('CDag', p, n) @ v)
        return v
    U = np.zeros((d, d), dtype=complex)
    for occ in it.product((0, 1), repeat=n):
        src = state([(i, 1.0) for i in range(n) if occ[i]])
        dst = state([images[i] for i in range(n) if occ[i]])
        U += np.outer(dst, src.conj())
    return U


@functools.lru_cache(maxsize=None)
def fermion_perm(perm, signs=None):
    n = len(perm)
    signs = signs or (1.0,) * n
    U = _fock([(perm[i], signs[i]) for i in range(n)], n)
    assert np.allclose(U @ U.conj().T, np.eye(2 ** n))
    return U


@functools.lru_cache(maxsize=None)
def spin_perm(perm):
    n = len(perm)
    d = 2 ** n
    U = np.zeros((d, d), dtype=complex)
    for bits in it.product((0, 1), repeat=n):
        out = [0] * n
        for i in range(n):
            out[perm[i]] = bits[i]
        U[int(''.join(map(str, out)), 2), int(''.join(map(str, bits)), 2)] = 1
    return U


class Action:
    """M -> U M U^dag, or U M^* U^dag when antiunitary."""

    def __init__(self, U, anti=False):
        self.U, self.anti = U, anti

    def __call__(self, m):
        return self.U @ (m.conj() if self.anti else m) @ self.U.conj().T

    def after(self, other):
        """self * other: other acts first"""
        V = other.U.conj() if self.anti else other.U
        return Action(self.U @ V, self.anti != other.anti)


def permutation(perm, op_type):
    return Action(spin_perm(tuple(perm)) if op_type == 'Pauli' else fermion_perm(tuple(perm)))


def time_reversal(n, op_type):
    if op_type == 'Pauli':
        return Action(ref.kron_all([ref.Y] * n), True)
    return Action(np.eye(2 ** n, dtype=complex), True)


def particle_hole(n):
    U = np.eye(2 ** n, dtype=complex)
    for i in range(n):
        U = U @ ref._site('B' if n % 2 == 0 else 'A', i, n)
    return Action(U)


def spin_parity(dn, n):
    U = np.eye(2 ** n, dtype=complex)
    for i in dn:
        U = U @ ref._site('D', i, n)
    return Action(U)


def spinful_time_reversal(up, dn, n):
    """c_up -> c_dn, c_dn -> -c_up; up[k], dn[k] belong together."""
    perm = list(range(n))
    signs = [1.0] * n
    for u, d in zip(up, dn):
        perm[u] = d
        perm[d] = u
        signs[d] = -1.0
    return Action(fermion_perm(tuple(perm), tuple(signs)), True)


def _selftest():
    n = 3
    c = [ref._site('C', i, n) for i in range(n)]
    U = Action(fermion_perm((1, 2, 0)))
    for i, p in enumerate((1, 2, 0)):
        assert np.allclose(U(c[i]), c[p])
    for n in (1, 2, 3):
        P = particle_hole(n)
        for i in range(n):
            x = ref._site('C', i, n)
            assert np.allclose(P(x), x.conj().T)
    T = spinful_time_reversal([0], [1], 2)
    assert np.allclose(T(ref._site('C', 0, 2)), ref._site('C', 1, 2))
    assert np.allclose(T(ref._site('C', 1, 2)), -ref._site('C', 0, 2))
    U = Action(spin_perm((1, 2, 0)))
    assert np.allclose(U(ref._site('X', 0, 3)), ref._site('X', 1, 3))


_selftest()
