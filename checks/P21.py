"""Reduced density matrices are partial traces and Renyi entropies follow from their spectrum."""
import itertools as it
import numpy as np
import qosy as qy
from mc import ref
from mc.harness import check

ID = 'P21'
BOUND = {
    'quick': '1..4 orbitals; all basis states, all superpositions of two basis states with relative phase {1,-1,i} and '
             'five structured dense states (non-product, complex, unnormalised); every ordered subset of the orbitals '
             'as the remaining ones (list, array, tuple); all pairs of basis states as transition matrices; Renyi entropies n=2,3,4 of every '
             'state and of all mixtures of two states; 5-7 orbitals: all sorted subsets, their reversals and a rotation, of 9 states; entropies',
    'thorough': 'as quick on 5 orbitals',
}
CHUNK = 4


def states(n):
    N = 2 ** n
    E = np.eye(N, dtype=complex)
    out = [E[k] for k in range(N)]
    if n <= 3:
        for a, b in it.combinations(range(N), 2):
            for ph in (1, -1, 1j):
                out.append((E[a] + ph * E[b]) / np.sqrt(2))
    k = np.arange(N)
    out += [np.exp(2j * np.pi * k * k / N) / np.sqrt(N), (k + 1.0) * (1j ** k), np.cos(k * 1.7) + 1j * np.sin(k * k * 0.3),
            np.array([bin(x).count('1') - 1.25 for x in k]) + 0j, np.sqrt(k + 0.5)]
    return out


def cases(tier):
    for n in (1, 2, 3, 4) + ((5,) if tier == 'thorough' else ()):
        ns = len(states(n))
        for r in range(0, n + 1):
            for sub in it.permutations(range(n), r):
                if n == 5 and list(sub) != sorted(sub) and sub[0] < 3:
                    continue
                yield ['rdm', n, list(sub)]
        yield ['renyi', n]
    for n in (5, 6, 7):
        for r in range(0, n + 1):
            for sub in it.combinations(range(n), r):
                yield ['big', n, list(sub)]
    yield ['errors']


def ptrace(M, keep, n):
    t = M.reshape((2,) * (2 * n))
    rest = [x for x in range(n) if x not in keep]
    perm = list(keep) + rest
    t = t.transpose(perm + [n + x for x in perm]).reshape(2 ** len(keep), 2 ** len(rest), 2 ** len(keep), 2 ** len(rest))
    return np.einsum('abcb->ac', t)


def ppsi(u, v, keep, n):
    rest = [x for x in range(n) if x not in keep]
    a, b = (x.reshape((2,) * n).transpose(list(keep) + rest).reshape(2 ** len(keep), -1) for x in (u, v))
    return a @ b.conj().T


def entropy(rho, k):
    w = np.linalg.eigvalsh((rho + rho.conj().T) / 2)
    return np.log(np.sum(w ** k)) / (1 - k)


def run(case, ctx):
    kind = case[0]
    if kind == 'rdm':
        _, n, sub = case
        S = states(n)
        forms = [list(sub), np.array(sub, dtype=int), tuple(sub)]
        for i, v in enumerate(S):
            keep = v.copy()
            e = ptrace(np.outer(v, v.conj()), sub, n)
            got = qy.reduced_density_matrix(v, forms[i % 3], n)
            ctx.step()
            check(got.shape == (2 ** len(sub),) * 2 and ref.close(got, e), 'orbitals {} of state {}: reduced density matrix\n{}expected\n{}', sub, v, got, e)
            check(np.array_equal(v, keep), 'the state was modified')
            ctx.state((n, tuple(sub), str(np.round(got, 6))))
            # observables of the remaining orbitals
            if len(sub) >= 1 and i % 7 == 0:
                s = qy.OperatorString(['Y'], [sub[0]], 'Pauli')
                a = np.vdot(v, qy.to_matrix(s, n) @ v)
                b = np.trace(got @ qy.to_matrix(qy.OperatorString(['Y'], [0], 'Pauli'), len(sub)).toarray())
                check(abs(a - b) < 1e-9 * max(1, abs(a)), 'expectation value of {}', s)
        for i in range(len(S)):
            j = (3 * i + 1) % len(S)
            got = qy.reduced_density_matrix((S[i], S[j]), sub, n)
            ctx.step()
            check(ref.close(got, ptrace(np.outer(S[i], S[j].conj()), sub, n)), 'orbitals {}: reduced transition matrix of {} and {}', sub, S[i], S[j])
        if n <= 3:
            E = np.eye(2 ** n, dtype=complex)
            for a, b in it.product(range(2 ** n), repeat=2):
                got = qy.reduced_density_matrix((E[a], E[b]), sub, n)
                ctx.step()
                check(ref.close(got, ptrace(np.outer(E[a], E[b]), sub, n)), 'orbitals {}: transition matrix |{}><{}|', sub, a, b)
        ctx.outcome((n, len(sub)))
    elif kind == 'big':
        _, n, sub = case
        N = 2 ** n
        k = np.arange(N)
        S = [np.eye(N, dtype=complex)[(37 * n) % N], np.eye(N)[N - 2] + 1j * np.eye(N)[5]] + states(n)[-5:] + [np.cos(k * k + 0.2 * k), (k % 5 == 2) * (1.0 + 1j * k)]
        rot = sub[len(sub) // 2:] + sub[:len(sub) // 2]
        for i, v in enumerate(S):
            v = v / np.linalg.norm(v)
            w = S[(i + 4) % len(S)]
            for form in ([sub, np.array(sub[::-1], dtype=int), tuple(rot)] if len(sub) < 6 else [[sub, sub[::-1], rot][i % 3]]):
                o = list(form)
                got = qy.reduced_density_matrix(v, form, n)
                ctx.step()
                check(ref.close(got, ppsi(v, v, o, n)), 'orbitals {} of {}: reduced density matrix of state {}', o, n, i)
                got = qy.reduced_density_matrix((v, w), form, n)
                check(ref.close(got, ppsi(v, w, o, n)), 'orbitals {} of {}: reduced transition matrix of states {}', o, n, i)
            rho, sig = qy.reduced_density_matrix(v, sub, n), qy.reduced_density_matrix(v, [x for x in range(n) if x not in sub], n)
            for r in (2, 3):
                e = entropy(ppsi(v, v, sub, n), r)
                check(abs(qy.renyi_entropy(rho, r) - e) < 1e-7 and abs(qy.renyi_entropy(sig, r) - e) < 1e-7, 'Renyi-{} entropy of orbitals {} of {}', r, sub, n)
            ctx.state((n, tuple(sub), i))
    elif kind == 'renyi':
        n = case[1]
        S = [v / np.linalg.norm(v) for v in states(n)]
        S = S if n <= 2 else S[::3] + S[-5:]
        for a, u in enumerate(S):
            for r in range(n + 1):
                for sub in it.combinations(range(n), r):
                    rho = qy.reduced_density_matrix(u, list(sub), n)
                    sig = qy.reduced_density_matrix(u, [x for x in range(n) if x not in sub], n)
                    for k in (2, 3, 4):
                        x, y = qy.renyi_entropy(rho, k), qy.renyi_entropy(sig, n=k)
                        ctx.step()
                        e = entropy(rho, k)
                        check(abs(x - e) < 1e-8 and abs(y - x) < 1e-8, 'Renyi-{} entropy {} (complement {}), expected {}', k, x, y, e)
                    check(abs(qy.renyi_entropy(rho) - entropy(rho, 2)) < 1e-8, 'default Renyi entropy')
                    ctx.outcome(round(float(e), 4))
            for b in range(0, a, 1 if n == 1 else 5):
                w = S[b]
                rho = 0.25 * np.outer(u, u.conj()) + 0.75 * np.outer(w, w.conj())
                keep = rho.copy()
                for k in (2, 3):
                    ctx.step()
                    check(abs(qy.renyi_entropy(rho, k) - entropy(rho, k)) < 1e-8, 'Renyi-{} entropy of a mixture', k)
                check(np.array_equal(rho, keep), 'the density matrix was modified')
            ctx.state((n, a))
    else:
        for bad in ([1.0, 0.0], 'state', None):
            try:
                qy.reduced_density_matrix(bad, [0], 1)
                check(False, 'reduced density matrix of {!r}', bad)
            except ValueError:
                ctx.step()
