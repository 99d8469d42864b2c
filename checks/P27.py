"""Cliques and connected components of graphs."""
import itertools as it
import numpy as np
import qosy as qy
from mc.harness import check

ID = 'P27'
BOUND = {
    'quick': 'every labelled graph on 0..6 nodes (33 000 graphs) with sorted, reversed and array adjacency lists, with isolated '
             'nodes; circulant graphs on up to 12 nodes; both search modes',
    'thorough': 'every labelled graph on 7 nodes (2 million) for components and cliques',
}
CHUNK = 2


def cases(tier):
    for n in range(0, 6):
        yield ['all', n, 0, 2 ** (n * (n - 1) // 2)]
    for lo in range(0, 2 ** 15, 512):
        yield ['all', 6, lo, lo + 512]
    if tier == 'thorough':
        for lo in range(0, 2 ** 21, 2048):
            yield ['all', 7, lo, lo + 2048]
    for n in range(7, 13):
        for k in range(0, n // 2 + 1):
            yield ['circ', n, k]


def brute(n, adj):
    """maximal cliques as bit masks"""
    nb = [sum(1 << j for j in adj[i]) for i in range(n)]
    out = set()

    def grow(R, P, X):
        if not P and not X:
            out.add(R)
            return
        v = 0
        while P:
            v = (P & -P).bit_length() - 1
            grow(R | 1 << v, P & nb[v], X & nb[v])
            P &= ~(1 << v)
            X |= 1 << v
    if n:
        grow(0, (1 << n) - 1, 0)
    return out


def judge(n, adj, ctx):
    ref = brute(n, adj)
    forms = [[sorted(a) for a in adj], [sorted(a)[::-1] for a in adj]]
    for k, f in enumerate(forms):
        c = qy.maximal_cliques([list(a) for a in f])
        got = [sum(1 << int(x) for x in q) for q in c]
        ctx.step()
        check(len(set(got)) == len(got) and all(len(set(q)) == len(q) for q in c), 'graph {}: a clique is repeated: {}', f, c)
        check(set(got) == ref, 'graph {}: cliques {}', f, c)
        comp = []
        seen = set()
        for s in range(n):
            if s in seen:
                continue
            cc, todo = {s}, [s]
            while todo:
                x = todo.pop()
                for y in adj[x]:
                    if y not in cc:
                        cc.add(y)
                        todo.append(y)
            seen |= cc
            comp.append(cc)
        for kw in ({}, {'mode': 'DFS'}, {'mode': 'BFS'}):
            g = qy.connected_components(f if k else [np.array(a, dtype=int) for a in f], **kw)
            ctx.step()
            check(all(len(set(q)) == len(q) for q in g) and [set(q) for q in g] == comp or
                  sorted(map(sorted, g)) == sorted(map(sorted, comp)), 'graph {}: components {} ({})', f, g, kw)
    ctx.outcome((n, len(ref), len(comp) if n else 0))


def run(case, ctx):
    if case[0] == 'all':
        _, n, lo, hi = case
        E = list(it.combinations(range(n), 2))
        for code in range(lo, hi):
            adj = [set() for _ in range(n)]
            for k, (a, b) in enumerate(E):
                if code >> k & 1:
                    adj[a].add(b)
                    adj[b].add(a)
            judge(n, adj, ctx)
            ctx.state((n, code))
    else:
        _, n, k = case
        adj = [{(i + d) % n for d in range(1, k + 1)} | {(i - d) % n for d in range(1, k + 1)} for i in range(n)]
        adj = [a - {i} for i, a in enumerate(adj)]
        judge(n, adj, ctx)
        ctx.state(('circ', n, k))
        if n == 7 and k == 1:
            try:
                qy.connected_components([[1], [0]], mode='A*')
                check(False, 'unknown mode accepted')
            except ValueError:
                ctx.step()
