"""P05: graph labelings are exactly the proper ones."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT, OR
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "every graph of 0-4 nodes (thorough 5) with any set of edges and self-loops, as undirected, directed or multigraph, with 0-3 "
    "(4) labels of several types and in the presence of duplicate labels; named larger graphs (cycles, wheels, Petersen, ...)",
    "for each of them z3 decides over all labelings whether a proper one was left out",
    "all policies, limits 0-3, compiled or not",
]
OUTSIDE = ["larger graphs, labels that are not equal to themselves"]
WITNESSES = ['several', 'none', 'self-loop', 'isolated', 'no nodes', 'duplicate labels', 'named', 'limit', 'again']

LABELS = {
    0: [[]],
    1: [['red']],
    2: [['red', 'blue'], [1, 2], [0, 1], [None, 'x'], [(), (0,)], [True, 2]],
    3: [['r', 'g', 'b'], [5, -1, 0]],
    4: [list('rgby')],
}
DUPLICATES = [['r', 'r', 'b'], ['r', 'b', 'r', 'b'], [1, 1], [1, 2, 1, 3], [1, True, 2], [[1], [1], [2]], iter('rrb'), 'abca']
NODES = [[0, 1, 2, 3, 4], ['a', 'b', 'n_0', 'n_1', ''], [(0, 1), 'x', 7, 0.5, frozenset()], [3, 1, 0, 2, -1]]


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for kind in ['Graph', 'DiGraph', 'MultiGraph']:
        for n in range(0, 4):
            for k in range(0, 4):
                out.append(Job('graphs', kind=kind, n=n, labels=k, loops=n < 3 or thorough, weight=n * 3))
    for k in (2, 3) if not thorough else (1, 2, 3, 4):
        out.append(Job('graphs', kind='Graph', n=4, labels=k, loops=False, weight=20))
        out.append(Job('graphs', kind='DiGraph' if k == 2 else 'MultiGraph', n=4, labels=k, loops=False, weight=20))
    if thorough:
        for bits in itertools.product([0, 1], repeat=4):
            out.append(Job('graphs', kind='Graph', n=5, labels=3, loops=False, fixed=list(bits), weight=20))
            out.append(Job('graphs', kind='Graph', n=5, labels=2, loops=False, fixed=list(bits), weight=20))
    for i in range(len(DUPLICATES)):
        out.append(Job('duplicates', index=i))
    for name in sorted(NAMED):
        out.append(Job('named', name=name, weight=10, path_timeout=200))
    for policy in P.POLICIES:
        out.append(Job('settings', policy=policy, weight=5))
    return out


def _networkx():
    import networkx
    return networkx


def _missing(u, nodes, edges, labels, found):
    x = {v: u.int('n{}'.format(i), 0, len(labels) - 1) for i, v in enumerate(nodes)}
    conditions = [NOT(EQ(x[a], x[b])) if a != b else False for a, b in edges]
    for s in found:
        conditions.append(NOT(AND(*[EQ(x[v], labels.index(s[v])) for v in nodes])))
    return AND(*conditions)


def _check(ctx, nodes, edges, labels, found, complete=True):
    what = dict(nodes=nodes, edges=edges, labels=labels)
    for s in found:
        ctx.check(isinstance(s, dict) and len(s) == len(nodes) and all(v in s for v in nodes), "not every node has a label",
                  labeling=s, **what)
        for v in nodes:
            ctx.check(s[v] in labels, "a node has a label that was not given", labeling=s, node=v, **what)
        for a, b in edges:
            ctx.check(s[a] != s[b], "adjacent nodes have the same label", labeling=s, edge=(a, b), **what)
    for i in range(len(found)):
        for j in range(i):
            ctx.check(found[i] != found[j], "a labeling was delivered twice", labeling=found[i], **what)
    if complete:
        ctx.never(lambda u: _missing(u, nodes, edges, labels, found), "a proper labeling was not delivered")
        ctx.reach('none' if not found else 'several')


def _build(kind, nodes, edges):
    g = getattr(_networkx(), kind)()
    g.add_nodes_from(nodes)
    for k, (a, b) in enumerate(edges):
        g.add_edge(a, b)
        if kind == 'MultiGraph' and k % 2 == 0:
            g.add_edge(b, a)
    return g


def graphs(ctx, kind, n, labels, loops, fixed=()):
    G = loader.load('satisfy.graph_labeling')
    nodes = (ctx.choice('nodes', NODES) if n < 3 else NODES[(n + labels) % len(NODES)])[:n]
    given = (ctx.choice('labels', LABELS[labels]) if n < 3 else LABELS[labels][0])
    pairs = list(itertools.combinations(range(n), 2))
    if kind == 'DiGraph':
        pairs = [p if k % 2 else p[::-1] for k, p in enumerate(pairs)]
    if loops:
        pairs += [(i, i) for i in range(n)]
    edges = []
    for k, (a, b) in enumerate(pairs):
        there = bool(fixed[k]) if k < len(fixed) else bool(ctx.bool('edge {} {}'.format(a, b)))
        if there:
            edges.append((nodes[a], nodes[b]))
    solver = G.GraphLabelingSolver(_build(kind, nodes, edges), list(given))
    found = list(solver)
    _check(ctx, nodes, edges, given, found)
    if any(a == b for a, b in edges):
        ctx.check(not found, "a graph with a self-loop was labeled", found=found)
        ctx.reach('self-loop')
    if n and not edges:
        ctx.reach('isolated')
    if not n:
        ctx.check(found == [{}], "the graph without nodes has another labeling than the empty one", found=found)
        ctx.reach('no nodes')
    stats = solver.get_stats()
    ctx.check(stats.interrupt is None and stats.count == len(found), "wrong statistics", stats=stats)
    if n <= 2:
        before = [dict(s) for s in found]
        for s in found:
            s.clear()
        ctx.check(list(solver) == before, "solving again gives other labelings")
        ctx.reach('again')


def duplicates(ctx, index):
    G = loader.load('satisfy.graph_labeling')
    given = DUPLICATES[index]
    given = list('rrb') if not isinstance(given, (list, str)) else given
    distinct = []
    for label in given:
        if label not in distinct:
            distinct.append(label)
    nodes = [0, 1, 2]
    edges = [e for e in itertools.combinations(nodes, 2) if ctx.bool('edge {}'.format(e))]
    give = iter(given) if index == 6 else given
    found = list(G.GraphLabelingSolver(_build('Graph', nodes, edges), give))
    _check(ctx, nodes, edges, distinct, found)
    ctx.reach('duplicate labels')


NAMED = {
    'cycle 5': (lambda nx: nx.cycle_graph(5), 3),
    'cycle 6 two': (lambda nx: nx.cycle_graph(6), 2),
    'cycle 5 two': (lambda nx: nx.cycle_graph(5), 2),
    'complete 4': (lambda nx: nx.complete_graph(4), 4),
    'complete 5': (lambda nx: nx.complete_graph(5), 4),
    'wheel 6': (lambda nx: nx.wheel_graph(6), 4),
    'bipartite': (lambda nx: nx.complete_bipartite_graph(3, 4), 2),
    'petersen': (lambda nx: nx.petersen_graph(), 3),
    'path 6': (lambda nx: nx.path_graph(6), 2),
    'star': (lambda nx: nx.star_graph(5), 3),
    'two parts': (lambda nx: nx.disjoint_union(nx.complete_graph(3), nx.path_graph(2)), 3),
    'grid': (lambda nx: nx.grid_2d_graph(2, 3), 3),
    'directed cycle': (lambda nx: nx.cycle_graph(4, create_using=nx.DiGraph), 3),
    'cube': (lambda nx: nx.hypercube_graph(3), 2),
}


def named(ctx, name):
    G = loader.load('satisfy.graph_labeling')
    make, k = NAMED[name]
    graph = make(_networkx())
    nodes, edges = list(graph.nodes()), list(graph.edges())
    before = (list(nodes), list(edges))
    labels = ['l{}'.format(i) for i in range(k)]
    found = list(G.GraphLabelingSolver(graph, labels))
    ctx.check((list(graph.nodes()), list(graph.edges())) == before, "the graph was changed")
    for s in found:
        for a, b in edges:
            ctx.check(s[a] != s[b], "adjacent nodes have the same label", labeling=s, edge=(a, b))
    keys = {tuple(s[v] for v in nodes) for s in found}
    ctx.check(len(keys) == len(found), "a labeling was delivered twice")
    ctx.never(lambda u: _missing(u, nodes, edges, labels, found), "a proper labeling was not delivered")
    ctx.reach('named')


def settings(ctx, policy):
    """Policies, limits, compilation."""
    G = loader.load('satisfy.graph_labeling')
    S = loader.load('satisfy.solver')
    U = loader.load('satisfy.utils')
    ctx.control_random = policy == 'RANDOM'
    nodes, labels = ['p', 'q', 'r'], ['x', 'y', 'z'][:ctx.choice('labels', [2, 3])]
    edges = [e for e in itertools.combinations(nodes, 2) if ctx.bool('edge {}'.format(e))]
    graph = _build('Graph', nodes, edges)
    args = dict(var_selection_policy=S.VarSelectionPolicy[policy], compile_constraints=ctx.choice('compile', [True, False]))
    full = list(G.GraphLabelingSolver(graph, labels, **args))
    _check(ctx, nodes, edges, labels, full)
    if policy == 'RANDOM':
        return
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2, 3])
    got = list(G.GraphLabelingSolver(graph, labels, limit=limit, **args))
    ctx.check(got == (full if limit in (None, U.INFINITY) else full[:limit]), "a limited run does not deliver the first labelings",
              limit=limit, got=got)
    ctx.reach('limit')
