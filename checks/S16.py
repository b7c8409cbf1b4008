"""S16: what a program computes does not depend on the hash seed of the process."""
import concurrent.futures
import contextlib
import itertools
import json
import os
import random
import subprocess
import sys

from symex import loader
from symex.api import AND, EQ, ConcreteContext
from symex.runner import Job
from . import T02
from . import _large
from . import _opt
from . import _search as P

SAMPLES = 160          # each is run under 4 hash seeds
HASH_ORDER = True      # sets of strings are iterated in an order that the solver chooses

BOUNDS = [
    "every order in which the sets of up to 4 strings (3 in some of the larger programs) are iterated, the strings beyond those placed in "
    "one of 4 ways; hash() of a string follows the same order",
    "problems of checks/_search.py, checks/_large.py and checks/_opt.py with their symbolic relations, coefficients and domains, "
    "all policies (random: with a seed), with and without limits; models that are rejected; listings of models, expressions and "
    "constraints; cryptarithms, labelings, maps, knapsacks, nonograms, sudokus, queens, the riddle and the output of the tool on "
    "the instances listed in checks/S16.py",
]
OUTSIDE = ["orders of sets of other objects than strings (by address); the order of sets of numbers is that of CPython, which has "
           "no seed", "a counterexample is confirmed by running the program under up to 160 hash seeds"]
ASSUMPTIONS = ["the order of a set is a total order of its elements, the same for all sets of the process"]
WITNESSES = ['several', 'limit', 'optimize', 'rejected', 'listing', 'cryptarithm', 'labeling', 'map', 'knapsack', 'nonogram',
             'sudoku', 'queens', 'riddle', 'tool', 'random', 'large']


def jobs(tier):
    thorough = tier == 'thorough'
    out = []
    for k, name in enumerate(SEARCH):
        for j, policy in enumerate(P.POLICIES):
            if thorough or (j + k) % 2 == 0 or policy == 'GROUPS':
                out.append(Job('decide', program='search', exact=4 if thorough else 3, problem=name, policy=policy, limit=(None, 2, 1)[(j + k) % 3], weight=4))
    for k, name in enumerate(_large.PROBLEMS):
        if name in ('grid', 'many unary', 'fourteen') and not thorough:
            continue
        for j, policy in enumerate(P.POLICIES):
            if thorough or (j + k) % 4 == 0:
                out.append(Job('decide', program='large', exact=3, problem=name, policy=policy, limit=(None, 3)[(j + k) % 2], weight=6))
    for k, name in enumerate(OPTIMIZE if thorough else OPTIMIZE[:5]):
        for j, policy in enumerate(P.POLICIES):
            if thorough or (j + k) % 4 == 0:
                out.append(Job('decide', program='optimize', exact=4 if thorough else 3, problem=name, policy=policy, direction='max' if j % 2 else 'min', weight=5))
    for k in range(len(REJECTED)):
        out.append(Job('decide', program='rejected', exact=3, k=k))
    for k in range(len(LISTINGS)):
        out.append(Job('decide', program='listing', k=k))
    for k, source in enumerate(CRYPTARITHMS):
        if source in ('NO+NO==YES', 'TO+GO==OUT', 'AB*BA==CDC') and not thorough:
            continue
        for policy in (P.POLICIES if thorough else ['', P.POLICIES[k % 8], P.POLICIES[(k + 3) % 8]]):
            out.append(Job('decide', program='cryptarithm', exact=4, source=source, policy=policy, limit=(None, 1, 3)[k % 3], weight=8))
    for k in range(len(LABELINGS)):
        for policy in (P.POLICIES if thorough else ['', P.POLICIES[k % 8], P.POLICIES[(k + 5) % 8]]):
            out.append(Job('decide', program='labeling', exact=3, k=k, policy=policy, limit=(None, 1, 3)[k % 3], weight=4))
    for k in range(len(MAPS)):
        for policy in (P.POLICIES if thorough else ['', P.POLICIES[(k + 2) % 8]]):
            out.append(Job('decide', program='maps', exact=3, k=k, policy=policy, limit=(4, 1)[k % 2], weight=4))
    for name in T02.KNAPSACKS:
        for policy in (P.POLICIES if thorough else ['', 'MIN_BOUND']):
            out.append(Job('decide', program='knapsack', name=name, policy=policy))
    for k, name in enumerate(T02.NONOGRAMS):
        for policy in (P.POLICIES if thorough else ['', P.POLICIES[k % 8]]):
            out.append(Job('decide', program='nonogram', name=name, policy=policy, limit=(None, 1)[k % 2]))
    for name in ['unique', 'two', 'none']:
        for policy in (P.POLICIES if thorough else ['']):
            out.append(Job('decide', program='sudoku', exact=3, name=name, policy=policy, limit=None, weight=10))
    for k, size in enumerate([3, 4, 5] + ([6] if thorough else [])):
        for policy in (P.POLICIES[3:4] + P.POLICIES[:3] * (size < 4) if thorough else ['', 'ORDERED'] if size < 4 else ['']):
            out.append(Job('decide', program='queens', exact=3, size=size, policy=policy, limit=(None, 2)[k % 2], weight=5))
    for policy in (P.POLICIES[3:] if thorough else ['']):
        out.append(Job('decide', program='riddle', exact=4 if thorough else 2, policy=policy, weight=20, path_timeout=100))
    for k in range(len(COMMANDS)):
        out.append(Job('decide', program='tool', exact=3, k=k, weight=8, path_timeout=100))
    return out


# -- the decision -------------------------------------------------------------

def plain(value):
    """Nested lists: dictionaries keep the order of their items, sets have none."""
    if isinstance(value, dict):
        return ['dict'] + [[plain(k), plain(v)] for k, v in value.items()]
    if isinstance(value, (set, frozenset)):
        return ['set'] + sorted((plain(v) for v in value), key=repr)
    if isinstance(value, (list, tuple)):
        return [plain(v) for v in value]
    return value


def same(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and AND(*[same(x, y) for x, y in zip(a, b)])
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else a is b
    return EQ(a, b)


def once(ctx, run):
    random.seed(11)
    ticks = itertools.count(1000)
    ctx.clock = lambda: next(ticks)
    try:
        return plain(run())
    finally:
        ctx.clock = None


def decide(ctx, program, exact=4, **config):
    message = "what the program computes depends on the hash seed of the process"
    if not ctx.symbolic:
        outputs = processes(dict(program=program, config=config, inputs=ctx.inputs), 160 if loader.CANDIDATES else 4)
        with contextlib.closing(outputs):
            first = next(outputs)
            for output in outputs:
                ctx.check(output == first, message, one=first[:600], other=output[:600])
        ctx.check(True, "compared")
        return
    from symex import order
    run = PROGRAMS[program](ctx, **config)
    with order.use(order.Natural()):
        a = once(ctx, run)
    with order.use(order.Chosen(ctx, exact)):
        b = once(ctx, run)
    ctx.check(same(a, b), message, one=a, other=b)


def processes(request, n):
    """Outputs of the program under n hash seeds, as they come."""
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    code = "import sys; sys.path.insert(0, {!r}); from checks import S16; S16.child()".format(verif)

    def one(seed):
        proc = subprocess.run([sys.executable, '-B', '-c', code], input=json.dumps(request), stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, universal_newlines=True,
                              env=dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1'))
        if proc.returncode:
            raise RuntimeError(proc.stderr[-1000:])
        return proc.stdout

    pool = concurrent.futures.ThreadPoolExecutor(8)
    try:
        todo = [pool.submit(one, seed) for seed in range(n)]
        for f in todo:
            yield f.result()
    finally:
        pool.shutdown(cancel_futures=True)


def child():
    request = json.load(sys.stdin)
    loader.install(instrumented=False)
    ctx = ConcreteContext(request['inputs'])
    loader.set_context(ctx)
    run = PROGRAMS[request['program']](ctx, **request['config'])
    print(json.dumps(once(ctx, run), default=repr))


# -- programs: inputs -> function to be run ------------------------------------

SEARCH = {
    'ad overlapping': 0, 'ternary+ad': 0, 'far pair': 0, 'free variable': 0, 'doubled': 0, 'additional ad': 0, 'unary+binary': 0,
    'equal sizes ad+unary': 0, 'ad3': 0, 'lin': 1, 'neq+ad': 1, 'logic': 1, 'additional': 1,
}


def settings(policy, limit=None):
    S = loader.load('satisfy.solver')
    args = dict(limit=limit)
    if policy:
        args['var_selection_policy'] = S.VarSelectionPolicy[policy]
    return args


def answers(ctx, solver):
    out = list(solver)
    ctx.reach('several' if len(out) > 1 else 'one')
    return out, solver.get_stats()


def search(ctx, problem, policy, limit):
    spec = [p for p in (P.EXPRESSION_PROBLEMS if SEARCH[problem] else P.TABLES) if p[0] == problem][0]
    p = P.Problem(ctx, *spec[1:3])

    def run():
        model = p.model(extra=spec[3])
        args = {'additional_constraints': p.additional(spec[3])} if spec[3] else {}
        solver = P.solver(policy, compile_constraints=problem < 'k')
        out = list(solver.solve(model, limit=limit, **args))
        ctx.reach('several' if len(out) > 1 else 'one')
        ctx.reach('limit' if limit else 'no limit')
        ctx.reach('random' if policy == 'RANDOM' else 'not random')
        return out, solver.get_stats()
    return run


def large(ctx, problem, policy, limit):
    p = _large.Large(ctx, problem)

    def run():
        random.seed(7)
        ctx.reach('large')
        return list(P.solver(policy).solve(p.model(), limit=limit, **p.args()))
    return run


OPTIMIZE = ['middle', 'three of three', 'constant objective', 'last variable', 'comparison', 'lin table', 'ad', 'two', 'two mixed', 'additional']


def optimize(ctx, problem, policy, direction):
    def run():
        ctx.counter = {}
        random.seed(7)
        solver = P.solver(policy)
        got = [s.solution for s in solver.optimize(o.model, o.objective(), **o.args())]
        ctx.reach('optimize')
        return got, tuple(solver.optimal_solution(o.model, o.objective(), **o.args())), solver.get_stats()
    o = _opt.Optimization(ctx, problem, [direction] * 3)
    return run


def _model(names, domain=(0, 1, 2)):
    M = loader.load('satisfy.model')
    model = M.Model()
    return model, [model.add_int_variable(domain=domain, name=n) for n in names]


def _foreign(names):
    return _model(names)[1]


REJECTED = [
    lambda m, v, f, C: m.add_constraint(sum(f[1:], f[0]) == 0),
    lambda m, v, f, C: m.add_constraint(v[0] + f[0] * f[1] < v[1]),
    lambda m, v, f, C: m.add_all_different_constraint(v + f),
    lambda m, v, f, C: m.add_constraint(C.AllDifferentConstraint(['nowhere', 'not', 'here', v[0].name])),
    lambda m, v, f, C: m.add_constraint(C.AllDifferentConstraint(['par', 'undefined', v[0].name])),
    lambda m, v, f, C: m.add_constraint((v[0] + v[1]).__add__([])),
    lambda m, v, f, C: (v[0] * v[1] + f[0] + f[1]).evaluate({v[0].name: 2}),
    lambda m, v, f, C: (f[0] + f[1] + f[2]).evaluate({}),
    lambda m, v, f, C: m.add_int_variable(['q', 'p', 'q', 'p'], name='double'),
    lambda m, v, f, C: m.add_int_variable([1], name=v[1].name),
]


def rejected(ctx, k):
    def run():
        C = loader.load('satisfy.constraint')
        model, variables = _model(['b', 'a', 'c'])
        model.add_parameter(7, name='par')
        ctx.reach('rejected')
        try:
            REJECTED[k](model, variables, _foreign(['q', 'p', 'r']), C)
        except Exception as exc:
            outcome = [type(exc).__name__, str(exc)]
        else:
            outcome = 'accepted'
        return outcome, [str(c) for c in model.constraints()], [(n, list(d)) for n, d in _domains(model)]
    return run


def _domains(model):
    return [(n, i.domain or ()) for n, i in model.variables().items()]


LISTINGS = [
    lambda v, C: v[0] + v[1] * v[2] <= v[3],
    lambda v, C: (v[0] > v[1]) & (v[2] != v[3]) | (v[1] == v[3]),
    lambda v, C: C.AllDifferentConstraint([w.name for w in v]),
    lambda v, C: C.AllDifferentConstraint([v[3].name, v[1].name]),
    lambda v, C: abs(v[2] - v[0]) * (v[1] + 1) % 3,
    lambda v, C: C.ExpressionConstraint(-v[3] + v[0]),
]


def listing(ctx, k):
    def run():
        C = loader.load('satisfy.constraint')
        model, v = _model(['x', 'b', 'name', 'a1'])
        item = LISTINGS[k](v, C)
        text = [str(item), repr(item)]
        model.add_constraint(item)
        for other in range(len(LISTINGS)):
            model.add_constraint(LISTINGS[other](v, C))
        for c in model.constraints():
            c.compile()
            text += [str(c), repr(c), sorted(c.vars()), c.evaluate({'x': 1, 'b': 2, 'name': 0, 'a1': 3})]
        ctx.reach('listing')
        return text, list(model.variables()), str(model.get_variable('b')), [str(e) for e in model.variables()]
    return run


CRYPTARITHMS = ['AB+BA==CC', 'A+B==C', 'NO+NO==YES', 'AB*BA==CDC', 'A<B', 'I+BB==ILL', 'AA+B==BCC', 'X*Y-Z==7', 'ABC==CBA', 'P<=1', 'TO+GO==OUT']


def cryptarithm(ctx, source, policy, limit):
    def run():
        K = loader.load('satisfy.cryptarithm')
        solver = K.CryptarithmSolver(source, **settings(policy, limit))
        ctx.reach('cryptarithm')
        if source in ('ABC==CBA', 'A<B', 'AB*BA==CDC', 'A+B==C') and limit is None:
            solver = K.CryptarithmSolver(source, **settings(policy, 5))
        return answers(ctx, solver), str(solver.expr), list(solver.model.variables()), [str(c) for c in solver.model.constraints()]
    return run


LABELINGS = [
    (['n1', 'b', 'zz'], [('n1', 'b'), ('b', 'zz')], ['red', 'green']),
    (['p', 'q', 'r', 's'], [('p', 'q'), ('q', 'r'), ('r', 's'), ('s', 'p')], ['red', 'green', 'blue']),
    ([3, 'a', 1, 'c'], [(3, 'a'), ('a', 1)], ('x', 'y')),
    ([2, 0, 1], [(0, 1)], {'one': 1, 'two': 2, 'three': 3}),
    (['a', 'b'], [], [1, 'z', None]),
    (['n1', 'b', 'zz'], [('n1', 'b'), ('n1', 'n1')], ['red', 'green', 'red', 'blue', 'green']),
    (['n1', 'b'], [('n1', 'b')], ('x', 'y', 'z', 'x')),
    (['n1', 'b'], [], 'hello'),
    (['n1', 2, ('n', 1)], [('n1', 2), (2, ('n', 1))], 'abc'),
    (['w', 'v', 'u', 't', 's'], [('w', 'u'), ('u', 's'), ('s', 'v'), ('v', 't')], ['l1', 'l2']),
]


def labeling(ctx, k, policy, limit):
    def run():
        import networkx as nx
        G = loader.load('satisfy.graph_labeling')
        nodes, edges, labels = LABELINGS[k]
        graph = nx.Graph()
        graph.add_nodes_from(nodes)
        graph.add_edges_from(edges)
        ctx.reach('labeling')
        return answers(ctx, G.GraphLabelingSolver(graph, labels, **settings(policy, limit)))
    return run


MAPS = [('AB\nCD', ['red', 'green', 'blue', 'x']), ('A B\nAAB\nC B', ['red', 'green']), ('ABAB\nBABA', ['a', 'b', 'c']),
        ('A.A\n...\nA.B', ['q', 'w']), ('AB\nCA', ['red', 'green', 'red', 'blue']), ('AB', ('x', 'x', 'y')), (' BBC\nEAAC\nEFD ', ['red', 'green', 'blue', 'yellow'])]


def maps(ctx, k, policy, limit):
    def run():
        A = loader.load('satisfy.tool.ascii_map_coloring')
        text, colors = MAPS[k]
        ctx.reach('map')
        return answers(ctx, A.AsciiMapColoringSolver(text, colors, **settings(policy, limit)))
    return run


def knapsack(ctx, name, policy):
    def run():
        K = loader.load('satisfy.knapsack')
        ctx.reach('knapsack')
        problem = T02.KNAPSACKS[name]
        optimizer = K.KnapsackOptimizer(problem['values'], problem['capacities'], problem['weights'], **settings(policy))
        return tuple(optimizer()), optimizer.get_stats(), [str(c) for c in optimizer.model.constraints()], list(optimizer.model.variables())
    return run


def nonogram(ctx, name, policy, limit):
    def run():
        N = loader.load('satisfy.nonogram')
        ctx.reach('nonogram')
        return answers(ctx, N.NonogramSolver(T02.NONOGRAMS[name], **settings(policy, limit)))
    return run


def sudoku(ctx, name, policy, limit):
    def run():
        S = loader.load('satisfy.sudoku')
        ctx.reach('sudoku')
        return answers(ctx, S.SudokuSolver(T02.SUDOKUS[name], **settings(policy, limit)))
    return run


def queens(ctx, size, policy, limit):
    def run():
        Q = loader.load('satisfy.tool.queens')
        ctx.reach('queens')
        return answers(ctx, Q.QueensSolver(size, **settings(policy, limit)))
    return run


def riddle(ctx, policy):
    def run():
        R = loader.load('satisfy.tool.einstein_riddle')
        ctx.reach('riddle')
        return answers(ctx, R.EinsteinRiddleSolver(**settings(policy)))
    return run


COMMANDS = [
    (['queens', '-b', '4', '--show-model'], None),
    (['cryptarithm', 'AB+BA==CC', '-l', '2', '--show-model'], None),
    (['cryptarithm', 'I+BB==ILL', '--show-model'], None),
    (['knapsack', '--show-model'], json.dumps(T02.KNAPSACKS['default like'])),
    (['nonogram', '--show-model'], json.dumps(T02.NONOGRAMS['six'])),
    (['sudoku', '--show-model'], json.dumps(T02.SUDOKUS['unique'])),
    (['einstein', '--show-model', '-l', '0'], None),
    (['graph_labeling'], None),
    (['ascii_map_coloring', '--show-model'], 'AB\nCD'),
    (['graph_labeling', '--show-model', '-l', '2'], json.dumps(T02._graph(['n', 'a', 'k'], [('n', 'a'), ('a', 'k')]))),
]


def tool(ctx, k):
    def run():
        argv, text = COMMANDS[k]
        ctx.reach('tool')
        return T02.run(ctx, argv, text)
    return run


PROGRAMS = dict(search=search, large=large, optimize=optimize, rejected=rejected, listing=listing, cryptarithm=cryptarithm,
                labeling=labeling, maps=maps, knapsack=knapsack, nonogram=nonogram, sudoku=sudoku, queens=queens, riddle=riddle, tool=tool)
