"""P11: puzzle solvers honour their settings, repeat their answers and can be extended."""
from symex import loader
from symex.api import AND, EQ, NOT, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "small instances of every puzzle (INSTANCES: sudoku, nonogram, graph labeling, cryptarithm, queens, map colouring, knapsack, riddle)",
    "limit: any integer 0-12 (symbolic), none, infinite; timeout: any number of clock readings 0-60 (symbolic), none, infinite, on a clock "
    "that advances with every reading; policy: every one (except RANDOM, and those that are too slow for queens and riddle), compilation on "
    "and off; given as settings or as a configured solver",
    "iterated again after a complete or abandoned iteration, or while another one is in progress; in every interleaving of 4 steps",
    "a constraint added to the puzzle's model: every relation over the values of one of its variables, or all-different of two",
    "a model that contains a parameter and up to 3 variables of its own (every relation of two of them, all-different) before the puzzle is "
    "built, or after that; two puzzles in one model",
]
OUTSIDE = ["larger instances (see P01-P09)"]
WITNESSES = ['limited', 'limit not reached', 'timeout', 'no timeout', 'solver given', 'model given', 'again', 'interleaved', 'extended',
             'extended to nothing', 'knapsack', 'policy', 'shared', 'shared without answer', 'pair']

GRID = [[1, 2, 3, 4, 5, 6, 7, 8, 9], [4, 5, 6, 7, 8, 9, 1, 2, 3], [7, 8, 9, 1, 2, 3, 4, 5, 6],
        [2, 3, 1, 5, 6, 4, 8, 9, 7], [5, 6, 4, 8, 9, 7, 2, 3, 1], [8, 9, 7, 2, 3, 1, 5, 6, 4],
        [3, 1, 2, 6, 4, 5, 9, 7, 8], [6, 4, 5, 9, 7, 8, 3, 1, 2], [9, 7, 8, 3, 1, 2, 6, 4, 5]]


def sudoku(**args):
    # two independent groups of six blank cells with two fillings each
    M = loader.load('satisfy.sudoku')
    args = dict(args)
    if 'solver' not in args and args.get('limit') is None:
        args['limit'] = loader.load('satisfy.utils').INFINITY
    rows = [[0 if (r in (0, 3) and c < 3) or (r in (1, 4) and 3 <= c < 6) else v for c, v in enumerate(row)]
            for r, row in enumerate(GRID)]
    return M.SudokuSolver(rows, **args)


def nonogram(**args):
    M = loader.load('satisfy.nonogram')
    return M.NonogramSolver({'rows': [[1], [1], [1]], 'columns': [[1], [1], [1]]}, **args)


def graph(**args):
    import networkx
    M = loader.load('satisfy.graph_labeling')
    g = networkx.Graph()
    g.add_edges_from([('a', 'b'), ('b', 'c')])
    g.add_node('d')
    return M.GraphLabelingSolver(g, ['red', 'green'], **args)


def cryptarithm(**args):
    M = loader.load('satisfy.cryptarithm')
    return M.CryptarithmSolver('A+B==7', **args)


def queens(**args):
    M = loader.load('satisfy.tool.queens')
    return M.QueensSolver(4, **args)


def colouring(**args):
    M = loader.load('satisfy.tool.ascii_map_coloring')
    args = dict(args)
    if 'solver' not in args and args.get('limit') is None:
        args['limit'] = loader.load('satisfy.utils').INFINITY
    return M.AsciiMapColoringSolver(['aab', 'c..'], ['red', 'blue', 'green'], **args)


def riddle(**args):
    M = loader.load('satisfy.tool.einstein_riddle')
    return M.EinsteinRiddleSolver(**args)


INSTANCES = dict(sudoku=sudoku, nonogram=nonogram, graph=graph, cryptarithm=cryptarithm, queens=queens, colouring=colouring)
FAST = {'queens': ['ORDERED', 'MIN_BOUND', 'MAX_CONSTRAINT', 'GROUPS']}


def policies(name):
    return FAST.get(name, [p for p in P.POLICIES if p != 'RANDOM'])


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for name in INSTANCES:
        for policy in [None] + policies(name):
            out.append(Job('limits', name=name, policy=policy, weight=3))
            out.append(Job('timeouts', name=name, policy=policy, weight=4))
        out.append(Job('again', name=name, weight=3))
        for policy in policies(name) if thorough else policies(name)[:1] + [None]:
            out.append(Job('extended', name=name, policy=policy, weight=5))
        out.append(Job('identity', name=name))
        for policy in [None] + (policies(name) if thorough or name != 'queens' else ['ORDERED']):
            out.append(Job('shared', name=name, policy=policy, weight=5))
    for policy in [None, 'REVERSED', 'MAX_CONSTRAINT', 'MIN_BOUND']:
        out.append(Job('shared_knapsack', policy=policy, weight=5))
    for a in PAIRS:
        for policy in [None, 'ORDERED', 'GROUPS', 'MAX_CONSTRAINT'] if thorough else [None, 'GROUPS']:
            out.append(Job('pair', first=a[0], second=a[1], policy=policy, weight=3))
    out.append(Job('riddle_settings', weight=5, path_timeout=200))
    for policy in [None] + [p for p in P.POLICIES if p != 'RANDOM']:
        out.append(Job('knapsack', policy=policy, weight=4))
    return out


def freeze(x):
    if isinstance(x, dict):
        return tuple(sorted((str(k), freeze(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple)):
        return tuple(freeze(v) for v in x)
    return x


def settings(ctx, policy, **more):
    """Keyword arguments, or a configured solver, with these settings."""
    S = loader.load('satisfy.solver')
    args = dict(more)
    if policy:
        args['var_selection_policy'] = S.VarSelectionPolicy[policy]
    args['compile_constraints'] = ctx.choice('compile', [True, False])
    if policy and ctx.choice('as solver', [False, True]):
        solver = S.Solver(**args)
        ctx.reach('solver given')
        return dict(solver=solver)
    if policy:
        ctx.reach('policy')
    return args


def full(name, policy):
    S = loader.load('satisfy.solver')
    args = {'var_selection_policy': S.VarSelectionPolicy[policy]} if policy else {}
    return [freeze(a) for a in INSTANCES[name](**args)]


def limits(ctx, name, policy):
    U = loader.load('satisfy.utils')
    expected = full(name, policy)
    ctx.check(len(expected) > 1, "the instance has several answers", name=name, found=len(expected))
    kind = ctx.choice('kind', ['number', 'none', 'infinite'])
    limit = ctx.int('limit', 0, 12) if kind == 'number' else None if kind == 'none' else U.INFINITY
    puzzle = INSTANCES[name](**settings(ctx, policy, limit=limit))
    got = [freeze(a) for a in puzzle]
    stats = puzzle.get_stats()
    what = dict(name=name, policy=policy, limit=limit, stats=stats)
    ctx.check(got == expected[:len(got)], "a limited puzzle does not deliver the first answers", got=got, **what)
    ctx.check(EQ(stats.count, len(got)), "wrong statistics", **what)
    if kind != 'number':
        ctx.check(len(got) == len(expected) and stats.interrupt is None, "an unlimited puzzle is limited", **what)
        return
    if limit < len(expected):
        ctx.check(EQ(len(got), limit) and stats.interrupt == 'limit', "a puzzle does not honour its limit", **what)
        ctx.reach('limited')
    else:
        ctx.check(len(got) == len(expected), "a puzzle delivers less than its limit allows", **what)
        if limit > len(expected):
            ctx.check(stats.interrupt is None, "a limit is reported that was not reached", **what)
        ctx.reach('limit not reached')


def timeouts(ctx, name, policy):
    U = loader.load('satisfy.utils')
    expected = full(name, policy)
    kind = ctx.choice('kind', ['number', 'none', 'infinite'])
    timeout = 10 * ctx.index('timeout', 7) if kind == 'number' else None if kind == 'none' else U.INFINITY
    puzzle = INSTANCES[name](**settings(ctx, policy, timeout=timeout))
    now = [0]

    def tick():
        now[0] += 1
        return now[0]
    ctx.clock = tick
    got = [freeze(a) for a in puzzle]
    stats = puzzle.get_stats()
    ctx.clock = None
    what = dict(name=name, policy=policy, timeout=timeout, stats=stats)
    ctx.check(got == expected[:len(got)], "a puzzle with a timeout does not deliver the first answers", got=got, **what)
    if kind != 'number':
        ctx.check(len(got) == len(expected) and stats.interrupt is None, "a puzzle without timeout is interrupted", **what)
        ctx.reach('no timeout')
    elif stats.interrupt is None:
        ctx.check(len(got) == len(expected), "answers are missing without an interrupt", **what)
        ctx.check(stats.elapsed <= timeout + 3 * (len(expected) + 2), "an expired timeout is not reported", **what)
    else:
        ctx.check(stats.interrupt == 'timeout' and stats.elapsed > timeout, "an interrupt without reason", **what)
        ctx.reach('timeout')


def again(ctx, name):
    expected = full(name, None)
    puzzle = INSTANCES[name]()
    ctx.check([freeze(a) for a in puzzle] == expected, "two puzzle solvers of the same puzzle differ", name=name)
    how = ctx.choice('how', ['complete', 'abandoned', 'interleaved'])
    if how == 'complete':
        for k in range(2):
            ctx.check([freeze(a) for a in puzzle] == expected, "iterating again gives other answers", name=name, how=how)
        ctx.check(puzzle.get_stats().count == len(expected), "wrong statistics", name=name)
        ctx.reach('again')
    elif how == 'abandoned':
        n = ctx.choice('n', [1, 2])
        it = iter(puzzle)
        for k in range(n):
            next(it, None)
        ctx.check(puzzle.get_stats().count == min(n, len(expected)), "wrong statistics", name=name)
        ctx.check([freeze(a) for a in puzzle] == expected, "iterating again gives other answers", name=name, how=how)
        ctx.check(puzzle.get_stats().count == len(expected), "wrong statistics", name=name)
        ctx.check(puzzle.get_stats().interrupt is None, "wrong statistics", name=name)
        rest = [freeze(a) for a in it]
        ctx.check(rest == expected[n:], "an iteration is disturbed by a later one", name=name)
    else:
        its = [iter(puzzle), iter(puzzle)]
        got = [[], []]
        for k in range(4):
            i = ctx.choice('who{}'.format(k), [0, 1])
            got[i] += [freeze(a) for a in [next(its[i], None)] if a is not None]
        for i in (0, 1):
            got[i] += [freeze(a) for a in its[i]]
            ctx.check(got[i] == expected, "an iteration is disturbed by another one", name=name, which=i)
        ctx.reach('interleaved')


def extended(ctx, name, policy):
    """A constraint added to the model keeps exactly the answers that satisfy it."""
    C = loader.load('satisfy.constraint')
    puzzle = INSTANCES[name](**settings(ctx, policy))
    variables = [n for n, info in puzzle.model.variables().items() if info.domain is not None]
    solutions = [dict(s) for s in puzzle.solver.solve(puzzle.model)]
    expected = [freeze(a) for a in puzzle]
    ctx.check(len(solutions) == len(expected), "the puzzle does not deliver its model's solutions", name=name)
    used = [v for v in variables if len(set(s[v] for s in solutions)) > 1][:6]
    v = ctx.choice('variable', used)
    kind = ctx.choice('kind', ['relation', 'expression', 'different'])
    table = {}
    if kind == 'relation':
        table = {value: ctx.bool('r{}'.format(value)) for value in sorted(set(s[v] for s in solutions))}

        class Table(C.Constraint):
            def evaluate(self, substitution):
                return table.get(substitution[v], False)
        puzzle.model.add_constraint(Table([v]))
        keep = lambda s: TRUTH(table[s[v]])
    elif kind == 'expression':
        bound = ctx.int('bound', -1, 9)
        puzzle.model.add_constraint(puzzle.model.get_variable(v) <= bound)
        keep = lambda s: s[v] <= bound
    else:
        w = ctx.choice('other', [u for u in used if u != v])
        puzzle.model.add_all_different_constraint([puzzle.model.get_variable(v), puzzle.model.get_variable(w)])
        keep = lambda s: s[v] != s[w]
    got = [freeze(a) for a in puzzle]
    what = dict(name=name, policy=policy, variable=v, kind=kind)
    for s, a in zip(solutions, expected):
        if a in got:
            ctx.check(keep(s), "an answer breaks a constraint added to the model", answer=a, **what)
        else:
            ctx.check(NOT(keep(s)), "an answer is missing that satisfies the constraint added to the model", answer=a, **what)
    ctx.check(len(set(got)) == len(got) and set(got) <= set(expected), "a constraint added to the model adds answers", **what)
    ctx.reach('extended' if got else 'extended to nothing')


def identity(ctx, name):
    M = loader.load('satisfy.model')
    S = loader.load('satisfy.solver')
    model, solver = M.Model(), S.Solver(limit=2)
    puzzle = INSTANCES[name](model=model, solver=solver)
    ctx.check(puzzle.model is model and puzzle.solver is solver, "the model or solver given is not used", name=name)
    got = [freeze(a) for a in puzzle]
    ctx.check(len(got) == 2 and solver.get_stats().interrupt == 'limit' and puzzle.get_stats() == solver.get_stats(),
              "the solver given is not used", name=name)
    direct = list(S.Solver(limit=2).solve(model))
    ctx.check(len(direct) == 2, "the model given is not used", name=name)
    ctx.reach('model given')


PAIRS = [('graph', 'queens'), ('queens', 'graph'), ('nonogram', 'cryptarithm'), ('cryptarithm', 'graph'), ('nonogram', 'graph'),
         ('queens', 'cryptarithm'), ('graph', 'cryptarithm'), ('cryptarithm', 'nonogram')]


class Own(object):
    """What a model contains besides a puzzle."""

    def __init__(self, ctx, model):
        C = loader.load('satisfy.constraint')
        self.ctx = ctx
        self.model = model
        self.what = ctx.choice('own', ['free', 'relation', 'wide', 'different'])
        self.table = {(a, b): ctx.bool('o{}{}'.format(a, b)) for a in (0, 1) for b in (2, 1)} if self.what == 'relation' else None
        if self.what != 'wide':
            model.add_parameter(4, name='own_p')

    def variables(self):
        model = self.model
        if self.what == 'wide':
            # many values, one variable, nothing to do with the puzzle
            return [model.add_int_variable(range(3, 16), name='own')]
        u = model.add_int_variable([0, 1], name='own_u')
        if self.what == 'free':
            return [u]
        w = model.add_int_variable([2, 1])
        return [u, w]

    def constrain(self, variables):
        C = loader.load('satisfy.constraint')
        if self.what == 'different':
            self.model.add_all_different_constraint(variables)
        elif self.what == 'relation':
            a, b = [v.name for v in variables]
            table = self.table

            class Relation(C.Constraint):
                def evaluate(self, substitution):
                    return table[substitution[a], substitution[b]]
            self.model.add_constraint(Relation([a, b]))
        elif self.what == 'wide':
            self.model.add_constraint(variables[0] * 2 >= 25)

    def solutions(self):
        if self.what == 'free':
            return [((0,), True), ((1,), True)]
        if self.what == 'wide':
            return [((13,), True), ((14,), True), ((15,), True)]
        if self.what == 'different':
            return [(t, True) for t in [(0, 2), (0, 1), (1, 2)]]
        return [(t, TRUTH(r)) for t, r in self.table.items()]


def shared(ctx, name, policy):
    """A puzzle in a model that contains something else has the same answers, once for each solution of the rest."""
    M = loader.load('satisfy.model')
    expected = full(name, policy)
    model = M.Model()
    own = Own(ctx, model)
    when = ctx.choice('when', ['before', 'around', 'after'])
    variables = own.variables() if when != 'after' else None
    if when == 'before':
        own.constrain(variables)
    args = settings(ctx, policy)
    puzzle = INSTANCES[name](model=model, **args)
    if when == 'after':
        variables = own.variables()
    if when != 'before':
        own.constrain(variables)
    names = [v.name for v in variables]
    count = 0
    for t, ok in own.solutions():
        if ok:
            count += 1
    pure = [n for n, info in model.variables().items() if info.domain is not None]
    solutions = list(puzzle.solver.solve(model))
    what = dict(name=name, policy=policy, own=own.what, when=when, found=len(solutions), wanted=len(expected) * count)
    ctx.check(all(sorted(s) == sorted(pure) for s in solutions), "a solution does not assign the variables of the model", **what)
    ctx.check(len(solutions) == len(expected) * count, "a puzzle has more or fewer answers in a model that contains something else", **what)
    for s in solutions:
        t = tuple(s[n] for n in names)
        ctx.check([ok for u, ok in own.solutions() if u == t][:1] not in ([], [False]), "the rest of the model is not satisfied", solution=s, **what)
    got = []
    for a in puzzle:
        if name == 'cryptarithm':
            a = {k: v for k, v in a.items() if k not in names}
        got.append(freeze(a))
    ctx.check(sorted(got) == sorted(a for a in expected for _ in range(count)),
              "a puzzle has other answers in a model that contains something else", **what)
    ctx.reach('shared' if got else 'shared without answer')


def shared_knapsack(ctx, policy):
    M = loader.load('satisfy.knapsack')
    Mo = loader.load('satisfy.model')
    model = Mo.Model()
    own = Own(ctx, model)
    before = ctx.choice('before', [True, False])
    if before:
        variables = own.variables()
        own.constrain(variables)
    args = settings(ctx, policy)
    capacity = ctx.index('capacity', 5)
    optimizer = M.KnapsackOptimizer([3, 2, 4], [capacity], [[1], [1], [2]], model=model, **args)
    if not before:
        variables = own.variables()
        own.constrain(variables)
    any_own = False
    for t, ok in own.solutions():
        if ok:
            any_own = True
            break
    for k in range(2):
        result = optimizer()
        what = dict(policy=policy, own=own.what, capacity=capacity, result=result)
        if not any_own:
            ctx.check(result.solution is None and not result.is_optimal, "a selection although the rest of the model has no solution", **what)
            ctx.reach('shared without answer')
            continue
        ctx.check(result.is_optimal and result.solution is not None and len(result.solution) == 3, "no optimum", **what)
        ctx.check(result.value == [0, 3, 5, 7, 9][capacity] == sum(a * v for a, v in zip(result.solution, [3, 2, 4])), "not the optimum", **what)
        ctx.check(sum(a * v for a, v in zip(result.solution, [1, 1, 2])) <= capacity, "too heavy", **what)
        ctx.reach('shared')


def pair(ctx, first, second, policy):
    """Two puzzles in one model: the answers of both."""
    M = loader.load('satisfy.model')
    model = M.Model()
    puzzles = [(n, INSTANCES[n](model=model, **settings(ctx, policy) if k else {})) for k, n in enumerate((first, second))]
    own = [[n for n, info in model.variables().items() if info.domain is not None and belongs(name, n)] for name, _ in puzzles]
    sizes = [len(full(n, None)) for n in (first, second)]
    for k, (name, puzzle) in enumerate(puzzles):
        got = []
        for a in puzzle:
            if name == 'cryptarithm':
                a = {n: v for n, v in a.items() if n in own[k]}
            got.append(freeze(a))
        expected = full(name, None)
        ctx.check(sorted(got) == sorted(a for a in expected for _ in range(sizes[1 - k])),
                  "a puzzle has other answers in a model that contains another puzzle", puzzles=(first, second), which=name,
                  found=len(got), wanted=len(expected) * sizes[1 - k])
    ctx.reach('pair')


def belongs(puzzle, variable):
    return (len(variable) == 1 and variable.isupper()) == (puzzle == 'cryptarithm')


def riddle_settings(ctx):
    S = loader.load('satisfy.solver')
    M = loader.load('satisfy.model')
    how = ctx.choice('how', ['default', 'limit', 'solver', 'policy', 'none'])
    model = M.Model()
    args = dict(model=model)
    if how == 'limit':
        args['limit'] = ctx.choice('limit', [0, 1, 2])
    elif how == 'solver':
        args['solver'] = S.Solver(limit=1, compile_constraints=True)
    elif how == 'policy':
        args['var_selection_policy'] = S.VarSelectionPolicy.GROUPS
    puzzle = riddle(**args)
    ctx.check(puzzle.model is model, "the model given is not used")
    if how == 'none':
        model.add_constraint(model.get_variable('owner_German') == 1)
    got = list(puzzle)
    stats = puzzle.get_stats()
    limit = args.get('limit', 1 if how == 'solver' else None)
    want = 0 if how == 'none' else min(1, 9 if limit is None else limit)
    ctx.check(len(got) == want, "the riddle does not honour its settings", how=how, got=len(got))
    ctx.check(stats.interrupt == ('limit' if limit in (0, 1) else None) or limit == 1, "wrong statistics", how=how, stats=stats)


def knapsack(ctx, policy):
    M = loader.load('satisfy.knapsack')
    Mo = loader.load('satisfy.model')
    U = loader.load('satisfy.utils')
    values, capacities, weights = [3, 2, 4], [3], [[1], [1], [2]]
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2, 50])
    args = settings(ctx, policy, limit=limit)
    model = Mo.Model()
    o = M.KnapsackOptimizer(values, capacities, weights, model=model, **args)
    ctx.check(o.model is model, "the model given is not used")
    # one item is required or excluded by an added constraint
    item = ctx.index('item', 4)
    bits = [ctx.bool('allow0'), ctx.bool('allow1')]
    if item < 3:
        C = loader.load('satisfy.constraint')
        name = list(model.variables())[item]

        class Allow(C.Constraint):
            def evaluate(self, substitution):
                return bits[substitution[name]]
        model.add_constraint(Allow([name]))
    import itertools
    feasible = []
    for s in itertools.product([0, 1], repeat=3):
        if sum(a * w[0] for a, w in zip(s, weights)) <= 3:
            feasible.append((s, TRUTH(bits[s[item]]) if item < 3 else True, sum(a * v for a, v in zip(s, values))))
    first = o()
    stats = o.get_stats()
    second = o()
    what = dict(policy=policy, limit=limit, item=item, result=first)
    ctx.check(tuple(first) == tuple(second), "calling again gives another result", again=second, **what)
    if stats.interrupt is None:
        for s, ok, v in feasible:
            ctx.check(NOT(ok) if first.solution is None else NOT(AND(ok, v > first.value)), "a better selection was left out",
                      better=s, **what)
        ctx.check(first.is_optimal == (first.solution is not None), "wrong verdict", **what)
    else:
        ctx.check(stats.interrupt == 'limit' and limit in (0, 1, 2) and not first.is_optimal and stats.count == limit,
                  "an interrupt without reason", stats=stats, **what)
    if limit == 0:
        ctx.check(first.solution is None, "a limit of zero delivers", **what)
    if first.solution is not None:
        ctx.check([v for s, ok, v in feasible if s == tuple(first.solution)] == [first.value], "wrong value", **what)
        ctx.check(AND(*[ok for s, ok, v in feasible if s == tuple(first.solution)]), "an added constraint is broken", **what)
    ctx.reach('knapsack')
