"""P04: knapsack returns a feasible selection of maximum value."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT, OR, SUM
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "0-3 items and 0-2 dimensions (thorough up to 4 items) with symbolic values, weights and capacities of any sign in the ranges "
    "of SHAPES; larger instances (5-7 items, 1-3 dimensions) with symbolic capacities or values",
    "for each answer z3 decides over all selections whether a better feasible one exists",
    "limits 0-4, timeouts on a symbolic clock, every policy; called twice on the same object",
]
OUTSIDE = ["larger instances", "numbers other than integers"]
WITNESSES = ['optimal', 'infeasible', 'nothing selected', 'all selected', 'limited', 'timed out', 'no items', 'again']

# items, dimensions, (lo, hi) of values, weights, capacities
SHAPES = [
    (1, 1, (-3, 3), (-3, 3), (-3, 3)),
    (1, 0, (-3, 3), (0, 0), (0, 0)),
    (2, 0, (-3, 3), (0, 0), (0, 0)),
    (2, 1, (-3, 3), (-3, 3), (-4, 4)),
    (1, 2, (-2, 2), (-2, 2), (-2, 2)),
    (2, 2, (0, 3), (1, 2), (0, 4)),
    (2, 2, (-2, 2), (-3, -2), (-5, 2)),
    (3, 1, (0, 3), (1, 3), (0, 6)),
    (3, 1, (2, 3), (-2, 2), (-2, 2)),
    (3, 0, (-3, 3), (0, 0), (0, 0)),
    (2, 3, (2, 4), (2, 4), (0, 6)),
]
MORE = [
    (3, 1, (0, 3), (0, 3), (0, 6)),
    (3, 1, (-2, 2), (-2, 2), (-2, 2)),
    (2, 2, (-2, 2), (-2, 2), (-2, 2)),
    (2, 3, (-2, 2), (0, 2), (0, 3)),
    (3, 2, (2, 5), (2, 5), (0, 9)),
    (4, 1, (2, 5), (2, 5), (0, 9)),
    (4, 0, (-3, 3), (0, 0), (0, 0)),
]

INSTANCES = {
    'readme': ([10, 12, 20, 23, 15, 14, 16], [[1, 1], [2, 1], [5, 3], [4, 4], [2, 2], [2, 2], [2, 3]], [8, 6]),
    'five': ([4, 2, 1, 2, 10], [[12], [2], [1], [1], [4]], [15]),
    'six': ([3, 3, 3, 1, 7, -2], [[1, 2, 0], [2, 1, 1], [0, 3, 3], [1, 1, 1], [4, 0, 5], [-3, -2, -1]], [5, 4, 6]),
    'equal': ([2, 2, 2, 2, 2], [[1], [1], [1], [1], [1]], [3]),
    'negative': ([-1, 5, -3, 4, 2], [[-2], [4], [-1], [3], [1]], [1]),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for shape in SHAPES + (MORE if thorough else []):
        n, d = shape[:2]
        for policy in ['GROUPS'] + (['REVERSED'] if n * d in (2, 6) or thorough else []) + (['MIN_BOUND', 'MAX_CONSTRAINT', 'RANDOM'] if thorough and
                                                                       n * d < 3 else []):
            out.append(Job('symbolic', shape=shape, policy=policy, weight=n * (d + 1)))
    for name in INSTANCES:
        out.append(Job('instance', name=name, what='capacity', weight=8, path_timeout=100))
        out.append(Job('instance', name=name, what='value', weight=8, path_timeout=100))
        if thorough:
            out.append(Job('instance', name=name, what='weight', weight=8, path_timeout=100))
        out.append(Job('limited', name=name, weight=4))
        out.append(Job('timed', name=name, weight=4))
    out.append(Job('no_items'))
    return out


def _dot(a, b):
    return SUM(x * y for x, y in zip(a, b))


def _feasible(selection, weights, capacities):
    return AND(*[_dot(selection, [w[k] for w in weights]) <= c for k, c in enumerate(capacities)])


def _selections(n):
    return list(itertools.product([0, 1], repeat=n))


def _check(ctx, result, values, weights, capacities, interrupted=False):
    n = len(values)
    what = dict(result=result, values=values, weights=weights, capacities=capacities)
    if result.solution is None:
        ctx.check(result.is_optimal is False, "optimality is claimed without a selection", **what)
        ctx.check(result.value is None and result.weights is None, "totals of no selection", **what)
        if not interrupted:
            for s in _selections(n):
                ctx.check(NOT(_feasible(s, weights, capacities)), "a selection is feasible but none was returned", feasible=s, **what)
        ctx.reach('infeasible')
        return
    got = tuple(result.solution)
    ctx.check(len(got) == n and all(v in (0, 1) for v in got), "not a selection of the items", **what)
    ctx.check(_feasible(got, weights, capacities), "the selection exceeds a capacity", **what)
    ctx.check(EQ(result.value, _dot(got, values)), "the value is not the selection's total", **what)
    ctx.check(len(result.weights) == len(capacities), "wrong number of weights", **what)
    for k in range(len(capacities)):
        ctx.check(EQ(result.weights[k], _dot(got, [w[k] for w in weights])), "a weight is not the selection's total", **what)
    if not interrupted:
        ctx.check(result.is_optimal is True, "a feasible selection exists but the result is not flagged optimal", **what)
    ctx.check(result.is_optimal in (True, False), "optimality is neither true nor false", **what)
    if result.is_optimal:
        for s in _selections(n):
            ctx.check(NOT(AND(_feasible(s, weights, capacities), _dot(s, values) > result.value)),
                      "a feasible selection has a larger value", better=s, **what)
        ctx.reach('optimal')
        if not any(got):
            ctx.reach('nothing selected')
        if all(got):
            ctx.reach('all selected')


def symbolic(ctx, shape, policy):
    K = loader.load('satisfy.knapsack')
    S = loader.load('satisfy.solver')
    ctx.control_random = policy == 'RANDOM'
    n, d, vr, wr, cr = shape
    values = [ctx.int('v{}'.format(i), *vr) for i in range(n)]
    weights = [[ctx.int('w{}_{}'.format(i, k), *wr) for k in range(d)] for i in range(n)]
    capacities = [ctx.int('c{}'.format(k), *cr) for k in range(d)]
    opt = K.KnapsackOptimizer(list(values), list(capacities), [list(w) for w in weights],
                              var_selection_policy=S.VarSelectionPolicy[policy])
    result = opt()
    _check(ctx, result, values, weights, capacities)
    ctx.check(opt.get_stats().interrupt is None, "an interrupt is reported without limit or timeout")


def _instance(ctx, name, what=None):
    values, weights, capacities = INSTANCES[name]
    values, weights, capacities = list(values), [list(w) for w in weights], list(capacities)
    if what == 'capacity':
        for k in range(min(2, len(capacities))):
            capacities[k] = ctx.int('c{}'.format(k), -4, 20)
    elif what == 'value':
        for k in range(2):
            values[k] = ctx.int('v{}'.format(k), -5, 25)
    elif what == 'weight':
        weights[1][0] = ctx.int('w', -5, 9)
        weights[2][-1] = ctx.int('u', -5, 9)
    return values, weights, capacities


def instance(ctx, name, what):
    K = loader.load('satisfy.knapsack')
    values, weights, capacities = _instance(ctx, name, what)
    how = ctx.choice('as', ['list', 'iterators'])
    if how == 'list':
        opt = K.KnapsackOptimizer(values, capacities, weights)
    else:
        opt = K.KnapsackOptimizer(iter(values), iter(capacities), (iter(w) for w in weights))
    first = opt()
    _check(ctx, first, values, weights, capacities)
    second = opt()
    _check(ctx, second, values, weights, capacities)
    ctx.check(first.is_optimal == second.is_optimal and (first.value is None) == (second.value is None) and
              (first.value is None or EQ(first.value, second.value)), "calling again gives another result", first=first, second=second)
    ctx.reach('again')


def limited(ctx, name):
    K = loader.load('satisfy.knapsack')
    values, weights, capacities = _instance(ctx, name)
    limit = ctx.int('limit', 0, 9)
    opt = K.KnapsackOptimizer(values, capacities, weights, limit=limit)
    result = opt()
    interrupt = opt.get_stats().interrupt
    _check(ctx, result, values, weights, capacities, interrupted=True)
    ctx.check(result.is_optimal == (interrupt is None and result.solution is not None), "the flag does not match the interrupt",
              interrupt=interrupt, result=result, limit=limit)
    ctx.check(opt.get_stats().count <= limit, "more iterations than the limit")
    if limit == 0:
        ctx.check(result.solution is None, "a selection with limit 0", result=result)
    ctx.reach('limited' if interrupt else 'limit not reached')


def timed(ctx, name):
    """Any time may pass between two looks at the clock."""
    K = loader.load('satisfy.knapsack')
    values, weights, capacities = _instance(ctx, name)
    state = dict(now=0, looks=0)
    jump = ctx.choice('jump', [1, 2, 3, 5, 8, 12, 20, 40, 10 ** 6])

    def clock():
        state['looks'] += 1
        if state['looks'] >= jump:
            state['now'] = 100
        return state['now']

    ctx.clock = clock
    timeout = ctx.choice('timeout', [50, 1000])
    opt = K.KnapsackOptimizer(values, capacities, weights, timeout=timeout)
    result = opt()
    ctx.clock = None
    interrupt = opt.get_stats().interrupt
    ctx.check(interrupt in (None, 'timeout'), "unknown interrupt", interrupt=interrupt)
    ctx.check(interrupt is None or timeout == 50, "a timeout is reported that did not expire")
    _check(ctx, result, values, weights, capacities, interrupted=interrupt is not None)
    if interrupt:
        ctx.check(result.is_optimal is False, "optimality is claimed after a timeout", result=result)
        ctx.reach('timed out')


def no_items(ctx):
    K = loader.load('satisfy.knapsack')
    d = ctx.choice('dimensions', [0, 1, 2])
    capacities = [ctx.int('c{}'.format(k), -2, 2) for k in range(d)]
    how = ctx.choice('as', ['list', 'tuple', 'iterators'])
    give = {'list': list, 'tuple': tuple, 'iterators': iter}[how]
    result = K.KnapsackOptimizer(give([]), give(capacities), give([]))()
    _check(ctx, result, [], [], capacities)
    ctx.reach('no items')
