"""S11: errors raised by constraints are never turned into answers."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT, OR, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "user-defined constraints over 1-3 of 1-4 variables which hold, do not hold or raise an error, for every combination of these "
    "on their tuples of values; model constraints and additional ones; errors of several types",
    "expression constraints dividing by (or taking the remainder by, or raising to) an expression that is zero (negative) for some "
    "values, interpreted and compiled; objectives that do so",
    "every policy (RANDOM: every order), compilation on and off, solving and optimizing, then solving again",
]
OUTSIDE = ["larger problems", "errors that are not Exceptions (such as KeyboardInterrupt)"]
WITNESSES = ['ends the run', 'raised', 'not raised', 'delivered before', 'expression raised', 'optimize raised', 'again']

PROBLEMS = [
    ('unary', [[0, 1, 2], [5, 3]], [['T', [0]], ['AD', [0, 1]]], []),
    ('binary', [[0, 1], [1, 0]], [['T', [0, 1]]], []),
    ('pruned', [[0, 1], [1, 0], [2]], [['AD', [0, 1]], ['T', [0, 1]], ['T', [1]]], []),
    ('two', [[0, 1], [4, 3]], [['T', [0, 1]], ['T', [1]]], []),
    ('ternary', [[0, 1], [1, 0], [3, 2]], [['T', [0, 1, 2]]], []),
    ('far', [[0, 1], [1], [0, 1]], [['T', [0, 2]], ['AD', [0, 2]]], []),
    ('added', [[0, 1], [1, 0]], [['T', [0, 1]]], [0]),
    ('added unary', [[0, 1], [1, 0]], [['T', [0]], ['AD', [0, 1]]], [0]),
    ('both', [[0, 1], [1, 0]], [['T', [0]], ['T', [1]]], [1]),
]
# (name, domains with 's' symbolic, function of the variables, the same on integers)
DIVISIONS = {
    'x//y==c': (2, lambda c, x, y: x / y == c, lambda c, x, y: x // y == c),
    'x%y==c': (2, lambda c, x, y: x % y == c, lambda c, x, y: x % y == c),
    '(x+y)//(x-y)>c': (2, lambda c, x, y: (x + y) / (x - y) > c, lambda c, x, y: (x + y) // (x - y) > c),
    'y|x//y': (2, lambda c, x, y: (y == c) | (x / y == c), lambda c, x, y: (y == c) or (x // y == c)),
    '&': (2, lambda c, x, y: (y != 0) & (x / y >= c), lambda c, x, y: (y != 0) and (x // y >= c)),
    'c%x': (1, lambda c, x: c % x == 0, lambda c, x: c % x == 0),
    '10//x': (1, lambda c, x: 10 / x >= c, lambda c, x: 10 // x >= c),
    'sum': (3, lambda c, x, y, z: x + y + c / z <= 3, lambda c, x, y, z: x + y + c // z <= 3),
    'prod': (3, lambda c, x, y, z: x * y * (z % y) == c, lambda c, x, y, z: x * y * (z % y) == c),
    'neg': (2, lambda c, x, y: -(x / y) < c, lambda c, x, y: -(x // y) < c),
    'abs': (2, lambda c, x, y: abs(x % (y + c)) != 1, lambda c, x, y: abs(x % (y + c)) != 1),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for name, domains, _, _ in PROBLEMS:
        for policy in P.POLICIES:
            if thorough or policy in ('GROUPS', 'REVERSED', 'MAX_BOUND') or policy == 'RANDOM' and len(domains) < 3:
                out.append(Job('tables', problem=name, policy=policy, weight=8 if name == 'ternary' else 3))
    for name in DIVISIONS:
        for policy in P.POLICIES if thorough else ['GROUPS', 'REVERSED']:
            for comp in (True, False):
                out.append(Job('divisions', name=name, policy=policy, comp=comp, weight=4))
    for comp in (True, False):
        out.append(Job('objectives', comp=comp, weight=3))
    return out


class Boom(Exception):
    pass


ERRORS = [Boom, ZeroDivisionError, KeyError, ValueError, StopIteration, TypeError, AttributeError]


def collect(ctx, run, limit=99):
    """What an iterator delivers, and the error that ended it."""
    got = []
    try:
        for s in run:
            got.append(dict(s))
            if len(got) > limit:
                break
    except Exception as exc:
        return got, exc
    return got, None


def judge(ctx, p, got, error, holds, fails, expected, what, raised=()):
    """holds/fails(assignment): conditions over a complete assignment; raised: the errors raised during the run."""
    ctx.check(not raised or error is not None, "an error raised by a constraint is swallowed", **what)
    if raised:
        ctx.reach('ends the run')
    ts = [p.tuple_of(s) for s in got]
    for s, t in zip(got, ts):
        p.check_shape(s)
        ctx.check(AND(holds(t), NOT(fails(t))), "an assignment on which a constraint fails or raises was delivered",
                  solution=s, **what)
    for i, j in itertools.combinations(range(len(ts)), 2):
        ctx.check(NOT(p.same(ts[i], ts[j])), "a solution was delivered twice", **what)
    if error is None:
        ctx.reach('not raised')
        for a in p.assignments():
            ctx.check(OR(NOT(holds(a)), fails(a), *[p.same(a, t) for t in ts]),
                      "a run without error left a solution out", missing=a, **what)
    else:
        ctx.reach('raised')
        if got:
            ctx.reach('delivered before')
        ctx.check(isinstance(error, expected), "another error than the constraint's", error=repr(error), **what)
        ctx.check(OR(*[fails(a) for a in p.assignments()]), "an error although no constraint raises one", error=repr(error), **what)


def tables(ctx, problem, policy):
    C = loader.load('satisfy.constraint')
    M = loader.load('satisfy.model')
    ctx.control_random = policy == 'RANDOM'
    _, domains, constraints, extra = [q for q in PROBLEMS if q[0] == problem][0]
    p = P.Problem(ctx, domains, constraints)
    kind = ctx.choice('error', ERRORS[:2] if policy != 'GROUPS' else ERRORS)
    errors = []
    raises = {k: {t: ctx.bool('e{}{}'.format(k, list(t))) for t in p.tables[k]} for k in p.tables}
    model = M.Model()
    variables = [model.add_int_variable(list(d), name=n) for d, n in zip(p.domains, p.names)]
    added = []
    for k, spec in enumerate(p.specs):
        names = [p.names[i] for i in spec[1]]
        if spec[0] == 'AD':
            con = C.AllDifferentConstraint(names)
        else:
            def evaluate(self, substitution, k=k, names=names):
                t = tuple(substitution[v] for v in names)
                if raises[k][t]:
                    errors.append(k)
                    raise kind('boom')
                return p.tables[k][t]
            con = type('Table', (C.Constraint,), dict(evaluate=evaluate))(names)
        if k in extra:
            added.append(con)
        else:
            model.add_constraint(con)
    args = {'additional_constraints': added} if added else {}
    solver = P.solver(policy)
    got, error = collect(ctx, solver.solve(model, **args))
    # a generator turns StopIteration into RuntimeError
    expected = (kind, RuntimeError) if kind is StopIteration else kind

    def fails(t):
        return OR(*[TRUTH(raises[k][tuple(t[i] for i in p.specs[k][1])]) for k in p.tables])

    what = dict(problem=problem, policy=policy, kind=kind.__name__)
    judge(ctx, p, got, error, p.satisfied, fails, expected, what, errors)
    ctx.check(len(errors) <= 1, "a run goes on after a constraint raised", **what)
    ctx.check(solver.get_stats().count == len(got), "wrong number of solutions counted", **what)
    if policy != 'RANDOM':
        # the same happens again
        got2, error2 = collect(ctx, solver.solve(model, **args))
        ctx.check(len(errors) == (2 if error is not None else 0), "an error raised by a constraint is swallowed", **what)
        ctx.check(len(got2) == len(got) and (error is None) == (error2 is None), "a second run differs", **what)
        for a, b in zip(got, got2):
            ctx.check(p.same(p.tuple_of(a), p.tuple_of(b)), "a second run differs", **what)
        ctx.reach('again')


def _division(name, c, values):
    """None if it is undefined, else the truth value (values may be symbolic)."""
    try:
        return bool(DIVISIONS[name][2](c, *values))
    except ZeroDivisionError:
        return None


def watch(constraint, errors):
    """Records the errors that evaluating the constraint raises."""
    evaluate = constraint.evaluate

    def recording(substitution):
        try:
            return evaluate(substitution)
        except Exception as exc:
            errors.append(exc)
            raise
    constraint.evaluate = recording


def divisions(ctx, name, policy, comp):
    n, make, _ = DIVISIONS[name]
    domains = [[2, 0, -1], [1, 0, -2], [0, 3]][:n]
    domains[0] = [2, 's'] if n > 1 else [2, 's', -1]
    p = P.Problem(ctx, domains, [])
    c = ctx.int('c', -2, 2)
    ctx.assume(NOT(EQ(p.domains[0][1], 2)))
    if name == 'sum':
        ctx.assume(NOT(EQ(c, 0)))       # 0 / z is simplified to 0
    if n == 1:
        ctx.assume(NOT(EQ(p.domains[0][1], -1)))
    model = p.model()
    model.add_constraint(make(c, *[p.variables[i] for i in range(n)]))
    errors = []
    for con in model.constraints():
        watch(con, errors)
    got, error = collect(ctx, P.solver(policy, comp).solve(model))
    value = {}
    for a in itertools.product(*[range(len(d)) for d in p.domains]):
        value[a] = _division(name, c, [d[i] for d, i in zip(p.domains, a)])
    what = dict(constraint=name, policy=policy, compiled=comp, c=c)
    ctx.check(not errors or error is not None, "an error raised by a constraint is swallowed", **what)
    where = []
    for s in got:
        at = []
        for d, v in zip(p.domains, p.tuple_of(s)):
            at.append([i for i in range(len(d)) if EQ(d[i], v)][0])
        where.append(tuple(at))
        ctx.check(value[tuple(at)] is True, "an assignment on which a constraint fails or raises was delivered", solution=s, **what)
    ctx.check(len(set(where)) == len(where), "a solution was delivered twice", **what)
    if error is None:
        left = [a for a in value if value[a] and a not in where]
        ctx.check(not left, "a run without error left a solution out", **what)
    else:
        ctx.reach('expression raised')
        ctx.check(isinstance(error, ZeroDivisionError), "another error than the constraint's", error=repr(error), **what)
        ctx.check(None in value.values(), "an error although no constraint raises one", error=repr(error), **what)


def objectives(ctx, comp):
    """An objective that cannot be evaluated on a solution raises; nothing is reported as optimal."""
    O = loader.load('satisfy.objective')
    p = P.Problem(ctx, [[3, 's'], [1, 0, 2]], [['T', [0, 1]]])
    ctx.assume(NOT(EQ(p.domains[0][1], 3)))
    model = p.model()
    x, y = p.variables[0], p.variables[1]
    which = ctx.choice('objective', ['x/y', 'x%y', 'y/x'])
    make = {'x/y': lambda a, b: a / b, 'x%y': lambda a, b: a % b, 'y/x': lambda a, b: b / a}[which]
    ref = {'x/y': lambda a, b: a // b, 'x%y': lambda a, b: a % b, 'y/x': lambda a, b: b // a}[which]
    up = ctx.choice('maximize', [True, False])
    solver = P.solver(compile_constraints=comp)
    what = dict(objective=which, compiled=comp, up=up)
    best = None
    try:
        best = solver.optimal_solution(model, (O.Maximize if up else O.Minimize)(make(x, y)))
    except ZeroDivisionError:
        ctx.reach('optimize raised')
    except Exception as exc:
        ctx.check(False, "another error than the objective's", error=repr(exc), **what)
    bad = []
    values = []
    for a in p.assignments():
        ok = p.satisfied(a)
        try:
            values.append((a, ok, ref(*a)))
        except ZeroDivisionError:
            bad.append(ok)
    if best is None:
        ctx.check(OR(*bad), "an error although the objective is defined on every solution", **what)
        return
    ctx.check(NOT(OR(*bad)) if best.is_optimal else True, "an optimum although the objective is undefined on a solution", **what)
    if best.solution is not None:
        t = p.tuple_of(best.solution)
        mine = ref(*t)
        for a, ok, v in values:
            ctx.check(NOT(AND(ok, v > mine if up else v < mine)), "a better solution was left out", **what)
