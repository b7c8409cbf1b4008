"""S10: a run uses the parameters' current values."""
from symex import loader
from symex.api import AND, EQ, NOT, OR, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "2 parameters with symbolic values in [-3, 3] (in the first run of the quick tier [-1, 1]) in each of 2-3 runs on one model, in the constraints listed in MODELS "
    "(single-variable ones, comparisons, logic, arithmetic, values, powers; parameter left, right, alone or doubled), "
    "each run compiled or not (chosen per run), with another complete, abandoned, limited or optimizing run in between, "
    "parameters given to the constraint directly, through additional constraints, or in the objective",
    "variables with 2-3 values",
    "substitutions supplying any value in [-1000, 1000] for the parameters",
]
OUTSIDE = ["parameters changed while a run is in progress", "constraints without variables (decided when they are added)"]
WITNESSES = ['changed', 'recompiled', 'objective', 'additional', 'ignored', 'solutions', 'no solutions']


def both(build):
    return build, build


# name -> (domains, parameterised constraints): c(x, y, p, q) on expressions, r on integers
MODELS = {
    'linear': ([[0, 1, 2], [1, 0]], [both(lambda x, y, p, q: p * x + q <= y)]),
    'unary': ([[0, 1, 2], [1, 0]], [both(lambda x, y, p, q: x != p), both(lambda x, y, p, q: y + q > 0)]),
    'parameter left': ([[0, 1, 2], [1, 0]], [both(lambda x, y, p, q: p > x), both(lambda x, y, p, q: q != x + y)]),
    'logic': ([[0, 1, 2], [1, 0]], [(lambda x, y, p, q: (x == p) | (y > q),
                                    lambda x, y, p, q: OR(EQ(x, p), y > q))]),
    'and': ([[0, 1, 2], [1, 0]], [(lambda x, y, p, q: (x > p) & (q - y),
                                  lambda x, y, p, q: AND(x > p, TRUTH(q - y)))]),
    'value': ([[0, 1, 2], [1, 0]], [(lambda x, y, p, q: p * x - q * y, lambda x, y, p, q: TRUTH(p * x - q * y))]),
    'doubled': ([[0, 1], [1, 2]], [both(lambda x, y, p, q: p * p + x > q - p), both(lambda x, y, p, q: abs(x - p) != y)]),
    'switch': ([[0, 1, 2], [1, 0]], [(lambda x, y, p, q: p | (x < y), lambda x, y, p, q: OR(TRUTH(p), x < y)),
                                     (lambda x, y, p, q: q | (x + y > 1), lambda x, y, p, q: OR(TRUTH(q), x + y > 1))]),
    'same name': ([[0, 1], [1, 0]], [both(lambda x, y, p, q: x + p != y + q), both(lambda x, y, p, q: x * q >= p)]),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for name in MODELS:
        for how in ['model', 'additional', 'unregistered']:
            for between in ['nothing', 'abandoned', 'optimum']:
                if not thorough and how != 'model' and between != 'nothing':
                    continue
                if not thorough and between != 'nothing' and name not in ('linear', 'unary', 'logic', 'switch'):
                    continue
                out.append(Job('runs', name=name, how=how, between=between, rounds=2, weight=4,
                               first=3 if thorough else 1))
        if thorough:
            out.append(Job('runs', name=name, how='model', between='nothing', rounds=3, weight=9, first=1))
    for name in ['linear', 'product', 'offset', 'sign', 'absolute', 'comparison']:
        for direction in ['max', 'min']:
            for how in ['optimize', 'optimal']:
                out.append(Job('objective', name=name, direction=direction, how=how, weight=4))
    for shape in SHAPES:
        out.append(Job('ignored', shape=shape))
    out.append(Job('not_assigned'))
    return out


def _parameters(ctx, model, how, lo=-3, hi=3):
    E = loader.load('satisfy.expression')
    values = [ctx.int('p0', lo, hi), ctx.int('q0', lo, hi)]
    if how == 'unregistered':
        return E.Parameter('p', values[0]), E.Parameter('q', values[1]), values
    named = ctx.choice('named', [True, False])
    p = model.add_parameter(values[0], name='p' if named else None)
    q = model.add_parameter(values[1], name='q' if named else None)
    return p, q, values


def _shape(ctx, p, q, solution):
    ctx.check(sorted(solution) == ['x', 'y'], "a solution does not assign exactly the variables", solution=solution)


def runs(ctx, name, how, between, rounds, first):
    C = loader.load('satisfy.constraint')
    M = loader.load('satisfy.model')
    O = loader.load('satisfy.objective')
    domains, constraints = MODELS[name]
    model = M.Model()
    # the parameters may be declared before or after the variables
    before = name not in ('linear', 'switch')
    if before:
        p, q, values = _parameters(ctx, model, how, -first, first)
    x = model.add_int_variable(list(domains[0]), name='x')
    y = model.add_int_variable(list(domains[1]), name='y')
    if not before:
        p, q, values = _parameters(ctx, model, how, -first, first)
    exprs = [c(x, y, p, q) for c, _ in constraints]
    args = {}
    if how == 'additional':
        args['additional_constraints'] = [C.ExpressionConstraint(e) for e in exprs]
        ctx.reach('additional')
    else:
        for e in exprs:
            model.add_constraint(e)
    solver = P.solver(compile_constraints=ctx.choice('c0', [True, False]))
    for r in range(rounds):
        if r:
            if between == 'abandoned':
                next(solver.solve(model, **args), None)
            elif between == 'optimum':
                solver.optimal_solution(model, O.Maximize(x + y * p), **args)
            p.value, q.value = values = [ctx.int('p{}'.format(r), -3, 3), ctx.int('q{}'.format(r), -3, 3)]
            ctx.reach('changed')
            again = ctx.choice('c{}'.format(r), [True, False])
            if ctx.choice('other solver {}'.format(r), [True, False]):
                solver = P.solver(compile_constraints=again)
            else:
                solver.compile_constraints = again
            ctx.reach('recompiled')
        got = list(solver.solve(model, **args))
        what = dict(round=r, p=values[0], q=values[1], model=name, got=got, compiled=solver.compile_constraints)
        for s in got:
            _shape(ctx, p, q, s)
        points = [(s['x'], s['y']) for s in got]
        ctx.check(len(set(points)) == len(points), "a solution was delivered twice", **what)
        for a in domains[0]:
            for b in domains[1]:
                holds = AND(*[ref(a, b, *values) for _, ref in constraints])
                if (a, b) in points:
                    ctx.check(holds, "a solution does not hold for the parameters' current values", x=a, y=b, **what)
                else:
                    ctx.check(NOT(holds), "a solution for the parameters' current values is missing", x=a, y=b, **what)
        ctx.check(EQ(p.value, values[0]) and EQ(q.value, values[1]), "a run changed a parameter", **what)
        ctx.reach('solutions' if got else 'no solutions')


OBJECTIVES = {
    'linear': lambda x, y, p, q: p * x + q * y,
    'product': lambda x, y, p, q: x * p * y,
    'offset': lambda x, y, p, q: (x - p) * (y + q),
    'sign': lambda x, y, p, q: p - x * 2 + y,
    'absolute': lambda x, y, p, q: abs(x * 2 - p) + q,
    'comparison': lambda x, y, p, q: (x + y >= p) + (x > q),
}


def objective(ctx, name, direction, how):
    """The same objective, with the parameters changed between the runs."""
    M = loader.load('satisfy.model')
    O = loader.load('satisfy.objective')
    model = M.Model()
    x = model.add_int_variable([0, 1, 2], name='x')
    p, q, values = _parameters(ctx, model, 'model')
    y = model.add_int_variable([1, 0], name='y')
    limited = ctx.choice('constraint', [True, False])
    if limited:
        model.add_constraint(x != y + 1)
    f = OBJECTIVES[name]
    goal = (O.Maximize if direction == 'max' else O.Minimize)(f(x, y, p, q))
    solver = P.solver(compile_constraints=ctx.choice('compiled', [True, False]))
    for r in range(2):
        if r:
            p.value, q.value = values = [ctx.int('p1', -3, 3), ctx.int('q1', -3, 3)]
        what = dict(round=r, p=values[0], q=values[1])

        def value(s):
            return f(s[0], s[1], *values)

        def better(s, t):
            return value(s) > value(t) if direction == 'max' else value(s) < value(t)

        if how == 'optimize':
            got = [dict(s.solution) for s in solver.optimize(model, goal)]
        else:
            best = solver.optimal_solution(model, goal)
            ctx.check(best.is_optimal is True, "the optimum is not flagged optimal", best=best, **what)
            got = [dict(best.solution)]
        ctx.check(len(got) > 0, "no solution", **what)
        for s in got:
            _shape(ctx, p, q, s)
            ctx.check(not limited or s['x'] != s['y'] + 1, "a solution breaks the model", solution=s)
        points = [(s['x'], s['y']) for s in got]
        for s, t in zip(points, points[1:]):
            ctx.check(better(t, s), "not improving for the parameters' current values", before=s, after=t, **what)
        for a in (0, 1, 2):
            for b in (0, 1):
                if limited and a == b + 1:
                    continue
                ctx.check(NOT(better((a, b), points[-1])), "not optimal for the parameters' current values",
                          reported=points[-1], better=(a, b), **what)
    ctx.reach('objective')


SHAPES = {
    'p': lambda x, p: p,
    'x+p': lambda x, p: x + p,
    'p*p': lambda x, p: p * p + x,
    'p<x': lambda x, p: p < x,
    'x|p': lambda x, p: (x == 2) | (p > x),
    '-p': lambda x, p: -p - x,
    'abs': lambda x, p: abs(p) * x,
    'x%': lambda x, p: (x + p) % 3,
}


def ignored(ctx, shape):
    """A value supplied for a parameter in a substitution is ignored."""
    C = loader.load('satisfy.constraint')
    E = loader.load('satisfy.expression')
    x, p = E.Variable('x'), E.Parameter('p', ctx.int('p', -5, 5))
    e = SHAPES[shape](x, p)
    value = ctx.int('x', -5, 5)
    plain = {'x': value}
    given = {'x': value, 'p': ctx.int('given', -1000, 1000)}
    expected = e.evaluate(plain)
    ctx.check(EQ(e.evaluate(given), expected), "a value given for a parameter is used", given=given)
    ctx.check(EQ(e.as_function()(**given), expected), "a value given for a parameter is used when compiled", given=given)
    con = C.ExpressionConstraint(e)
    ctx.check('p' not in list(con.vars()) and 'p' not in list(e.vars()), "a parameter is reported as a variable")
    for step in ('interpreted', 'compiled'):
        ctx.check(EQ(con.evaluate(given), expected), "a value given for a parameter is used by a constraint", when=step)
        ctx.check(TRUTH(con.unsatisfied(given)) == TRUTH(con.unsatisfied(plain)), "a value given for a parameter matters",
                  when=step)
        con.compile()
    # a later value is used, by compiled constraints once compiled again
    p.value = ctx.int('p1', -5, 5)
    later = SHAPES[shape](x, E.Const(p.value)).evaluate(plain) if shape != 'p' else p.value
    ctx.check(EQ(e.evaluate(given), later), "the parameter's current value is not used")
    con.compile()
    ctx.check(EQ(con.evaluate(given), later), "the parameter's current value is not used after compiling")
    con.uncompile()
    ctx.check(EQ(con.evaluate(given), later), "the parameter's current value is not used when not compiled")
    ctx.reach('ignored')


def not_assigned(ctx):
    """Models with parameters, but few or no constraints."""
    M = loader.load('satisfy.model')
    S = loader.load('satisfy.solver')
    model = M.Model()
    n = ctx.choice('variables', [0, 1, 2])
    for i in range(3):
        if ctx.choice('parameter {}'.format(i), [True, False]):
            model.add_parameter(ctx.int('p{}'.format(i), -3, 3))
        if i < n:
            model.add_int_variable([i, 5], name='x{}'.format(i))
    policy = ctx.choice('policy', [q for q in P.POLICIES if q != 'RANDOM'])
    got = list(P.solver(policy).solve(model))
    ctx.check(len(got) == 2 ** n, "wrong number of solutions", got=got)
    for s in got:
        ctx.check(sorted(s) == ['x{}'.format(i) for i in range(n)], "a solution assigns a parameter", solution=s)
