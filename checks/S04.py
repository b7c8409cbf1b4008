"""S04: a solution limit is honoured exactly and reported."""
from symex import loader
from symex.api import AND, NOT, Sym
from symex.runner import Job
from . import S03
from . import _large
from . import _search as P

BOUNDS = [
    "limits 0-9 (0-40 on the larger problems) as a symbolic integer, absent, None or infinite, on the solver (constructor or attribute) and per call, in "
    "every combination; limits 60-64, 126-130, 254-258, 310-314 of 319 solutions; problems of 0-3 variables over every relation",
] + _large.BOUNDS
OUTSIDE = ["larger problems", "negative or non-integer limits"]
WITNESSES = ['limited', 'not limited', 'exactly all', 'zero', 'limit, call wins', 'many']

QUICK = ['unary+binary', 'one', 'doubled', 'no constraints', 'no variables', 'false', 'additional false', 'empty domain',
         'ad pigeons', 'additional all']


def jobs(tier):
    out = []
    for name in QUICK + (['ternary+ad', 'far pair', 'ad3', 'free variable'] if tier == 'thorough' else ['free variable']):
        for how in ['constructor', 'attribute', 'call', 'both']:
            for policy in (P.POLICIES if tier == 'thorough' else ['GROUPS']):
                out.append(Job('limited', problem=name, how=how, policy=policy, weight=3))
    for k, name in enumerate(_large.PROBLEMS):
        for j, policy in enumerate(P.POLICIES):
            if policy != 'RANDOM' and (tier == 'thorough' or (k + j) % 4 == 0):
                out.append(Job('limited', problem=name, how=['constructor', 'attribute', 'call', 'both'][k % 4], policy=policy,
                               large=True, weight=4))
    for how in ['constructor', 'attribute', 'call']:
        for policy in P.POLICIES if tier == 'thorough' else ['GROUPS', 'REVERSED']:
            out.append(Job('many', how=how, policy=policy, weight=8))
    return out


def many(ctx, how, policy):
    """Limits of a few hundred solutions."""
    M = loader.load('satisfy.model')
    model = M.Model()
    x = model.add_int_variable(range(40), name='x')
    y = model.add_int_variable(range(8), name='y')
    model.add_constraint(x * 8 + y != ctx.int('hole', 0, 1))
    base = ctx.choice('base', [60, 126, 254, 310])
    limit = base + ctx.int('limit', 0, 4)
    total = 40 * 8 - 1
    solver = P.solver(policy, limit=limit) if how == 'constructor' else P.solver(policy)
    if how == 'attribute':
        solver.limit = limit
    got = [(s['x'], s['y']) for s in solver.solve(model, **({'limit': limit} if how == 'call' else {}))]
    stats = solver.get_stats()
    ctx.check(len(set(got)) == len(got), "a solution was delivered twice")
    ctx.check(len(got) <= total and NOT(len(got) > limit), "more solutions than the limit", got=len(got), limit=limit)
    ctx.check(len(got) == limit, "fewer solutions than the limit, although there are more", got=len(got), limit=limit)
    ctx.check(stats.interrupt == 'limit' and stats.count == len(got), "the limit is not reported", stats=stats)
    ctx.reach('many')


def limited(ctx, problem, how, policy, large=False):
    U = loader.load('satisfy.utils')
    if large:
        p = _large.Large(ctx, problem)
        model = p.model()
        extra_args = p.args()
    else:
        _, domains, constraints, extra = S03.find(problem)
        p = P.Problem(ctx, domains, constraints)
        model = p.model(extra=extra)
        extra_args = S03._args(p, extra)

    def a_limit(name):
        kind = ctx.choice(name + ' kind', ['number', 'none', 'infinite'])
        return ctx.int(name, 0, 40 if large else 9) if kind == 'number' else None if kind == 'none' else U.INFINITY

    full = list(P.solver(policy if policy != 'RANDOM' else 'ORDERED').solve(model, **extra_args))
    policy = policy if policy != 'RANDOM' else 'ORDERED'
    args = dict(extra_args)
    if how == 'constructor':
        limit = a_limit('limit')
        solver = P.solver(policy, limit=limit)
    elif how == 'attribute':
        limit = a_limit('limit')
        solver = P.solver(policy, limit=1)
        solver.limit = limit
    elif how == 'call':
        limit = a_limit('limit')
        solver = P.solver(policy)
        args['limit'] = limit
    else:
        solver = P.solver(policy, limit=a_limit('own'))
        limit = args['limit'] = a_limit('limit')
        ctx.reach('limit, call wins')
    got = list(solver.solve(model, **args))
    interrupt = solver.get_stats().interrupt
    what = dict(limit=limit, solutions=len(full), delivered=len(got), interrupt=interrupt)
    ctx.check(interrupt in (None, 'limit'), "unknown interrupt", **what)
    ctx.check(len(got) <= len(full), "a limit adds solutions", **what)
    ctx.check(got == full[:len(got)], "limited solutions are not the first ones of the unlimited enumeration",
              got=got, full=full)
    if limit is None or limit is U.INFINITY:
        ctx.check(len(got) == len(full), "solutions are missing without a limit", **what)
        ctx.check(interrupt is None, "an interrupt is reported without a limit", **what)
        ctx.reach('not limited')
        return
    number = len(got)
    if number == len(full):
        ctx.check(limit >= number, "more solutions than the limit", **what)
    else:
        ctx.check(limit == number, "the number of solutions delivered is not the limit", **what)
        ctx.check(interrupt == 'limit', "solutions were left out but no interrupt is reported", **what)
        ctx.reach('limited')
        if number == 0:
            ctx.reach('zero')
    if interrupt == 'limit':
        ctx.check(limit <= len(full), "interrupted by a limit that was not reached", **what)
        if number == len(full):
            ctx.reach('exactly all')
    ctx.check(solver.get_stats().count == number, "the count is not the number of solutions delivered", **what)
