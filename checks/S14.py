"""S14: solutions come in the order of the domains, by an order of the variables that the policy determines."""
import itertools

from symex import loader
from symex.api import EQ
from symex.runner import Job
from . import S01
from . import _large
from . import _opt
from . import _search as P

BOUNDS = S01.BOUNDS + ["optimization problems of checks/_opt.py with symbolic objectives", "limits of 0-4 solutions; domains given as "
                       "lists, tuples, ranges (upwards and downwards), dictionaries and iterators"]
OUTSIDE = S01.OUTSIDE
WITNESSES = ['several', 'large', 'optimize', 'random', 'limit', 'not declared order', 'kinds'] + ['order ' + p for p in P.POLICIES]

SIZES = ('kinds', [[3, 0, 2, 1], [5, -5, 1], [1, 0], [9]], [['T', [1, 2]], ['E', [0, 1], 'sum<=']], [])


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    names = [p[0] for p in P.TABLES] + ([p[0] for p in P.BIG_TABLES] if thorough else [])
    for k, name in enumerate(names):
        for j, policy in enumerate(P.POLICIES):
            if policy == 'RANDOM' and len(S01.find(name)[1]) > (3 if thorough else 2):
                continue
            if thorough or (k + j) % 2 or policy in ('REVERSED', 'MIN_BOUND', 'MAX_BOUND'):
                out.append(Job('tables', problem=name, policy=policy, weight=5 if name in ('triangle', 'chain') else 2))
    for k, name in enumerate([p[0] for p in P.EXPRESSION_PROBLEMS]):
        for j, policy in enumerate(P.POLICIES):
            if thorough or policy != 'RANDOM' and (k + j) % 3 == 0:
                out.append(Job('expressions', problem=name, policy=policy, weight=4))
    for k, name in enumerate(_large.PROBLEMS):
        for j, policy in enumerate(P.POLICIES):
            if policy != 'RANDOM' and (thorough or (k + j) % 3 == 0):
                out.append(Job('large', problem=name, policy=policy, weight=5))
    for k, spec in enumerate(_opt.PROBLEMS):
        for j, policy in enumerate(P.POLICIES):
            if policy != 'RANDOM' and (thorough or (k + j) % 4 == 0):
                out.append(Job('optimize', problem=spec[0], policy=policy, direction='max' if j % 2 else 'min', weight=5))
    for kind in KINDS:
        for policy in P.POLICIES[:2] + P.POLICIES[3:]:
            if thorough or policy in ('ORDERED', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND'):
                out.append(Job('kinds', kind=kind, policy=policy))
    for policy in P.POLICIES[:2] + P.POLICIES[3:]:
        out.append(Job('limits', policy=policy))
    return out


def position(ctx, domain, value):
    for k, v in enumerate(domain):
        if v is value or EQ(v, value):
            return k
    ctx.check(False, "a delivered value is not in the variable's domain", value=value, domain=domain)


def stages(policy, domains):
    """Groups of variables, the earlier ones come first."""
    everything = list(range(len(domains)))
    if policy == 'ORDERED':
        return [[i] for i in everything]
    if policy == 'REVERSED':
        return [[i] for i in reversed(everything)]
    if policy in ('MIN_BOUND', 'MAX_BOUND'):
        sizes = sorted(set(len(d) for d in domains), reverse=policy == 'MAX_BOUND')
        return [[i for i in everything if len(domains[i]) == s] for s in sizes]
    return [everything]


def lexicographic(positions, groups):
    """An order of the variables by which the positions increase, or None.

    Taking a variable that increases within every block of equal values so far
    only makes it easier for the others.
    """
    order = []
    n = len(positions)
    new = [True] + [False] * (n - 1)            # does a block start here?
    for group in groups:
        rest = list(group)
        while rest:
            for i in rest:
                if all(new[k] or positions[k][i] >= positions[k - 1][i] for k in range(1, n)):
                    break
            else:
                return None
            rest.remove(i)
            order.append(i)
            new = [new[k] or positions[k][i] > positions[k - 1][i] for k in range(n)]
    return order


def judge(ctx, domains, positions, policy, **what):
    order = lexicographic(positions, stages(policy, domains))
    ctx.check(order is not None, "the solutions do not come in the order of the domains", policy=policy, positions=positions,
              domains=domains, **what)
    if len(positions) > 1:
        ctx.reach('several')
        ctx.reach('order ' + policy)
        if lexicographic(positions, stages('ORDERED', domains)) is None:
            ctx.reach('not declared order')


def of(ctx, p, solutions):
    out = []
    for s in solutions:
        p.check_shape(s)
        out.append(tuple(position(ctx, d, v) for d, v in zip(p.domains, p.tuple_of(s))))
    return out


def tables(ctx, problem, policy):
    p, solutions = S01.run(ctx, S01.find(problem), policy, True)
    if policy == 'RANDOM':
        ctx.reach('random')
    judge(ctx, p.domains, of(ctx, p, solutions), policy, problem=problem)


def expressions(ctx, problem, policy):
    spec = [p for p in P.EXPRESSION_PROBLEMS if p[0] == problem][0]
    p, solutions = S01.run(ctx, spec, policy, False)
    judge(ctx, p.domains, of(ctx, p, solutions), policy, problem=problem)


def large(ctx, problem, policy):
    p, solutions = S01.run_large(ctx, problem, policy, False)
    judge(ctx, p.domains, [p.positions(s) for s in solutions], policy, problem=problem)
    ctx.reach('large')


def optimize(ctx, problem, policy, direction):
    o = _opt.Optimization(ctx, problem, [direction] * 3)
    args = {'additional_constraints': o.problem.additional(o.extra)} if o.extra else {}
    got = [s.solution for s in P.solver(policy).optimize(o.model, o.objective(), **args)]
    judge(ctx, o.problem.domains, of(ctx, o.problem, got), policy, problem=problem, direction=direction)
    if len(got) > 1:
        ctx.reach('optimize')


def limits(ctx, policy):
    _, domains, constraints, _ = SIZES
    p = P.Problem(ctx, domains, constraints, lo=0, hi=3)
    got = list(P.solver(policy).solve(p.model(), limit=ctx.index('limit', 5)))
    judge(ctx, p.domains, of(ctx, p, got), policy)
    ctx.reach('limit')


KINDS = {
    'list': lambda d: list(d), 'tuple': lambda d: tuple(d), 'dict': lambda d: dict.fromkeys(d), 'iterator': lambda d: iter(d),
    'keys': lambda d: dict.fromkeys(d).keys(), 'generator': lambda d: (v for v in d),
}


def kinds(ctx, kind, policy):
    M = loader.load('satisfy.model')
    _, domains, constraints, _ = SIZES
    p = P.Problem(ctx, domains, constraints, lo=0, hi=3)
    model = M.Model()
    variables = {i: model.add_int_variable(KINDS[kind](d), name=n) for i, (d, n) in enumerate(zip(domains, p.names))}
    up = model.add_int_variable(range(-1, 5, 3), name='up')
    down = model.add_int_variable(range(3, 1, -1), name='down')
    for k in range(len(p.specs)):
        model.add_constraint(p.constraint(k, variables))
    p.names = p.names + ['up', 'down']
    p.domains = p.domains + [[-1, 2], [3, 2]]
    got = list(P.solver(policy).solve(model))
    judge(ctx, p.domains, of(ctx, p, got), policy, kind=kind)
    ctx.reach('kinds')
