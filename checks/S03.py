"""S03: search policy and compilation never change the solution set."""
import itertools

from symex import loader
from symex.api import AND, NOT, OR
from symex.runner import Job
from . import S01
from . import _large
from . import _search as P

BOUNDS = S01.BOUNDS + ["for each problem: every policy against the ordered one, with and without compilation, and every "
                       "declaration order of the variables with the constraints forwards and backwards"]
OUTSIDE = S01.OUTSIDE
WITNESSES = ['same set', 'reordered', 'random', 'refused', 'override', 'large']

QUICK = ['triangle', 'unary+binary', 'ternary+ad', 'ad3', 'ad overlapping', 'chain', 'free variable', 'additional',
         'additional ad', 'equal sizes ad+unary', 'ad single', 'empty domain', 'far pair']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    names = QUICK + (['square', 'triangle 3', 'ternary 3', 'five', 'long chain'] if thorough else [])
    for name in names:
        for policy in P.POLICIES[1:]:
            if policy == 'RANDOM' and name in ('square', 'five', 'long chain'):
                continue
            out.append(Job('same', problem=name, policy=policy, comp=True, weight=4 + 4 * (policy == 'RANDOM')))
    for name in [p[0] for p in P.EXPRESSION_PROBLEMS]:
        for policy in P.POLICIES if thorough else ['ORDERED', 'GROUPS', 'RANDOM', 'MIN_CONSTRAINT']:
            out.append(Job('same', problem=name, policy=policy, comp=True, weight=5))
            if thorough:
                out.append(Job('same', problem=name, policy=policy, comp=False, weight=5))
    for name in ['unary+binary', 'ternary+ad', 'ad3', 'additional', 'equal sizes ad+unary', 'far pair'] + \
            (['triangle', 'additional ad'] if thorough else []):
        for policy in ['GROUPS', 'ORDERED', 'MAX_CONSTRAINT'] if not thorough else P.POLICIES:
            out.append(Job('reorder', problem=name, policy=policy, weight=6))
    for policy in P.POLICIES:
        out.append(Job('override', policy=policy))
    out.append(Job('refused'))
    for k, name in enumerate(_large.PROBLEMS):
        for j, policy in enumerate(P.POLICIES):
            if thorough or name != 'many unary' or (k + j) % 3 == 0:
                out.append(Job('large', problem=name, policy=policy, weight=5))
    return out


def find(name):
    return [p for p in P.TABLES + P.BIG_TABLES + P.EXPRESSION_PROBLEMS if p[0] == name][-1 if name not in
            [q[0] for q in P.TABLES] else 0]


def _args(p, extra):
    return {'additional_constraints': p.additional(extra)} if extra else {}


def _compare(ctx, p, a, b, what):
    ctx.check(len(a) == len(b), "two configurations deliver different numbers of solutions", first=a, second=b, **what)
    ta, tb = [p.tuple_of(s) for s in a], [p.tuple_of(s) for s in b]
    for x, y in ((ta, tb), (tb, ta)):
        for t in x:
            ctx.check(OR(*[p.same(t, u) for u in y]), "a solution is delivered by one configuration only",
                      solution=t, first=ta, second=tb, **what)


def same(ctx, problem, policy, comp):
    _, domains, constraints, extra = find(problem)
    p = P.Problem(ctx, domains, constraints)
    model = p.model(extra=extra)
    reference = list(P.solver('ORDERED', False).solve(model, **_args(p, extra)))
    ctx.control_random = policy == 'RANDOM'
    other = list(P.solver(policy, comp).solve(model, **_args(p, extra)))
    _compare(ctx, p, reference, other, dict(problem=problem, policy=policy, comp=comp))
    ctx.reach('random' if policy == 'RANDOM' else 'same set')


def large(ctx, problem, policy):
    p = _large.Large(ctx, problem)
    model = p.model()
    reference = list(P.solver('ORDERED', False).solve(model, **p.args()))
    first = list(P.solver(policy, True).solve(model, **p.args()))
    model = p.model(backwards=True)
    second = list(P.solver(policy, False).solve(model, **p.args()))
    sets = [sorted(p.positions(s) for s in r) for r in (reference, first, second)]
    for s in sets[1:]:
        ctx.check(s == sets[0], "two configurations deliver different solutions", problem=problem, policy=policy,
                  first=sets[0], second=s)
    ctx.reach('large' if reference else 'large none')


def reorder(ctx, problem, policy):
    _, domains, constraints, extra = find(problem)
    p = P.Problem(ctx, domains, constraints)
    reference = list(P.solver(policy).solve(p.model(extra=extra), **_args(p, extra)))
    order = ctx.choice('order', list(itertools.permutations(range(p.n))))
    back = list(reversed(range(len(p.specs)))) if ctx.choice('back', [False, True]) else list(range(len(p.specs)))
    ctx.control_random = policy == 'RANDOM'
    model = p.model(order=order, constraint_order=back, extra=extra)
    more = [k for k in back if k in extra]
    other = list(P.solver(policy).solve(model, **_args(p, more)))
    _compare(ctx, p, reference, other, dict(order=order, constraints=back))
    ctx.reach('reordered')


def override(ctx, policy):
    """A policy given to one call: as if the solver had been configured so,
    for that call only."""
    S = loader.load('satisfy.solver')
    own = ctx.choice('own', P.POLICIES)
    if 'RANDOM' in (own, policy):
        ctx.control_random = False
    domains = [[0, 1, 2], [1, 0], [2, 0, 1]]
    # few relations suffice: the enumeration order tells the policies apart
    p = P.Problem(ctx, domains, [['T', [1]], ['AD', [0, 2]]])
    model = p.model()
    solver = P.solver(own)
    given = list(solver.solve(model, var_selection_policy=S.VarSelectionPolicy[policy]))
    then = list(solver.solve(model))
    ctx.check(solver.var_selection_policy is S.VarSelectionPolicy[own], "a call changed the solver's own policy")
    if policy != 'RANDOM':
        expected = list(P.solver(policy).solve(model))
        ctx.check(given == expected, "the policy given to a call is not the one used", given=given, expected=expected)
    if own != 'RANDOM':
        expected = list(P.solver(own).solve(model))
        ctx.check(then == expected, "a later call does not use the solver's own policy", got=then, expected=expected)
    _compare(ctx, p, given, then, dict(own=own, policy=policy))
    ctx.reach('override')


def refused(ctx):
    S = loader.load('satisfy.solver')
    bad = ctx.choice('bad', ['GROUPS', 3, None, True, 'x', S.VarSelectionPolicy])
    solver = P.solver('REVERSED')
    for make in (lambda: S.Solver(var_selection_policy=bad),
                 lambda: setattr(solver, 'var_selection_policy', bad)):
        try:
            make()
        except Exception:
            pass
        else:
            ctx.check(False, "something that is not a policy was accepted", value=bad)
    ctx.check(solver.var_selection_policy is S.VarSelectionPolicy.REVERSED, "a refused policy changed the solver")
    ctx.reach('refused')
