"""S08: the optimum reported as optimal is the true optimum."""
from symex import loader
from symex.api import AND, EQ, NOT
from symex.runner import Job
from . import S07
from . import _large
from . import _opt
from . import _search as P
from ._timed import PROBLEMS, Timed

BOUNDS = S07.BOUNDS + ["limits 0-4; symbolic clock and timeouts 0-8 on problems of up to 3 variables"]
OUTSIDE = S07.OUTSIDE
WITNESSES = ['optimal', 'infeasible', 'limited', 'limit not reached', 'timed out', 'timed out without solution', 'in time', 'large']


def jobs(tier):
    out = [Job('optimum', problem=p, directions=d, policy=policy, comp=comp, weight=3 + 5 * (p in ('lin table', 'ad', 'two')))
           for p, d, policy, comp in _opt.job_configs(tier)]
    for problem in ['one variable', 'one filtered', 'last variable', 'two variables', 'infeasible', 'constant objective'] + \
            (['lin table', 'negated', 'product', 'sum of three'] if tier == 'thorough' else []):
        n = len(_opt.find(problem)[4])
        for d in (['max'] * n, ['min'] * n):
            for how in ('solver', 'call'):
                out.append(Job('limited', problem=problem, directions=d, how=how))
    for problem in PROBLEMS:
        if problem == 'empty':
            continue
        for d in ('max', 'min'):
            for how in ('solver', 'call'):
                out.append(Job('timed', problem=problem, direction=d, how=how))
    for p, d, policy, comp in S07.large_configs(tier):
        out.append(Job('large', problem=p, direction=d, policy=policy, comp=comp, weight=6))
    return out


def large(ctx, problem, direction, policy, comp):
    p = _large.Large(ctx, problem)
    model = p.model(backwards=comp)
    coefficient = ctx.int('o', -4, 4)
    best = P.solver(policy, comp).optimal_solution(model, p.make_objective(direction, coefficient), **p.args())
    ctx.check(best.is_optimal == (best.solution is not None), "wrong optimality flag", best=best)
    if best.solution is not None:
        p.check_sound([best.solution])
        ctx.reach('large')
    p.check_optimal(direction, coefficient, best.solution)


def optimum(ctx, problem, directions, policy, comp):
    ctx.control_random = policy == 'RANDOM'
    o = _opt.Optimization(ctx, problem, directions)
    p = o.problem
    best = P.solver(policy, comp).optimal_solution(o.model, o.objective(), **o.args())
    if best.solution is None:
        ctx.check(best.is_optimal is not True, "optimality is claimed without a solution")
        for a in p.assignments():
            ctx.check(NOT(p.satisfied(a)), "a feasible assignment exists but none was reported", feasible=a)
        ctx.reach('infeasible')
        return
    ctx.check(best.is_optimal is True, "the optimum is not flagged optimal", best=best)
    p.check_sound(best.solution, "the reported optimum breaks the model")
    t = p.tuple_of(best.solution)
    for a in p.assignments():
        ctx.check(NOT(AND(p.satisfied(a), o.better(a, t))), "a feasible assignment beats the reported optimum",
                  reported=t, better=a, values=o.values(t), better_values=o.values(a))
    ctx.reach('optimal')


def limited(ctx, problem, directions, how):
    o = _opt.Optimization(ctx, problem, directions)
    full = o.delivered(solver=P.solver())
    limit = ctx.int('limit', 0, 4)
    solver = P.solver(limit=limit) if how == 'solver' else P.solver()
    args = {} if how == 'solver' else {'limit': limit}
    best = solver.optimal_solution(o.model, o.objective(), **args)
    interrupt = solver.get_stats().interrupt
    what = dict(limit=limit, improving=full, best=best, interrupt=interrupt)
    ctx.check(best.is_optimal == (interrupt is None and best.solution is not None),
              "the optimality flag does not match the interrupt", **what)
    ctx.check(interrupt in (None, 'limit'), "unknown interrupt", **what)
    if limit < len(full):
        ctx.check(interrupt == 'limit', "solutions were left out but optimality is claimed", **what)
        expected = full[limit - 1] if limit > 0 else None
        ctx.reach('limited')
    else:
        expected = full[-1] if full else None
        if limit > len(full):
            ctx.check(interrupt is None, "a limit is reported that was not reached", **what)
            ctx.reach('limit not reached')
    if expected is None:
        ctx.check(best.solution is None, "a solution out of nothing", **what)
    else:
        ctx.check(best.solution is not None, "the best solution found was not returned", **what)
        ctx.check(o.problem.same(o.problem.tuple_of(best.solution), o.problem.tuple_of(expected)),
                  "not the best solution found before the limit", **what)


def timed(ctx, problem, direction, how):
    O = loader.load('satisfy.objective')
    t = Timed(ctx, problem)
    variables = [t.model.get_variable(n) for n in t.names]
    weights = [3, -2, 1]
    total = variables[0] * weights[0]
    for v, w in zip(variables[1:], weights[1:]):
        total = total + v * w
    make = O.Maximize if direction == 'max' else O.Minimize
    full = [dict(s.solution) for s in P.solver().optimize(t.model, make(total))]
    timeout = ctx.int('timeout', 0, 8)
    solver = P.solver(timeout=timeout) if how == 'solver' else P.solver()
    t.start()
    best = solver.optimal_solution(t.model, make(total), **({} if how == 'solver' else {'timeout': timeout}))
    interrupt = solver.get_stats().interrupt
    what = dict(timeout=timeout, improving=full, best=best, interrupt=interrupt, log=t.log)
    ctx.check(interrupt in (None, 'timeout'), "unknown interrupt", **what)
    ctx.check(best.is_optimal == (interrupt is None and best.solution is not None),
              "the optimality flag does not match the interrupt", **what)
    if interrupt is None:
        ctx.check(best.solution == (full[-1] if full else None), "not the optimum", **what)
        ctx.reach('in time')
    else:
        ctx.check(t.spent() > timeout, "a timeout is reported but the time did not exceed it", **what)
        ctx.check(best.solution is None or best.solution in full, "not a solution found before the timeout", **what)
        count = solver.get_stats().count
        ctx.check(best.solution == (full[count - 1] if count else None), "not the best solution found before the timeout",
                  count=count, **what)
        ctx.reach('timed out' if best.solution is not None else 'timed out without solution')
