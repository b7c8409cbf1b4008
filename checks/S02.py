"""S02: unbounded solving enumerates every solution exactly once."""
from symex.runner import Job
from . import S01
from . import _search as P

BOUNDS = S01.BOUNDS
OUTSIDE = S01.OUTSIDE
WITNESSES = S01.WITNESSES + ['complete']
jobs = S01.jobs


def complete(ctx, p, solutions):
    p.check_complete(solutions)
    ctx.check(len(solutions) > 0 or p.n > 0 or not p.satisfied(()), "the empty assignment was not delivered")
    ctx.reach('complete')


def tables(ctx, problem, policy, comp=True):
    complete(ctx, *S01.run(ctx, S01.find(problem), policy, comp))


def large(ctx, problem, policy, comp):
    p, solutions = S01.run_large(ctx, problem, policy, comp)
    p.check_complete(solutions)
    ctx.reach('complete')


def expressions(ctx, problem, policy, comp):
    spec = [p for p in P.EXPRESSION_PROBLEMS if p[0] == problem][0]
    complete(ctx, *S01.run(ctx, spec, policy, comp))
