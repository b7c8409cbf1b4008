"""S05: a timeout stops the search, and only a real one is reported."""
from symex import loader
from symex.api import AND, IMPLIES, NOT, OR, Sym
from symex.runner import Job
from . import _search as P
from ._timed import PROBLEMS, Timed

BOUNDS = [
    "clock: every constraint evaluation takes any time in 0-4 units (second variant: so does every reading of the clock), the "
    "consumer holds each solution for any time in 0-4 units; timeouts 0-12 symbolic, none or infinite, per solver or per call",
    "problems of 0-3 variables with up to 18 assignments, relations symbolic or listed in checks/_timed.py",
]
OUTSIDE = ["clock readings that decrease", "time spent preparing a run (single-variable constraints, compilation)"]
ASSUMPTIONS = ["the code reads the clock through the time module"]
WITNESSES = ['timeout', 'no timeout', 'timeout after a solution', 'timeout without solution', 'no limit']


def jobs(tier):
    out = []
    for problem in PROBLEMS:
        for how in ['constructor', 'call', 'attribute']:
            if how == 'attribute' and tier != 'thorough' and problem != 'pair':
                continue
            for policy in (['GROUPS', 'REVERSED', 'MAX_BOUND'] if tier == 'thorough' else ['GROUPS']):
                for reads in (False, True):
                    if problem == 'wide' and (reads or how != 'call') and tier != 'thorough':
                        continue
                    out.append(Job('timed', problem=problem, how=how, policy=policy, reads=reads,
                                   const_hash=True, weight=20 if problem in ('wide', 'pair+ad') else 5))
        out.append(Job('never', problem=problem))
    return out


def timed(ctx, problem, how, policy, reads):
    t = Timed(ctx, problem, reads=reads)
    full = list(P.solver(policy).solve(t.model))
    timeout = ctx.int('timeout', 0, 12)
    args = {}
    if how == 'constructor':
        solver = P.solver(policy, timeout=timeout)
    elif how == 'attribute':
        solver = P.solver(policy)
        solver.timeout = timeout
    else:
        solver = P.solver(policy, timeout=1)
        args['timeout'] = timeout
    t.start()
    got = []
    run = solver.solve(t.model, **args)
    expired = False               # the search time exceeded the timeout at a delivery
    while True:
        before = t.evaluations
        position = len(t.log)
        try:
            solution = next(run)
        except StopIteration:
            solution = None
        steps = t.evaluations - before
        if not reads:
            # between two deliveries: at most one more variable after the expiry
            slack = 2 * t.size
            if steps > slack:
                late = t.spent() - t_sum(t.log[len(t.log) - slack:])
                ctx.check(late <= timeout, "the search goes on after the timeout has expired",
                          evaluations_after=slack, timeout=timeout)
        if solution is None:
            break
        ctx.check(NOT(expired), "a solution was delivered although the timeout had expired at the previous one",
                  delivered=len(got) + 1, timeout=timeout, log=t.log)
        got.append(solution)
        if not reads:
            expired = t.spent() > timeout
        t.ticking = False
        t.hold()
        t.ticking = True
    spent = t.spent()
    interrupt = solver.get_stats().interrupt
    what = dict(timeout=timeout, spent=spent, delivered=len(got), solutions=len(full), interrupt=interrupt)
    ctx.check(interrupt in (None, 'timeout'), "unknown interrupt", **what)
    ctx.check(got == full[:len(got)], "solutions before a timeout are not the first ones", got=got, full=full)
    if interrupt is None:
        ctx.check(len(got) == len(full), "solutions are missing but no interrupt is reported", **what)
        if not reads:
            ctx.check(NOT(AND(expired, True)), "the timeout expired but no interrupt is reported", **what)
        ctx.reach('no timeout')
    else:
        ctx.check(spent > timeout, "a timeout is reported but the search time did not exceed it", **what)
        ctx.reach('timeout')
        ctx.reach('timeout after a solution' if got else 'timeout without solution')


def t_sum(log):
    total = 0
    for d in log:
        total = total + d
    return total


def never(ctx, problem):
    """No timeout, or the infinite one: nothing is interrupted."""
    U = loader.load('satisfy.utils')
    t = Timed(ctx, problem)
    full = list(P.solver().solve(t.model))
    value = ctx.choice('value', [None, U.INFINITY])
    how = ctx.choice('how', ['constructor', 'call', 'call over own'])
    solver = P.solver(timeout=value) if how == 'constructor' else P.solver(timeout=1 if how != 'call' else None)
    t.start()
    got = list(solver.solve(t.model, **({} if how == 'constructor' else {'timeout': value})))
    ctx.check(got == full and solver.get_stats().interrupt is None, "interrupted without a timeout", how=how,
              got=got, full=full, interrupt=solver.get_stats().interrupt)
    ctx.reach('no limit')
