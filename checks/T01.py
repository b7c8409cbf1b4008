"""T01: summaries never overstate the result."""
import contextlib
import io
import re

from symex import loader
from symex.api import EQ
from symex.runner import Job

BOUNDS = [
    "solution counts: any integer 0..10^12 (symbolic) or one of COUNTS; elapsed time: any integer 0..10^6 (symbolic) or one of ELAPSED; interrupt: "
    "none, limit, timeout or another reason; the caller's verdict on optimality: none, true, false",
    "the statistics of real runs (limits 0-4, timeouts on a symbolic clock) over the problems of RUNS",
]
OUTSIDE = ["elapsed times other than those"]
WITNESSES = ['unique', 'all', 'none', 'partial', 'optimal', 'sub-optimal', 'interrupted', 'optimal although interrupted',
             'real run', 'real optimization', 'fraction']

ELAPSED = [0.0, 0.0004, 0.001, 0.25, 1.0, 9.9994, 12.3456, 59.9996, 61.25, 3599.5, 86400.125, 1e-9]
COUNTS = [0, 1, 2, 10, 11, 101, 999, 1000, 1001, 9999, 10000, 10001, 99999, 123457, 1000001, 16777217, 2 ** 31, 2 ** 53 + 1, 10 ** 20 + 7]
REASONS = [None, 'limit', 'timeout', 'other']
NUMBER = re.compile(r'-?(?:__sym_\d+__|\d+(?:\.\d+)?(?:e[-+]?\d+)?)')


def jobs(tier):
    out = []
    for kind in ('solve', 'optimize'):
        out.append(Job('summary', kind=kind, count='symbolic', elapsed='symbolic'))
        for k in range(len(ELAPSED)):
            out.append(Job('summary', kind=kind, count='symbolic', elapsed=k))
        out.append(Job('summary', kind=kind, count='small', elapsed='symbolic', weight=5))
        out.append(Job('summary', kind=kind, count='small', elapsed=3, weight=6))
    out.append(Job('real', weight=4))
    out.append(Job('real_timed', weight=4))
    out.append(Job('real_optimization', weight=4))
    return out


def printed(function, *args, **kwargs):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        function(*args, **kwargs)
    return out.getvalue()


def value(text):
    """The number a printed text stands for (a symbolic one by its token)."""
    if '__sym' in text:
        from symex import engine
        return engine.ENGINE.parse(text)
    return float(text) if '.' in text or 'e' in text else int(text)


def same_time(shown, elapsed):
    if isinstance(elapsed, float):
        return abs(shown - elapsed) <= 0.0005000001
    return EQ(shown, elapsed)


def check_solve(ctx, text, count, elapsed, interrupt):
    what = dict(text=text, count=count, elapsed=elapsed, interrupt=interrupt)
    words = re.findall(r'[a-z]+', NUMBER.sub(' ', text.lower()))
    unique, everything, partial = 'unique' in words, 'all' in words, 'partial' in words
    numbers = [value(n) for n in NUMBER.findall(text)]
    if interrupt:
        ctx.check(partial and not unique and not everything, "an interrupted run is not shown as partial", **what)
        ctx.check(interrupt in words, "the reason of the interrupt is not shown", **what)
        ctx.reach('partial')
    else:
        ctx.check(not partial, "a complete run is shown as partial", **what)
        if unique:
            ctx.check(count == 1, "'unique' although the count is not one", **what)
            ctx.reach('unique')
        else:
            ctx.reach('all')
    if unique and len(numbers) == 1:
        ctx.check(same_time(numbers[0], elapsed), "another time than that of the statistics", **what)
        return
    ctx.check(len(numbers) == 2, "the summary has other numbers than the count and the time", **what)
    ctx.check(EQ(numbers[0], count), "another count than that of the statistics", **what)
    ctx.check(same_time(numbers[1], elapsed), "another time than that of the statistics", **what)


def check_optimize(ctx, text, count, elapsed, interrupt, optimal):
    what = dict(text=text, count=count, elapsed=elapsed, interrupt=interrupt, optimal=optimal)
    known = (interrupt is None) if optimal is None else optimal
    words = re.findall(r'[a-z]+(?:-[a-z]+)?', NUMBER.sub(' ', text.lower()))
    ctx.check(('optimal' in words) == bool(known), "'optimal' is shown for a result that is not known optimal" if not known else
              "an optimal result is not shown as such", **what)
    if not known:
        ctx.check('sub-optimal' in words, "the result is not shown as sub-optimal", **what)
    ctx.reach('optimal' if known else 'sub-optimal')
    if interrupt:
        ctx.check(interrupt in words, "the reason of the interrupt is not shown", **what)
        ctx.reach('interrupted')
        if known:
            ctx.reach('optimal although interrupted')
    numbers = [value(n) for n in NUMBER.findall(text)]
    ctx.check(len(numbers) == 2, "the summary has other numbers than the time and the count", **what)
    ctx.check(same_time(numbers[0], elapsed), "another time than that of the statistics", **what)
    ctx.check(EQ(numbers[1], count), "another count than that of the statistics", **what)


def summary(ctx, kind, count, elapsed):
    D = loader.load('satisfy.tool.demo_utils')
    U = loader.load('satisfy.utils')
    n = ctx.int('count', 0, 10 ** 12) if count == 'symbolic' else ctx.choice('count', COUNTS)
    t = ctx.int('elapsed', 0, 10 ** 6) if elapsed == 'symbolic' else ELAPSED[elapsed]
    if elapsed != 'symbolic':
        ctx.reach('fraction')
    reason = ctx.choice('interrupt', REASONS)
    stats = U.SolveStats(count=n, elapsed=t, interrupt=reason)
    if kind == 'solve':
        check_solve(ctx, printed(D.print_solve_stats, stats), n, t, reason)
        if count == 'small' and n == 0:
            ctx.reach('none')
        return
    optimal = ctx.choice('optimal', [None, True, False, 'not given'])
    if optimal == 'not given':
        optimal = None
        text = printed(D.print_optimization_stats, stats)
    else:
        text = printed(D.print_optimization_stats, stats, optimal=optimal)
    check_optimize(ctx, text, n, t, reason, optimal)


# -- statistics of real runs --------------------------------------------------

def _model(ctx):
    M = loader.load('satisfy.model')
    model = M.Model()
    a = model.add_int_variable([0, 1, 2], name='a')
    b = model.add_int_variable([0, 1], name='b')
    model.add_constraint(a + b <= ctx.int('bound', -1, 3))
    return model


def real(ctx):
    """A real run: what is printed agrees with what was delivered."""
    D = loader.load('satisfy.tool.demo_utils')
    S = loader.load('satisfy.solver')
    model = _model(ctx)
    total = len(list(S.Solver().solve(model)))
    limit = ctx.choice('limit', [None, 0, 1, 2, 3, 6, 7])
    solver = S.Solver(limit=limit)
    found = list(solver.solve(model))
    stats = solver.get_stats()
    text = printed(D.print_solve_stats, stats)
    check_solve(ctx, text, len(found), stats.elapsed, stats.interrupt)
    words = re.findall(r'[a-z]+', text.lower())
    if 'unique' in words or 'all' in words:
        ctx.check(len(found) == total, "a run is shown as complete that is not", text=text, delivered=len(found), total=total)
    if 'unique' in words:
        ctx.check(total == 1, "a solution is shown as unique that is not", text=text, total=total)
    ctx.reach('real run')


def real_timed(ctx):
    D = loader.load('satisfy.tool.demo_utils')
    S = loader.load('satisfy.solver')
    from . import _timed
    timed = _timed.Timed(ctx, ctx.choice('problem', ['pair', 'two', 'fails']), max_tick=3)
    complete = [dict(s) for s in S.Solver().solve(timed.model)]
    timed.start()
    solver = S.Solver(timeout=ctx.choice('timeout', [0, 2, 5]))
    found = [dict(s) for s in solver.solve(timed.model)]
    timed.ticking = False
    stats = solver.get_stats()
    text = printed(D.print_solve_stats, stats)
    words = re.findall(r'[a-z]+', text.lower())
    shown_complete = 'unique' in words or 'all' in words
    if shown_complete:
        ctx.check(len(found) == len(complete), "a run is shown as complete that is not", text=text)
        ctx.check(stats.interrupt is None, "an interrupted run is shown as complete", text=text)
    else:
        ctx.check('partial' in words and 'timeout' in words, "an interrupted run is not shown as partial", text=text)
    ctx.reach('real run')


def real_optimization(ctx):
    D = loader.load('satisfy.tool.demo_utils')
    S = loader.load('satisfy.solver')
    O = loader.load('satisfy.objective')
    model = _model(ctx)
    E = loader.load('satisfy.expression')
    objective = O.Maximize(E.Variable('a') * ctx.int('weight', -2, 2) + E.Variable('b'))
    limit = ctx.choice('limit', [None, 0, 1, 2, 3])
    solver = S.Solver(limit=limit)
    result = solver.optimal_solution(model, objective)
    stats = solver.get_stats()
    text = printed(D.print_optimization_stats, stats, optimal=result.is_optimal)
    check_optimize(ctx, text, stats.count, stats.elapsed, stats.interrupt, result.is_optimal)
    ctx.reach('real optimization')
