"""P07: queens answers are exactly the non-attacking placements."""
from symex import loader
from symex.api import AND, EQ, NOT, OR
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "board sizes 0-8 (thorough 0-9) without limit: for each of them z3 decides over all size^size placements whether one was left out",
    "every policy for sizes 0-1 (0-2), policies ORDERED, MIN_BOUND and MAX_CONSTRAINT for sizes up to 4 (6), compilation on and off, "
    "limits 0-3; first answers of sizes up to 9 (10)",
]
OUTSIDE = ["larger boards"]
WITNESSES = ['boards', 'none', 'empty board', 'limit', 'again', 'large']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for n in range(0, 10 if thorough else 9):
        out.append(Job('boards', n=n, policy=None, weight=3 ** n, path_timeout=900))
    for policy in P.POLICIES:
        # the other orders select the diagonal variables first: exponentially slower
        top = 6 if policy in ('ORDERED', 'MIN_BOUND', 'MAX_CONSTRAINT') else 2
        for n in range(0, top + 1 if thorough else min(top, 5)):
            if policy == 'RANDOM' and n > 1:
                continue
            out.append(Job('boards', n=n, policy=policy, weight=2 ** n, path_timeout=200))
    out.append(Job('limits'))
    for n in range(8, 11 if thorough else 10):
        out.append(Job('large', n=n, weight=100, path_timeout=300))
    return out


def _check(ctx, n, board):
    what = dict(size=n, board=board)
    ctx.check(len(board) == n and all(len(row) == n for row in board), "a board has another size", **what)
    columns = []
    for row in board:
        ctx.check(all(v in (0, 1) for v in row) and sum(row) == 1, "a row has not exactly one queen", **what)
        columns.append(list(row).index(1))
    for i in range(n):
        for j in range(i):
            ctx.check(columns[i] != columns[j], "two queens on a column", **what)
            ctx.check(abs(columns[i] - columns[j]) != i - j, "two queens on a diagonal", **what)
    return tuple(columns)


def _run(n, **args):
    Q = loader.load('satisfy.tool.queens')
    solver = Q.QueensSolver(n, **args)
    return solver, list(solver)


def boards(ctx, n, policy):
    S = loader.load('satisfy.solver')
    args = {}
    if policy:
        args['var_selection_policy'] = S.VarSelectionPolicy[policy]
        args['compile_constraints'] = ctx.choice('compile', [True, False])
    solver, found = _run(n, **args)
    places = [_check(ctx, n, b) for b in found]
    ctx.check(len(set(places)) == len(places), "a board was delivered twice", size=n)

    def missing(u):
        q = [u.int('q{}'.format(r), 0, n - 1) for r in range(n)]
        conditions = []
        for i in range(n):
            for j in range(i):
                conditions += [NOT(EQ(q[i], q[j])), NOT(EQ(q[i], q[j] + (i - j))), NOT(EQ(q[i], q[j] - (i - j)))]
        for p in places:
            conditions.append(NOT(AND(*[EQ(a, b) for a, b in zip(q, p)])))
        return AND(*conditions)

    ctx.never(missing, "a non-attacking placement was not delivered")
    stats = solver.get_stats()
    ctx.check(stats.interrupt is None and stats.count == len(found), "wrong statistics", stats=stats)
    ctx.reach('empty board' if not n else 'none' if not found else 'boards')
    if n < 6:
        ctx.check([_check(ctx, n, b) for b in solver] == places, "solving again gives other boards", size=n)
        ctx.reach('again')


def limits(ctx):
    U = loader.load('satisfy.utils')
    n = ctx.choice('size', [0, 1, 2, 3, 4, 5])
    full = [_check(ctx, n, b) for b in _run(n)[1]]
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2, 3])
    got = [_check(ctx, n, b) for b in _run(n, limit=limit)[1]]
    ctx.check(got == (full if limit in (None, U.INFINITY) else full[:limit]), "a limited run does not deliver the first boards",
              size=n, limit=limit)
    ctx.reach('limit')


def large(ctx, n):
    limit = 3
    found = _run(n, limit=limit)[1]
    places = [_check(ctx, n, b) for b in found]
    ctx.check(len(places) == limit and len(set(places)) == limit, "wrong number of boards", size=n)
    ctx.reach('large')
