"""S06: solve statistics equal what happened."""
import itertools

from symex import loader
from symex.api import EQ
from symex.runner import Job
from . import _search as P
from ._timed import PROBLEMS, Timed

BOUNDS = [
    "clock: every constraint evaluation takes any time in 0-4 units, the consumer holds each solution for any time in 0-4",
    "histories of up to 3 runs on one solver, each complete, limited, timed out, abandoned, failing or optimizing; two "
    "overlapping runs in every interleaving of up to 5 steps",
    "problems of 0-3 variables with up to 18 assignments",
]
OUTSIDE = ["time spent preparing a run (single-variable constraints, compilation)", "longer histories"]
ASSUMPTIONS = ["the code reads the clock through the time module"]
WITNESSES = ['complete', 'limit', 'timeout', 'abandoned', 'overlap', 'unsolvable', 'optimize', 'fruitless']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for problem in PROBLEMS:
        for end in ['complete', 'limit', 'timeout', 'abandoned', 'both']:
            if problem == 'wide' and not thorough and end != 'limit':
                continue
            out.append(Job('single', problem=problem, end=end, weight=6))
    for problem in ['two', 'all', 'pair'] if thorough else ['two']:
        for first in ['complete', 'limit', 'timeout', 'abandoned', 'unsolvable', 'fruitless']:
            for second in ['complete', 'limit', 'timeout', 'abandoned', 'unsolvable', 'optimize', 'fruitless']:
                out.append(Job('history', problem=problem, ends=[first, second], weight=4))
                if thorough:
                    for third in ['complete', 'unsolvable', 'limit', 'fruitless']:
                        out.append(Job('history', problem=problem, ends=[first, second, third], weight=4))
    for problem in ['two', 'all'] if thorough else ['two']:
        for ends in [['complete', 'complete'], ['timeout', 'complete'], ['limit', 'complete'], ['complete', 'timeout'],
                     ['complete', 'limit']]:
            out.append(Job('overlap', problem=problem, ends=ends, steps=6 if thorough else 5, weight=8))
    for kind in ['elapsed', 'protocol']:
        out.append(Job('timer', kind=kind))
    return out


class Run(object):
    """One run and the facts about it."""

    def __init__(self, ctx, t, solver, end, tag):
        self.ctx, self.t, self.solver = ctx, t, solver
        self.delivered = 0
        self.spent = 0
        self.timeout = self.limit = None
        self.done = False
        args = {}
        if end in ('limit', 'both'):
            self.limit = args['limit'] = ctx.int('limit' + tag, 0, 3)
        if end in ('timeout', 'both'):
            self.timeout = args['timeout'] = ctx.int('timeout' + tag, 0, 6)
        model = t.model
        if end == 'unsolvable':
            M = loader.load('satisfy.model')
            model = M.Model()
            model.add_int_variable([0, 1], name='x')
            model.add_constraint(False)
        if end == 'fruitless':
            # every assignment is refused, in some time
            C = loader.load('satisfy.constraint')
            args['additional_constraints'] = [t._constraint(C, t.names[:2], {k: False for k in itertools.product(range(-1, 4), repeat=2)})]
        if end == 'optimize':
            O = loader.load('satisfy.objective')
            self.run = solver.optimize(t.model, O.Maximize(t.model.get_variable('x') + 0), **args)
        else:
            self.run = solver.solve(model, **args)
        self.stop_after = ctx.choice('stop' + tag, [0, 1]) if end == 'abandoned' else None

    def step(self):
        position = len(self.t.log)
        try:
            next(self.run)
        except StopIteration:
            self.done = True
        else:
            self.delivered += 1
        self.spent = self.spent + self.t.spent(position)
        return not self.done

    def check(self, text="", interrupt='?'):
        stats = self.solver.get_stats()
        what = dict(stats=stats, delivered=self.delivered, spent=self.spent, when=text)
        self.ctx.check(stats.count == self.delivered, "the count is not the number of solutions delivered", **what)
        self.ctx.check(EQ(stats.elapsed, self.spent), "the elapsed time is not the time spent searching", **what)
        if interrupt != '?':
            self.ctx.check(stats.interrupt == interrupt, "wrong interrupt", **what)

    def drain(self):
        while True:
            if self.stop_after is not None and self.delivered >= self.stop_after:
                if self.ctx.choice('close', [True, False]):
                    self.run.close()
                return
            if not self.step():
                return
            self.check('holding a solution')
            self.t.hold()


def single(ctx, problem, end):
    t = Timed(ctx, problem)
    t.start()
    solver = P.solver()
    r = Run(ctx, t, solver, end, '')
    r.drain()
    if end != 'abandoned' or r.delivered or r.done:
        r.check('end')
    interrupt = solver.get_stats().interrupt
    ctx.check(interrupt in ([None] if end in ('complete', 'abandoned') else
                            [None, 'limit', 'timeout'] if end == 'both' else [None, end]), "wrong interrupt",
              interrupt=interrupt)
    if interrupt == 'timeout':
        ctx.check(r.spent > r.timeout, "a timeout is reported but the time did not exceed it")
    if interrupt == 'limit':
        ctx.check(r.limit == r.delivered, "a limit is reported that was not reached")
    ctx.reach(interrupt or ('abandoned' if end == 'abandoned' else 'complete'))


def history(ctx, problem, ends):
    t = Timed(ctx, problem)
    t.start()
    solver = P.solver()
    for i, end in enumerate(ends):
        r = Run(ctx, t, solver, end, str(i))
        r.drain()
        if r.delivered or r.done:
            started = r
            started.check('end of run {}'.format(i), interrupt=None if end in ('complete', 'unsolvable', 'abandoned', 'optimize', 'fruitless')
                          else '?')
        t.hold()
        ctx.reach(end)
    # reading the statistics later changes nothing
    if r.delivered or r.done:
        r.check('later')


def overlap(ctx, problem, ends, steps):
    """Two runs on one solver: the statistics are those of the one started last."""
    t = Timed(ctx, problem, max_tick=2)
    t.start()
    solver = P.solver()
    a = Run(ctx, t, solver, ends[0], 'a')
    b = Run(ctx, t, solver, ends[1], 'b')
    a.step()
    a.check('first run')
    t.hold()
    b.step()
    b.check('second run')
    ctx.reach('overlap')
    interrupt = solver.get_stats().interrupt
    for k in range(steps):
        who = ctx.choice('who{}'.format(k), [a, b])
        if who.done:
            return
        who.step()
        t.hold()
        if who is a:
            b.check('after a step of the older run', interrupt=interrupt)
        else:
            b.check('after a step of the newer run')
            interrupt = solver.get_stats().interrupt
        if interrupt == 'timeout':
            ctx.check(b.timeout is not None, "interrupt of another run reported")
        if interrupt == 'limit':
            ctx.check(b.limit is not None, "interrupt of another run reported")


def timer(ctx, kind):
    """The stopwatch itself, over arbitrary histories of its operations."""
    U = loader.load('satisfy.utils')
    state = [0]
    ctx.clock = lambda: 50 + state[0]
    t = U.Timer()
    running, total, count = False, 0, 0
    for k in range(5):
        if k:
            d = ctx.int('d{}'.format(k), 0, 1000)
            state[0] = state[0] + d
            if running:
                total = total + d
        op = ctx.choice('op{}'.format(k), ['start', 'stop', 'abort', 'stop2'] if kind == 'protocol' else ['start', 'stop', 'look'])
        try:
            if op == 'start':
                t.start()
            elif op == 'stop':
                t.stop()
            elif op == 'stop2':
                t.stop(count=2)
            elif op == 'abort':
                t.abort()
            refused = False
        except RuntimeError:
            refused = True
        ctx.check(refused == (op == 'start' and running or op in ('stop', 'stop2') and not running),
                  "the stopwatch accepts or refuses an operation wrongly", op=op, running=running)
        if not refused:
            if op == 'start':
                running = True
            elif op == 'stop':
                running, count = False, count + 1
            elif op == 'stop2':
                running, count = False, count + 2
            elif op == 'abort':
                running = False
        ctx.check(bool(t.running()) == running, "wrong running state", op=op)
        ctx.check(t.count() == count, "wrong count", op=op)
        ctx.check(EQ(t.elapsed(), total), "wrong elapsed time", op=op, elapsed=t.elapsed(), total=total)
        if not running:
            ctx.check(EQ(t.stats().elapsed, total) and t.stats().count == count, "wrong statistics", op=op)
