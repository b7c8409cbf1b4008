"""S09: earlier or concurrent runs never influence a run."""
from symex import loader
from symex.api import AND, NOT
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "histories of 1-2 (thorough 3) earlier runs on one model, each complete, abandoned after 0-2 solutions (closed or not), limited, timed "
    "out, optimizing, with another policy or compilation setting, on the same or another solver, with the consumer modifying "
    "the solutions; then one more run compared with a fresh model",
    "2 (thorough 3) overlapping runs of different kinds on the same or different solvers, every interleaving of up to 5 (7) steps, "
    "then both to the end; a run started from inside another one's consumer",
    "problems of 0-4 variables with every relation of the user-defined constraints, or symbolic coefficients and domain values",
]
OUTSIDE = ["longer histories, more overlapping runs", "threads (the solver is sequential)"]
WITNESSES = ['history', 'overlap', 'timeout before', 'optimize before', 'mutated', 'reused objective', 'nested', 'iterated twice']

HISTORY = ['complete', 'abandoned', 'limit', 'timeout', 'maximize', 'minimize', 'optimum', 'additional', 'interpreted',
           'policy', 'failing']
FINAL = ['solve', 'maximize', 'additional', 'interpreted', 'reversed']


def all_problems():
    return P.TABLES + P.BIG_TABLES + P.EXPRESSION_PROBLEMS + EXTRA


EXTRA = [
    ('h table', [[0, 1], [1, 0]], [['T', [0, 1]]], []),
    ('h lin', [[0, 1, 2], [2, 1]], [['E', [0, 1], 'sum<='], ['AD', [0, 1]]], []),
    ('h unary', [[0, 1, 2], [1, 0]], [['T', [0]], ['AD', [1, 0]]], []),
    ('h three', [[0, 1], [1, 2], [2, 0]], [['T', [0, 2]], ['AD', [0, 1, 2]]], []),
    ('h value', [[0, 1, 2], [2, 1]], [['E', [0, 1], 'value'], ['T', [0]]], []),
]


def find(name):
    return [p for p in all_problems() if p[0] == name][-1]


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    problems = ['h table', 'h lin', 'h unary', 'h three'] + (['h value', 'unary+binary'] if thorough else [])
    for problem in problems:
        for before in HISTORY:
            out.append(Job('history', problem=problem, before=[before], final=FINAL, mutate=[None, 'clear', 'assign'] if
                           thorough else [None, 'clear'] if before != 'complete' else ['assign'], weight=3))
        for a in ['abandoned', 'timeout', 'maximize', 'interpreted', 'optimum'] if not thorough else HISTORY:
            for b in ['abandoned', 'minimize', 'additional', 'limit'] if not thorough else HISTORY:
                if problem == 'h lin' or problem == 'h three' and thorough:
                    out.append(Job('history', problem=problem, before=[a, b], weight=5, mutate=[None],
                                   final=FINAL if thorough else ['solve', 'minimize']))
    if thorough:
        for a in ['abandoned', 'maximize', 'interpreted']:
            for b in ['timeout', 'minimize', 'additional', 'limit']:
                for c in ['abandoned', 'optimum', 'policy']:
                    out.append(Job('history', problem='h lin', before=[a, b, c], mutate=[None], final=['solve', 'minimize'],
                                   weight=6))
    kinds = ['solve', 'maximize', 'minimize', 'limit', 'additional', 'interpreted', 'reversed']
    for i, a in enumerate(kinds):
        for b in kinds[i:]:
            for problem in (['h value', 'h three', 'h table', 'h lin'] if thorough else ['h lin', 'h table']):
                out.append(Job('overlap', problem=problem, kinds=[a, b], steps=6 if thorough else 4, weight=8))
    if thorough:
        for kinds in (['maximize', 'minimize', 'maximize'], ['solve', 'maximize', 'interpreted'],
                      ['additional', 'minimize', 'limit']):
            out.append(Job('overlap', problem='h value', kinds=kinds, steps=5, weight=9))
    for problem in ['h value', 'h three']:
        for a in ['solve', 'maximize', 'interpreted']:
            for b in ['solve', 'minimize', 'timeout']:
                out.append(Job('nested', problem=problem, kinds=[a, b], weight=4))
    for problem in ['h table', 'h lin', 'h unary']:
        out.append(Job('twice', problem=problem))
    return out


class Scene(object):
    """One model, with an untouched twin for every reference run."""

    def __init__(self, ctx, problem, mutate=None):
        self.ctx = ctx
        _, domains, constraints, _ = find(problem)
        self.p = P.Problem(ctx, domains, constraints)
        self.now = 0
        self.mutate = mutate
        self.model = self.p.model()
        self.objects = {}

    def objective(self, kind, model):
        O = loader.load('satisfy.objective')
        total = 0
        for i, n in enumerate(self.p.names):
            total = total + model.get_variable(n) * [3, -2, 1, 5][i]
        return (O.Maximize if kind in ('maximize', 'optimum') else O.Minimize)(total)

    def additional(self, model):
        C = loader.load('satisfy.constraint')
        x = model.get_variable(self.p.names[0])
        out = [C.ExpressionConstraint(x * 2 != 2)]
        if self.p.n > 1:
            out.append(C.ExpressionConstraint(x + model.get_variable(self.p.names[1]) <= 3))
        return out

    def kept(self, kind, model, make):
        """Objectives and additional constraints are the caller's, who may use
        the same object in several runs."""
        if model is not self.model:
            return make()
        kind = {'optimum': 'maximize'}.get(kind, kind)
        if kind not in self.objects:
            self.objects[kind] = make()
        else:
            self.ctx.reach('reused objective')
        return self.objects[kind]

    def start(self, kind, model, solver, args=None):
        """An iterator over the solutions of one run."""
        S = loader.load('satisfy.solver')
        args = dict(args or {})
        if kind in ('maximize', 'minimize'):
            objective = self.kept(kind, model, lambda: self.objective(kind, model))
            return (s.solution for s in solver.optimize(model, objective, **args))
        if kind == 'additional':
            args['additional_constraints'] = self.kept(kind, model, lambda: self.additional(model))
        if kind == 'limit':
            args['limit'] = 1
        if kind == 'timeout':
            args['timeout'] = 1
        if kind == 'reversed':
            args['var_selection_policy'] = S.VarSelectionPolicy.REVERSED
        if kind == 'policy':
            args['var_selection_policy'] = S.VarSelectionPolicy.MAX_BOUND
        return solver.solve(model, **args)

    def solver(self, kind):
        return P.solver(compile_constraints=kind != 'interpreted')

    def reference(self, kind):
        model = self.p.model()
        return [dict(s) for s in self.start(kind, model, self.solver(kind))]

    def took(self, solution):
        """What the consumer does with a solution it got; returns a copy."""
        copy = dict(solution)
        if self.mutate == 'clear':
            solution.clear()
        elif self.mutate == 'assign':
            for v in solution:
                solution[v] = 7
            solution['other'] = 1
        if self.mutate:
            self.ctx.reach('mutated')
        return copy

    def earlier(self, kind, solver, tag):
        """An earlier run over the model."""
        ctx, model = self.ctx, self.model
        if kind == 'complete':
            for s in self.start('solve', model, solver):
                self.took(s)
        elif kind == 'abandoned':
            stop = ctx.choice('stop' + tag, [0, 1, 2])
            run = self.start('solve', model, solver)
            for k in range(stop + 1):
                s = next(run, None)
                if s is None:
                    break
                self.took(s)
            self.objects['run' + tag] = run          # still alive
            if ctx.choice('close' + tag, [True, False]):
                run.close()
        elif kind == 'timeout':
            ctx.clock = lambda: self.now
            for s in self.start('timeout', model, solver):
                self.now += 1 + ctx.choice('d' + tag, [0, 1])
                self.took(s)
            ctx.clock = None
            run = solver.solve(model, timeout=-1)
            ctx.clock = lambda: self.now
            ctx.check(self.p.n == 0 or next(run, None) is None, "an expired timeout delivers a solution")
            ctx.clock = None
            ctx.reach('timeout before')
        elif kind in ('maximize', 'minimize'):
            n = ctx.choice('n' + tag, [1, 2, 99])
            run = self.start(kind, model, solver)
            for k in range(n):
                s = next(run, None)
                if s is None:
                    break
                self.took(s)
            self.objects['run' + tag] = run
            ctx.reach('optimize before')
        elif kind == 'optimum':
            objective = self.kept(kind, model, lambda: self.objective('maximize', model))
            best = solver.optimal_solution(model, objective, limit=ctx.choice('limit' + tag, [None, 1]))
            if best.solution is not None:
                self.took(best.solution)
        elif kind == 'failing':
            C = loader.load('satisfy.constraint')

            class Boom(C.Constraint):
                count = 0

                def evaluate(self, substitution):
                    Boom.count += 1
                    if Boom.count > 2:
                        raise KeyError('boom')
                    return True
            try:
                for s in solver.solve(model, additional_constraints=[Boom([self.p.names[0]])]):
                    self.took(s)
            except KeyError:
                pass
        else:
            for s in self.start(kind, model, solver if kind != 'interpreted' else self.solver(kind)):
                self.took(s)

    def compare(self, kind, got, expected, **what):
        p = self.p
        self.ctx.check(len(got) == len(expected), "a run delivers another number of solutions than on a fresh model",
                       kind=kind, got=got, expected=expected, **what)
        for a, b in zip(got, expected):
            self.ctx.check(sorted(a) == sorted(b), "a run assigns other variables than on a fresh model", got=a, expected=b,
                           **what)
            self.ctx.check(p.same(p.tuple_of(a), p.tuple_of(b)), "a run delivers other solutions than on a fresh model",
                           kind=kind, got=got, expected=expected, **what)


def history(ctx, problem, before, mutate, final):
    mutate = ctx.choice('mutate', mutate)
    scene = Scene(ctx, problem, mutate)
    own = P.solver()
    for i, kind in enumerate(before):
        solver = own if ctx.choice('same solver {}'.format(i), [True, False]) else P.solver('REVERSED')
        scene.earlier(kind, solver, str(i))
    final = ctx.choice('final', final)
    same = final != 'interpreted' and ctx.choice('final on same', [True, False])
    solver = own if same else scene.solver(final)
    # the run is followed while the consumer modifies what it gets
    got = [scene.took(s) for s in scene.start(final, scene.model, solver)]
    interrupt = solver.get_stats().interrupt
    expected = scene.reference(final)
    scene.compare(final, got, expected, before=before, mutate=mutate)
    ctx.check(interrupt is None, "an earlier run's interrupt is reported", interrupt=interrupt)
    ctx.reach('history')


def overlap(ctx, problem, kinds, steps):
    shared = ctx.choice('shared', [True, False])
    scene = Scene(ctx, problem, ctx.choice('mutate', [None, 'clear']))
    own = P.solver()
    runs, got, done = [], [], []
    for kind in kinds:
        solver = own if shared and kind != 'interpreted' else scene.solver(kind)
        runs.append(scene.start(kind, scene.model, solver))
        got.append([])
        done.append(False)

    def step(i):
        s = next(runs[i], None)
        if s is None:
            done[i] = True
        else:
            got[i].append(scene.took(s))

    for k in range(steps):
        left = [i for i in range(len(runs)) if not done[i]]
        if not left:
            break
        step(ctx.choice('who{}'.format(k), left))
    for i in range(len(runs)):
        while not done[i]:
            step(i)
    for i, kind in enumerate(kinds):
        scene.compare(kind, got[i], scene.reference(kind), kinds=kinds, shared=shared)
    ctx.reach('overlap')


def nested(ctx, problem, kinds):
    """A complete second run each time the first one delivers."""
    scene = Scene(ctx, problem)
    solver = scene.solver(kinds[0])
    inner_solver = solver if ctx.choice('shared', [True, False]) else P.solver()
    outer, inner = [], []
    for s in scene.start(kinds[0], scene.model, solver):
        outer.append(dict(s))
        if kinds[1] == 'timeout':
            ctx.clock = lambda: scene.now
            for t in scene.start('timeout', scene.model, inner_solver):
                scene.now += 2
            ctx.clock = None
        else:
            inner.append([dict(t) for t in scene.start(kinds[1], scene.model, inner_solver)])
    scene.compare(kinds[0], outer, scene.reference(kinds[0]), kinds=kinds)
    if inner:
        expected = scene.reference(kinds[1])
        for one in inner:
            scene.compare(kinds[1], one, expected, kinds=kinds)
    ctx.reach('nested')


def twice(ctx, problem):
    """Iterating over a model solver again gives the same solutions again."""
    S = loader.load('satisfy.solver')
    scene = Scene(ctx, problem)
    m = S.ModelSolver(model=scene.model)
    first = []
    for s in m:
        first.append(dict(s))
        s.clear()
        if len(first) == ctx.choice('n', [1, 99]):
            break
    again = [dict(s) for s in m]
    scene.compare('solve', again, scene.reference('solve'))
    ctx.reach('iterated twice')
