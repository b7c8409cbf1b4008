"""M05: running a solver leaves the model and everything given to it as declared."""
from symex import loader
from symex.api import AND, EQ, IFF, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "models of 0-4 variables, related or free (every relation of user-defined constraints; symbolic coefficients and domain values) with parameters, "
    "unnamed and named variables, constraints that are decided when added",
    "runs: complete, abandoned after 0-2 solutions (closed or not), limited, timed out, under every policy, compiled or not, with "
    "additional constraints (satisfiable or not), optimizing one or two objectives, raising at a symbolic evaluation, not solvable, with solutions the consumer changes; "
    "one to two (thorough: three) in a row; everything declared is compared after each delivered solution and after each run",
    "after the runs: declarations continued, parameters and verdicts read and constraints evaluated on every assignment, "
    "and a last run compared with an untouched twin",
]
OUTSIDE = ["a consumer that changes the model during a run (see S11)"]
WITNESSES = ['solution', 'optimized', 'raised', 'timeout', 'abandoned', 'not solvable', 'declared more', 'additional', 'changed solution', 'infeasible']

NO_LINK = ('free', 'one', 'one unary', 'free first', 'free last')
RUNS = ['complete', 'interpreted', 'limit', 'zero limit', 'timeout', 'abandoned', 'dropped', 'additional', 'maximize', 'minimize',
        'two objectives', 'optimum', 'optimum limit', 'mutate', 'random', 'policy', 'stats',
        'infeasible']
PROBLEMS = {
    'table': ([[0, 1, 2], [1, 0]], [['T', [0, 1]]]),
    'linear': ([['s', 's'], ['s']], [['E', [0, 1], 'sum<='], ['AD', [0, 1]]]),
    'unary': ([[0, 1, 2], [1, 0]], [['T', [0]], ['AD', [1, 0]], ['E', [0, 1], 'x>y'], ['K', True]]),
    'three': ([[0, 1], [1, 2], [2, 0]], [['T', [0, 2]], ['AD', [0, 1, 2]], ['E', [1], 'x<=c']]),
    'logic': ([[0, 's'], [1, 0]], [['E', [0, 1], 'or'], ['E', [1, 0], 'value']]),
    'false': ([[0, 1], [1, 0]], [['T', [0]], ['K', False], ['AD', [0, 1]]]),
    'empty': ([[0, 1], []], [['AD', [0, 1]]]),
    'none': ([], [['K', True]]),
    'free': ([[2, 0, 1], [1, 0]], []),
    'one': ([[0, 's', 1]], []),
    'one unary': ([[1, 0, 2]], [['T', [0]]]),
    'free first': ([[0, 3], [0, 1], [2, 1]], [['T', [1, 2]]]),
    'free last': ([[0, 1], [2, 1], [4, 5, 3]], [['AD', [0, 1]]]),
    'four': ([[0, 1], [1, 0], [0, 2], [1]], [['AD', [0, 1]], ['E', [2, 1], 'abs>='], ['AD', [1, 3, 2]]]),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for problem in PROBLEMS:
        for run in RUNS:
            out.append(Job('unchanged', problem=problem, runs=[run], weight=2))
        if thorough or problem in ('unary', 'linear', 'one unary'):
            for a in RUNS if thorough else ['abandoned', 'maximize', 'interpreted', 'optimum limit']:
                for b in RUNS if thorough else ['timeout', 'minimize', 'additional', 'policy', 'infeasible']:
                    out.append(Job('unchanged', problem=problem, runs=[a, b], weight=3))
    if thorough:
        for a in ['maximize', 'abandoned', 'interpreted', 'additional']:
            for b in ['minimize', 'timeout', 'two objectives', 'policy']:
                for c in ['complete', 'optimum', 'limit', 'mutate']:
                    out.append(Job('unchanged', problem='three', runs=[a, b, c], weight=4))
    for problem in ('table', 'three', 'unary', 'one unary', 'free first'):
        for run in ('complete', 'interpreted', 'maximize', 'two objectives', 'additional'):
            out.append(Job('raising', problem=problem, run=run, weight=4))
    return out


class Failure(Exception):
    pass


class Declared(object):
    """A model with everything the user gave to it, and what it must still be."""

    def __init__(self, ctx, problem):
        M = loader.load('satisfy.model')
        domains, constraints = PROBLEMS[problem]
        self.ctx = ctx
        self.problem = problem
        self.p = P.Problem(ctx, domains, constraints)
        self.value = ctx.int('parameter', 0, 2)
        self.now = 0
        self.armed = None

    def hook(self):
        if self.armed is not None:
            if not self.armed:
                raise Failure()
            self.armed -= 1

    def make(self):
        M = loader.load('satisfy.model')
        p = self.p
        p.on_evaluate = self.hook
        model = M.Model()
        self.given = []
        p.variables = {}
        parameter = model.add_parameter(self.value, name='p')
        for i in range(p.n):
            domain = list(p.domains[i])
            self.given.append(domain)
            p.variables[i] = model.add_int_variable(domain, name=p.names[i])
            if i == 0:
                model.add_parameter(7)
        for k in range(len(p.specs)):
            model.add_constraint(p.constraint(k, p.variables))
        self.linked = p.n > 1 and self.problem not in NO_LINK
        if self.linked:
            model.add_constraint(p.variables[0] * 2 + p.variables[1] * 0 <= 3 + parameter)
        self.parameter = parameter
        return model


def snapshot(model):
    variables = model.variables()
    return dict(
        names=list(variables),
        objects=[info.variable for info in variables.values()],
        own_names=[info.variable.name for info in variables.values()],
        domains=[info.domain for info in variables.values()],
        values=[None if info.domain is None else list(info.domain) for info in variables.values()],
        parameters=[info.variable.value if info.domain is None else None for info in variables.values()],
        constraints=list(model.constraints()),
        scopes=[sorted(c.vars()) for c in model.constraints()],
        solvable=bool(model.solvable()))


def compare(ctx, before, model, when):
    after = snapshot(model)
    ctx.check(before['names'] == after['names'], "a run changed the variables of the model", when=when, before=before['names'], after=after['names'])
    ctx.check(before['own_names'] == after['own_names'], "a run renamed a variable", when=when)
    for kind, what in (('objects', "a variable"), ('domains', "a domain"), ('constraints', "the constraints")):
        ctx.check(len(before[kind]) == len(after[kind]) and all(a is b for a, b in zip(before[kind], after[kind])),
                  "a run replaced or added " + what, when=when, before=before[kind], after=after[kind])
    for a, b in zip(before['values'], after['values']):
        ctx.check((a is None) == (b is None) and (a is None or len(a) == len(b) and AND(*[EQ(v, w) for v, w in zip(a, b)])),
                  "a run changed a domain", when=when, before=a, after=b)
    for a, b in zip(before['parameters'], after['parameters']):
        ctx.check((a is None) == (b is None) and (a is None or EQ(a, b)), "a run changed a parameter", when=when, before=a, after=b)
    ctx.check(before['scopes'] == after['scopes'], "a run changed the variables of a constraint", when=when)
    ctx.check(before['solvable'] == after['solvable'], "a run changed whether the model is solvable", when=when)


def objective(d, model, kind, scale=1):
    O = loader.load('satisfy.objective')
    E = loader.load('satisfy.expression')
    total = E.Expression.coerce(3)
    for i, n in enumerate(d.p.names):
        total = total + model.get_variable(n) * ([3, -2, 1, 5][i] * scale)
    return (O.Maximize if kind == 'maximize' else O.Minimize)(total)


def extra(d, model):
    C = loader.load('satisfy.constraint')
    if not d.p.n:
        return [C.ConstConstraint(True)]
    x = model.get_variable(d.p.names[0])
    return [C.ExpressionConstraint(x * 2 != 2), C.AllDifferentConstraint(d.p.names[:2]), C.ExpressionConstraint(x <= 1)]


def impossible(d, model):
    """Additional constraints that leave no value, no pair of values, or nothing at once."""
    C = loader.load('satisfy.constraint')
    what = d.ctx.choice('impossible', ['value', 'pair', 'never', 'objective'])
    d.ctx.reach('infeasible')
    if what == 'never' or not d.p.n:
        return [C.ConstConstraint(False)]
    x = model.get_variable(d.p.names[0])
    if what == 'value':
        return [C.ExpressionConstraint(x < -99)]
    if what == 'pair':
        y = model.get_variable(d.p.names[-1])
        return [C.ExpressionConstraint(x + y < -99), C.ExpressionConstraint(x >= y)]
    return [C.ExpressionConstraint(sum(model.get_variable(n) for n in d.p.names) > 999)]


class Run(object):
    def __init__(self, d, model, kind, tag):
        S = loader.load('satisfy.solver')
        self.ctx = d.ctx
        self.kind = kind
        self.model = model
        self.sequences = []
        ctx = d.ctx
        args = {}
        policy = 'GROUPS'
        if kind == 'policy':
            policy = ctx.choice('policy' + tag, [q for q in P.POLICIES if q not in ('GROUPS', 'RANDOM')] if not tag else ['REVERSED', 'MIN_BOUND'])
        elif kind == 'random':
            policy = 'RANDOM'
            ctx.control_random = True
        comp = kind != 'interpreted' and (kind == 'complete' or bool(tag) or ctx.choice('compiled' + tag, [True, False]))
        if kind in ('limit', 'optimum limit'):
            args['limit'] = 1
        elif kind == 'zero limit':
            args['limit'] = 0
        elif kind == 'timeout':
            args['timeout'] = 1
        if kind == 'infeasible':
            args['additional_constraints'] = self.keep(impossible(d, model))
        if kind == 'additional':
            args['additional_constraints'] = self.keep(extra(d, model))
        self.solver = P.solver(policy, comp)
        self.optimizes = kind in ('maximize', 'minimize', 'two objectives', 'optimum', 'optimum limit')
        if kind == 'two objectives':
            objectives = self.keep([objective(d, model, 'maximize'), objective(d, model, 'minimize', -2)])
        else:
            objectives = objective(d, model, 'minimize' if kind == 'minimize' else 'maximize')
        self.objectives = objectives if isinstance(objectives, list) else [objectives]
        self.texts = [str(o._expression) if hasattr(o, '_expression') else repr(o) for o in self.objectives]
        if kind in ('optimum', 'optimum limit'):
            self.once = lambda: self.solver.optimal_solution(model, objectives, **args)
            self.stream = None
        elif self.optimizes:
            self.stream = self.solver.optimize(model, objectives, **args)
        else:
            self.stream = self.solver.solve(model, **args)

    def keep(self, sequence):
        self.sequences.append((sequence, list(sequence)))
        return sequence

    def go(self, d, watch):
        ctx = self.ctx
        if self.stream is None:
            best = self.once()
            ctx.reach('optimized')
            return
        count = 0
        stop = ctx.choice('stop', [0, 1, 2] if len(d.runs) == 1 else [1, 2]) if self.kind in ('abandoned', 'dropped') else None
        while stop is None or count < stop:
            s = next(self.stream, None)
            if s is None:
                break
            count += 1
            ctx.reach('solution')
            if self.optimizes:
                ctx.reach('optimized')
                s = s.solution
            if self.kind == 'mutate':
                for name in list(s):
                    s[name] = 9
                s['more'] = 1
                ctx.reach('changed solution')
            if self.kind == 'timeout':
                d.now = d.now + ctx.int('elapsed', 0, 2)
            if self.kind == 'stats':
                self.solver.get_stats()
            watch()
        if self.kind == 'timeout':
            ctx.reach('timeout')
        if stop is not None:
            ctx.reach('abandoned')
            if self.kind == 'abandoned':
                self.stream.close()

    def settle(self):
        ctx = self.ctx
        for sequence, copy in self.sequences:
            ctx.check(len(sequence) == len(copy) and all(a is b for a, b in zip(sequence, copy)),
                      "a run changed a list it was given", run=self.kind)
        if self.kind == 'additional':
            ctx.reach('additional')


def tick(d, ctx, runs):
    if 'timeout' in runs:
        def clock():
            return d.now
        ctx.clock = clock


def unchanged(ctx, problem, runs):
    d = Declared(ctx, problem)
    tick(d, ctx, runs)
    d.runs = runs
    model = d.make()
    given, parameter = d.given, d.parameter
    before = snapshot(model)
    if not before['solvable']:
        ctx.reach('not solvable')
    for k, kind in enumerate(runs):
        run = Run(d, model, kind, str(k) if len(runs) > 1 else '')
        run.go(d, lambda: compare(ctx, before, model, "during " + kind))
        compare(ctx, before, model, "after " + kind)
        run.settle()
    ctx.control_random = False
    finish(ctx, d, model, given, parameter, runs)


def finish(ctx, d, model, given, parameter, what):
    p = d.p
    for sequence, values in zip(given, p.domains):
        ctx.check(len(sequence) == len(values) and AND(*[EQ(a, b) for a, b in zip(sequence, values)]),
                  "a run changed a sequence given as a domain", after=sequence, before=values)
    ctx.check(EQ(parameter.value, d.value), "a run changed a parameter")
    # the constraints still mean the same
    kept = [k for k, spec in enumerate(p.specs) if spec[0] != 'K']
    left = [c for c in model.constraints() if tuple(c.vars())]
    ctx.check(len(left) == len(kept) + d.linked, "a run changed the number of constraints")
    for assignment in p.assignments():
        substitution = dict(zip(p.names, assignment))
        for k, c in zip(kept + [None], left):
            wanted = assignment[0] * 2 <= 3 + d.value if k is None else p.holds(k, assignment)
            ctx.check(IFF(TRUTH(c.evaluate(dict(substitution))), wanted), "a constraint means something else after a run",
                      assignment=assignment, position=k)
    # the declaration continues, on both models, as if nothing had happened
    twin = d.make()
    for m in (model, twin):
        m.add_parameter(3)
    v, w = [m.add_int_variable([4, 2]) for m in (model, twin)]
    ctx.check(v.name == w.name and list(model.variables()) == list(twin.variables()),
              "names of later variables depend on earlier runs", after=list(model.variables()), fresh=list(twin.variables()))
    q = [m.add_parameter(2, name='q') for m in (model, twin)]
    for m, x, r in zip((model, twin), (v, w), q):
        m.add_constraint(x + r >= 5)
    ctx.reach('declared more')
    ctx.check(bool(model.solvable()) == bool(twin.solvable()), "whether the model is solvable depends on earlier runs")
    S = loader.load('satisfy.solver')
    d.now = 0
    for comp in ((True, False) if len(what) == 1 else (True,)):
        got = [list(P.solver('GROUPS', comp).solve(m)) for m in (model, twin)]
        ctx.check(len(got[0]) == len(got[1]), "a model has other solutions after a run", after=got[0], fresh=got[1], runs=what)
        for a, b in zip(*got):
            ctx.check(list(a) == list(b) and AND(*[EQ(a[n], b[n]) for n in a]), "a model has other solutions after a run",
                      after=got[0], fresh=got[1], runs=what)


def raising(ctx, problem, run):
    """An evaluation that fails ends the run, and nothing else."""
    d = Declared(ctx, problem)
    d.runs = [run]
    model = d.make()
    given, parameter = d.given, d.parameter
    before = snapshot(model)
    d.armed = ctx.choice('evaluations', [0, 1, 2, 4])
    r = Run(d, model, run, '')
    try:
        r.go(d, lambda: compare(ctx, before, model, "during " + run))
    except Failure:
        ctx.reach('raised')
    d.armed = None
    compare(ctx, before, model, "after a failing " + run)
    r.settle()
    finish(ctx, d, model, given, parameter, [run])
