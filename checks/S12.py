"""S12: a solver's settings are those given last, for every run started after that."""
from symex import loader
from symex.api import AND, EQ
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "histories of 2-3 (thorough 4) steps on one solver: limit and timeout (any integer 0-99, none, infinite; the clock counts evaluations), policy "
    "(every one except RANDOM) or compilation (true and false values of several types) set as attribute, refused policies, runs "
    "(complete, abandoned, optimizing) with and without these settings for the call",
    "settings changed while a run is in progress, after 1-2 solutions",
    "models of 1-3 variables and 2-8 solutions, relations partly symbolic; each run compared with one of a new solver constructed with the "
    "settings in force and with one given them for the call, including statistics and the state of compilation",
]
OUTSIDE = ["changing a setting between asking for a run and its first solution", "longer histories"]
WITNESSES = ['limit', 'timeout', 'complete', 'policy', 'refused', 'compiled', 'not compiled', 'call', 'during', 'optimize', 'order']

POLICIES = [p for p in P.POLICIES if p != 'RANDOM']
SETS = ['limit', 'timeout', 'policy', 'compile', 'refused']
RUNS = ['run', 'run limit', 'run timeout', 'run policy', 'run both', 'abandon', 'optimize', 'optimum']
# domains, constraints, range of the coefficients
PROBLEMS = {
    'square': ([[0, 1, 2], [1, 0]], [['E', [0, 1], 'sum<=']], (2, 3)),
    'three': ([[0, 1], [2, 1], [1, 0]], [['E', [0, 1], 'or'], ['AD', [0, 1]]], (1, 2)),
    'one': ([[2, 0, 1]], [['E', [0], 'x<=c']], (0, 2)),
    'sizes': ([[0, 1, 2], [5], [1, 0]], [['E', [0, 2], 'abs>='], ['E', [0], 'x+c']], (-1, 1)),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    out.append(Job('values'))
    for problem in PROBLEMS:
        for a in SETS:
            for run in RUNS:
                if thorough or problem == 'square' or run in ('run', 'optimize'):
                    out.append(Job('history', problem=problem, steps=[a, run], configured=[False, True], weight=3))
    for first in ['run limit', 'run timeout', 'run policy', 'run both', 'abandon', 'optimum']:
        for problem in PROBLEMS if thorough else ['square', 'sizes']:
            out.append(Job('history', problem=problem, steps=[first, 'run'], configured=[False, True], weight=4))
    for a in SETS:
        for b in SETS:
            if a != b:
                out.append(Job('history', problem='square', steps=[a, b, 'run'], configured=[False], weight=5))
            for problem in PROBLEMS if thorough else ['square']:
                out.append(Job('during', problem=problem, before=a, change=b, weight=4))
        for b in ['run', 'run limit', 'run timeout', 'run policy', 'abandon']:
            for run in ['run', 'run limit', 'optimum'] if thorough else ['run']:
                out.append(Job('history', problem='three' if thorough else 'one', steps=[a, b, run], configured=[False], weight=5))
    if thorough:
        for a in ['limit', 'timeout', 'policy']:
            for b in ['run limit', 'run timeout', 'run policy']:
                for c in ['limit', 'timeout', 'compile']:
                    out.append(Job('history', problem='one', steps=[a, b, c, 'run'], configured=[False], weight=6))
    return out


class Settings(object):
    def __init__(self, ctx, tag):
        self.ctx = ctx
        self.tag = tag
        self.count = 0

    def make(self, what):
        """A new value of a setting: (value, value in force)."""
        ctx = self.ctx
        U = loader.load('satisfy.utils')
        S = loader.load('satisfy.solver')
        self.count += 1
        name = '{}{}{}'.format(what, self.tag, self.count)
        if what in ('limit', 'timeout'):
            kind = ctx.choice(name + ' kind', ['number', 'none', 'infinite'])
            if kind != 'number':
                return (U.INFINITY if kind == 'infinite' else None), None
            value = ctx.int(name, 0, 99)
            return value, value
        if what == 'policy':
            value = S.VarSelectionPolicy[ctx.choice(name, POLICIES)]
            return value, value
        value = ctx.choice(name, [True, False, 'yes', 0])
        return value, bool(value)


class Clock(object):
    """Advances by one in each evaluation."""

    def __init__(self):
        self.now = 0

    def tick(self):
        self.now += 1


def make(ctx, problem, clock):
    domains, constraints, (lo, hi) = PROBLEMS[problem]
    p = P.Problem(ctx, domains, constraints, lo=lo, hi=hi)
    p.on_evaluate = clock.tick
    C = loader.load('satisfy.constraint')

    class Slow(C.Constraint):
        def evaluate(self, substitution):
            clock.tick()
            return True
    model = p.model()
    if p.n > 1:
        model.add_constraint(Slow(p.names))
    return p, model


def apply(ctx, solver, force, make_value, what):
    """Sets an attribute; force is what holds now."""
    S = loader.load('satisfy.solver')
    before = (solver.limit, solver.timeout, solver.var_selection_policy, solver.compile_constraints)
    if what == 'refused':
        bad = ctx.choice('bad', ['GROUPS', 3, None, S.VarSelectionPolicy])
        try:
            solver.var_selection_policy = bad
        except TypeError:
            ctx.reach('refused')
        else:
            ctx.check(False, "something that is not a policy is accepted", value=bad)
        ctx.check((solver.limit, solver.timeout, solver.var_selection_policy, solver.compile_constraints) == before,
                  "a refused setting changes another one")
        return
    attribute = {'limit': 'limit', 'timeout': 'timeout', 'policy': 'var_selection_policy', 'compile': 'compile_constraints'}[what]
    value, effective = make_value(what)
    setattr(solver, attribute, value)
    force[attribute] = effective


def read_back(ctx, solver, force):
    for attribute, value in force.items():
        found = getattr(solver, attribute)
        ctx.check(found is value if value is None or isinstance(value, bool) else EQ(found, value),
                  "a setting reads otherwise than it was set", attribute=attribute, found=found, wanted=value)


DEFAULTS = dict(limit=None, timeout=None, compile_constraints=True)


def call_args(settings, kind):
    args, force = {}, {}
    for what in {'run limit': ['limit'], 'run timeout': ['timeout'], 'run policy': ['policy'],
                 'run both': ['limit', 'policy']}.get(kind, []):
        attribute = 'var_selection_policy' if what == 'policy' else what
        args[attribute], force[attribute] = settings.make(what)
    return args, force


def objective(model):
    O = loader.load('satisfy.objective')
    total = 0
    for i, name in enumerate(n for n, info in model.variables().items()):
        total = total + model.get_variable(name) * (i + 1)
    return O.Maximize(total)


def collect(ctx, clock, solver, model, kind, args, stop):
    clock.now = 0
    ctx.clock = lambda: clock.now
    if kind == 'optimum':
        got = [solver.optimal_solution(model, objective(model), **args)]
    elif kind == 'optimize':
        got = [s.solution for s in solver.optimize(model, objective(model), **args)]
    else:
        got = []
        run = solver.solve(model, **args)
        while stop is None or len(got) < stop:
            s = next(run, None)
            if s is None:
                break
            got.append(dict(s))
    stats = solver.get_stats()
    ctx.clock = None
    return got, stats


def run(ctx, clock, settings, solver, force, model, kind):
    args, call = call_args(settings, kind)
    stop = settings.ctx.choice('stop', [1, 2]) if kind == 'abandon' else None
    got, stats = collect(ctx, clock, solver, model, kind, args, stop)
    check_run(ctx, clock, dict(force, **call), model, kind, stop, got, stats, bool(call))


def check_run(ctx, clock, force, model, kind, stop, got, stats, by_call):
    S = loader.load('satisfy.solver')
    compiled = [c.is_compiled() for c in model.constraints() if type(c).__name__ == 'ExpressionConstraint']
    if not (force['limit'] == 0 or not model.solvable()):
        ctx.check(compiled == [force['compile_constraints']] * len(compiled), "constraints are not compiled as set",
                  compiled=compiled, settings=force)
        ctx.reach('compiled' if force['compile_constraints'] else 'not compiled')
    call = dict(force)
    compiled = call.pop('compile_constraints')
    for solver, args in [(S.Solver(**force), {}), (S.Solver(compile_constraints=compiled), call)]:
        fresh, wanted = collect(ctx, clock, solver, model, kind, args, stop)
        what = dict(settings=force, kind=kind, got=got, fresh=fresh, args=args)
        ctx.check(got == fresh, "a run does not use the settings in force", **what)
        ctx.check(stats == wanted, "the statistics are not those of the settings in force", stats=stats, wanted=wanted, **what)
    if force['limit'] is not None and kind != 'optimum':
        ctx.check(len(got) <= force['limit'], "more solutions than the limit in force", **what)
    ctx.reach(stats.interrupt or 'complete')
    if by_call:
        ctx.reach('call')
    if kind.startswith('opt'):
        ctx.reach('optimize')
    if force['var_selection_policy'] is not S.VarSelectionPolicy.GROUPS:
        ctx.reach('policy')
        if len(got) > 1 and kind == 'run':
            other, _ = collect(ctx, clock, S.Solver(**dict(force, var_selection_policy=S.VarSelectionPolicy.GROUPS)), model, kind, {}, stop)
            if other != got:
                ctx.reach('order')


def initial(ctx, configured):
    S = loader.load('satisfy.solver')
    force = dict(DEFAULTS, var_selection_policy=S.VarSelectionPolicy.GROUPS)
    if not configured:
        return S.Solver(), force
    force.update(limit=4, timeout=5, compile_constraints=False, var_selection_policy=S.VarSelectionPolicy.REVERSED)
    return S.Solver(**force), force


def history(ctx, problem, steps, configured):
    clock = Clock()
    p, model = make(ctx, problem, clock)
    solver, force = initial(ctx, ctx.choice('configured', configured))
    for k, step in enumerate(steps):
        settings = Settings(ctx, str(k))
        if step in SETS:
            apply(ctx, solver, force, settings.make, step)
        else:
            run(ctx, clock, settings, solver, force, model, step)
        read_back(ctx, solver, force)


def during(ctx, problem, before, change):
    """Settings changed while a run is in progress are for the next ones."""
    clock = Clock()
    p, model = make(ctx, problem, clock)
    solver, force = initial(ctx, False)
    apply(ctx, solver, force, Settings(ctx, 'b').make, before)
    old = dict(force)
    clock.now = 0
    ctx.clock = lambda: clock.now
    it = solver.solve(model)
    got = []
    for _ in range(ctx.choice('taken', [1, 2])):
        s = next(it, None)
        if s is None:
            ctx.clock = None
            return
        got.append(dict(s))
    apply(ctx, solver, force, Settings(ctx, 'd').make, change)
    got += [dict(s) for s in it]
    stats = solver.get_stats()
    ctx.clock = None
    ctx.reach('during')
    check_run(ctx, clock, old, model, 'run', None, got, stats, False)
    read_back(ctx, solver, force)
    run(ctx, clock, Settings(ctx, 'a'), solver, force, model, 'run')


def values(ctx):
    """Settings given to the constructor and as attribute mean the same; symbolic numbers."""
    S = loader.load('satisfy.solver')
    U = loader.load('satisfy.utils')
    number = ctx.int('number', 0, 10 ** 9)
    for attribute in ('limit', 'timeout'):
        solver = S.Solver(**{attribute: number})
        ctx.check(EQ(getattr(solver, attribute), number), "a setting reads otherwise than it was given", attribute=attribute)
        solver = S.Solver()
        ctx.check(getattr(solver, attribute) is None, "a setting is not off by default", attribute=attribute)
        setattr(solver, attribute, number + 1)
        ctx.check(EQ(getattr(solver, attribute), number + 1), "a setting reads otherwise than it was given", attribute=attribute)
        setattr(solver, attribute, U.INFINITY)
        ctx.check(getattr(solver, attribute) is None, "an infinite setting is not off", attribute=attribute)
        solver = S.Solver(**{attribute: U.INFINITY})
        ctx.check(getattr(solver, attribute) is None, "an infinite setting is not off", attribute=attribute)
    ctx.check(U.Infinity() is U.INFINITY, "there are two infinities")
    for policy in S.VarSelectionPolicy:
        ctx.check(S.Solver(var_selection_policy=policy).var_selection_policy is policy, "another policy is used")
    for bad in ('ORDERED', 0, None, object()):
        try:
            S.Solver(var_selection_policy=bad)
        except TypeError:
            ctx.reach('refused')
        else:
            ctx.check(False, "something that is not a policy is accepted", value=bad)
