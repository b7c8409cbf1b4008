"""M04: models do not influence each other."""
from symex import loader
from symex.api import AND, EQ, NOT
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "two (thorough: three) models with the same or other variable names, each with its own symbolic parameter value, coefficients and "
    "domains, declared one after the other or alternately, sharing domain sequences, expressions, constraint objects, "
    "objectives, or nothing",
    "runs on them in every interleaving of the first 2 (thorough: 4) steps, then alternately (solve, solve interpreted, optimize), on one solver or one each, "
    "each compared with all assignments (completely) of its own model; refused declarations and a false constraint on one of them",
]
OUTSIDE = ["more models", "changing a shared sequence after it was given as a domain"]
WITNESSES = ['alternate', 'shared', 'optimize', 'false', 'refused', 'parameter', 'same text']

SHARING = ['nothing', 'domain', 'expression', 'constraint', 'alldifferent', 'objective', 'everything']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for sharing in SHARING:
        for kinds in (['solve', 'solve'], ['solve', 'maximize'], ['interpreted', 'solve'], ['maximize', 'minimize'],
                      ['maximize', 'maximize']):
            out.append(Job('interleaved', sharing=sharing, kinds=kinds, steps=5, free=4 if thorough else 2, weight=4))
        if thorough:
            out.append(Job('interleaved', sharing=sharing, kinds=['solve', 'interpreted', 'minimize'], steps=6, free=3, weight=9))
    for comp in (True, False):
        out.append(Job('same_text', comp=comp, weight=3))
    out.append(Job('decided'))
    out.append(Job('refused'))
    return out


class One(object):
    """A model over x, y (and z) with x + c * y <= p and x, y different, and its twin on integers."""

    def __init__(self, ctx, tag, names, shared, with_z):
        M = loader.load('satisfy.model')
        self.ctx = ctx
        self.tag = tag
        self.model = M.Model()
        self.names = names
        self.shared = shared
        self.with_z = with_z
        self.c = {'0': 1, '1': -2, '2': 2}[tag]
        self.bound = ctx.int('p' + tag, -1, 2)
        self.extra_value = {'0': 2, '1': 4, '2': 3}[tag]
        self.domains = []
        self.steps = [self.declare, self.limit, self.differ]

    def declare(self):
        ctx, shared = self.ctx, self.shared
        self.domains = [shared['domain'] if 'domain' in shared else [0, 1, self.extra_value],
                        shared['domain'] if 'domain' in shared else [1, 0]]
        self.variables = [self.model.add_int_variable(d, name=n) for d, n in zip(self.domains, self.names)]
        self.parameter = self.model.add_parameter(self.bound, name='p')
        if self.with_z:
            self.domains.append([3, -1])
            self.variables.append(self.model.add_int_variable(self.domains[2], name='z'))

    def limit(self):
        x, y = self.variables[:2]
        if 'constraint' in self.shared:
            self.c, self.bound = self.shared['coefficients']
            self.model.add_constraint(self.shared['constraint'])
        elif 'expression' in self.shared:
            self.c = self.shared['coefficients'][0]
            self.model.add_constraint(self.shared['expression'] <= self.parameter)
        else:
            self.model.add_constraint(x + self.c * y <= self.parameter)

    def differ(self):
        if 'alldifferent' in self.shared:
            self.model.add_constraint(self.shared['alldifferent'])
        else:
            self.model.add_all_different_constraint(self.variables[:2])

    def objective(self, kind):
        O = loader.load('satisfy.objective')
        if 'objective' in self.shared:
            if kind not in self.shared['objective']:
                self.shared['objective'][kind] = self.make_objective(O, kind)
            return self.shared['objective'][kind]
        return self.make_objective(O, kind)

    def make_objective(self, O, kind):
        x, y = self.variables[:2]
        return (O.Maximize if kind == 'maximize' else O.Minimize)(2 * x - 3 * y)

    def assignments(self):
        import itertools
        return itertools.product(*self.domains)

    def holds(self, a):
        return AND(a[0] + self.c * a[1] <= self.bound, NOT(EQ(a[0], a[1])))

    def score(self, a):
        return 2 * a[0] - 3 * a[1]

    def start(self, kind, solver):
        if kind in ('maximize', 'minimize'):
            return (s.solution for s in solver.optimize(self.model, self.objective(kind)))
        return solver.solve(self.model)

    def judge(self, kind, got, **what):
        ctx = self.ctx
        names = list(self.names) + (['z'] if self.with_z else [])
        ts = []
        for s in got:
            ctx.check(sorted(s) == sorted(names), "a solution of one model assigns other variables", got=s, **what)
            t = tuple(s[n] for n in names)
            ts.append(t)
            ctx.check(self.holds(t), "a solution breaks its model when another model is in use", got=s, **what)
            for v, d in zip(t, self.domains):
                ctx.check(not AND(*[NOT(EQ(v, w)) for w in d]), "a value is not in its model's domain", got=s, **what)
        same = lambda a, b: AND(*[EQ(v, w) for v, w in zip(a, b)])
        if kind in ('maximize', 'minimize'):
            sign = 1 if kind == 'maximize' else -1
            for a, b in zip(ts, ts[1:]):
                ctx.check(sign * self.score(b) > sign * self.score(a), "no strict improvement", **what)
            for a in self.assignments():
                ctx.check(NOT(AND(self.holds(a), *[sign * self.score(a) > sign * self.score(t) for t in ts[-1:]])),
                          "the optimum of a model was missed when another model is in use", **what)
            ctx.reach('optimize')
            return
        for i in range(len(ts)):
            for j in range(i):
                ctx.check(NOT(same(ts[i], ts[j])), "a solution was delivered twice", **what)
        for a in self.assignments():
            ctx.check(NOT(AND(self.holds(a), *[NOT(same(a, t)) for t in ts])),
                      "a solution was left out when another model is in use", missing=a, **what)


def build(ctx, sharing, count):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    shared = {}
    every = sharing == 'everything'
    if every or sharing == 'domain':
        shared['domain'] = [0, 2, 1]
    if sharing in ('expression', 'constraint') or every:
        c = ctx.int('shared c', 0, 2)
        total = E.Variable('x') + c * E.Variable('y')
        if sharing == 'expression':
            shared['expression'] = total
            shared['coefficients'] = [c]
        else:
            b = ctx.int('shared b', -1, 2)
            shared['constraint'] = C.ExpressionConstraint(total <= b)
            shared['coefficients'] = [c, b]
    if every or sharing == 'alldifferent':
        shared['alldifferent'] = C.AllDifferentConstraint(['x', 'y'])
    if every or sharing == 'objective':
        shared['objective'] = {}
    if shared:
        ctx.reach('shared')
    names = [['x', 'y']] * count
    if not shared and ctx.choice('other names', [False, True]):
        names = [['x', 'y'], ['y', 'x'], ['a', 'y']][:count]
    models = [One(ctx, str(i), n, shared, with_z=i == 1) for i, n in enumerate(names)]
    if ctx.choice('alternate', [True, False]):
        for step in zip(*[m.steps for m in models]):
            for declare in step:
                declare()
        ctx.reach('alternate')
    else:
        for m in models:
            for declare in m.steps:
                declare()
    return models


def interleaved(ctx, sharing, kinds, steps, free):
    models = build(ctx, sharing, len(kinds))
    own = P.solver()
    one_solver = ctx.choice('one solver', [True, False])
    runs, got, done = [], [], []
    for m, kind in zip(models, kinds):
        solver = own if one_solver and kind != 'interpreted' else P.solver(compile_constraints=kind != 'interpreted')
        runs.append(m.start(kind, solver))
        got.append([])
        done.append(False)

    def step(i):
        s = next(runs[i], None)
        if s is None:
            done[i] = True
        else:
            got[i].append(dict(s))

    for k in range(steps):
        left = [i for i in range(len(runs)) if not done[i]]
        if not left:
            break
        step(ctx.choice('who{}'.format(k), left) if k < free else left[k % len(left)])
    for i in range(len(runs)):
        while not done[i]:
            step(i)
    for m, kind, g in zip(models, kinds, got):
        m.judge(kind, g, sharing=sharing, kinds=kinds)
    # and once more, each for itself
    for m in models:
        m.judge('solve', [dict(s) for s in P.solver().solve(m.model)], sharing=sharing, kinds=kinds)


def same_text(ctx, comp):
    """Constraints that look the same in several models but mean something else."""
    M = loader.load('satisfy.model')
    E = loader.load('satisfy.expression')
    ctx.reach('same text')
    found, values = [], []
    coefficient = ctx.choice('kind', ['parameter', 'constant', 'domain'])
    solver = P.solver(compile_constraints=comp)
    for i in range(3):
        model = M.Model()
        v = ctx.int('v{}'.format(i), 0, 2)
        values.append(v)
        x = model.add_int_variable([0, 1, 2], name='x')
        y = model.add_int_variable([0, v] if coefficient == 'domain' and v != 0 else [0, 5], name='y')
        if coefficient == 'parameter':
            p = model.add_parameter(v, name='p')
            ctx.reach('parameter')
        else:
            p = v if coefficient == 'constant' else 1
        model.add_constraint(x + 0 * y == p)
        model.add_constraint((x > p) | (y == E.Const(0)) | (y != 0))
        found.append([(s['x'], s['y']) for s in solver.solve(model)])
    for i, v in enumerate(values):
        want = v if coefficient != 'domain' else 1
        ys = [0, v] if coefficient == 'domain' and v != 0 else [0, 5]
        ctx.check(len(found[i]) == 2, "wrong number of solutions", found=found[i], model=i)
        for x, y in found[i]:
            ctx.check(EQ(x, want), "a model's constraint was taken from another model", found=found[i], model=i)
        for y in ys:
            ctx.check(any(EQ(y, b) for _, b in found[i]), "a model's domain was taken from another model", found=found[i], model=i)


def decided(ctx):
    """A false constraint (or a mark) decides its own model only."""
    M = loader.load('satisfy.model')
    before = ctx.choice('before', [True, False])
    models = [M.Model() for _ in range(3)]
    which = ctx.choice('which', [0, 1, 2])
    how = ctx.choice('how', ['false', 'mark', 'expression'])

    def spoil():
        m = models[which]
        if how == 'false':
            m.add_constraint(False)
        elif how == 'mark':
            m.set_solvable(False)
        else:
            p = m.add_parameter(ctx.int('p', -3, -1), name='q')
            m.add_constraint(p > 0)
    if before:
        spoil()
    for m in models:
        m.add_int_variable([0, 1], name='x')
    if not before:
        spoil()
    solver = P.solver()
    for i, m in enumerate(models):
        got = [s['x'] for s in solver.solve(m)]
        ctx.check(got == ([] if i == which else [0, 1]), "a model's verdict depends on another model", model=i, spoilt=which, how=how)
        ctx.check(m.solvable() == (i != which), "a model's verdict depends on another model", model=i, spoilt=which, how=how)
    later = M.Model()
    later.add_bool_variable(name='x')
    ctx.check(len(list(solver.solve(later))) == 2, "a model's verdict depends on an earlier model", how=how)
    ctx.reach('false')


def refused(ctx):
    """Names, automatic names and refusals concern one model only."""
    M = loader.load('satisfy.model')
    one, two = M.Model(), M.Model()
    order = ctx.choice('order', [(one, two), (two, one)])
    kinds = [ctx.choice('kind{}'.format(i), ['x', None, 'p', 'bad', 'twice']) for i in range(3)]
    expected = {id(one): [], id(two): []}
    for i, kind in enumerate(kinds):
        for m in order:
            own = expected[id(m)]
            try:
                if kind == 'p':
                    entry = m.add_parameter(ctx.int('value', 0, 3), name='p').name
                elif kind == 'bad':
                    m.add_int_variable([1, 1], name='b')
                    entry = 'b'
                elif kind == 'twice':
                    entry = m.add_int_variable([1, 2], name='t').name
                else:
                    entry = m.add_int_variable([0, i], name=kind) if i else m.add_bool_variable(name=kind)
                    entry = entry.name
            except ValueError:
                ctx.check(kind == 'bad' or {'x': 'x', 'p': 'p', 'twice': 't'}.get(kind) in own,
                          "a declaration was refused because of another model", kinds=kinds)
                ctx.reach('refused')
            else:
                ctx.check(kind != 'bad' and entry not in own, "a repeated declaration was accepted", kinds=kinds)
                own.append(entry)
            for n in (one, two):
                ctx.check(sorted(n.variables()) == sorted(expected[id(n)]), "a declaration reached another model", kinds=kinds)
