"""M02: constant constraints decide a model correctly."""
from symex import loader
from symex.api import AND, NOT, OR, TRUTH, EQ
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "histories of 2-4 steps (constant constraints of every kind with symbolic value, constraints over variables, new "
    "variables, parameters changed, marking by hand), solved after each step or only after the last, under every (non-random) policy, compiled or "
    "not, with and without additional constraints, and optimized",
]
OUTSIDE = ["marking a model solvable again after marking it not solvable by hand"]
WITNESSES = ['false', 'true', 'marked', 'still solvable', 'never again']

CONSTANT = ['bool', 'const', 'expression', 'parameter', 'comparison', 'logic', 'user', 'all different']
STEPS = CONSTANT + ['constraint', 'variable', 'mark', 'mark solvable', 'change parameters', 'other constraint']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for a in STEPS:
        for b in STEPS:
            for start in (0, 1, 2):
                out.append(Job('history', steps=[a, b], start=start, weight=3))
            if a in CONSTANT or thorough:
                for c in STEPS if thorough else ['constraint', 'variable', 'mark solvable', 'const', 'change parameters']:
                    out.append(Job('history', steps=[a, b, c], start=ord(a[0]) % 2, weight=5))
    for a in CONSTANT + ['mark']:
        out.append(Job('solvers', step=a, weight=4))
    return out


class Scene(object):
    def __init__(self, ctx, start):
        M = loader.load('satisfy.model')
        self.ctx = ctx
        self.model = M.Model()
        self.domains = {}
        self.bounds = []           # (variable, bound): constraints v <= bound
        self.dead = False          # some constant constraint is false
        self.marked = False
        self.parameters = []
        for i in range(start):
            self.variable()

    def variable(self):
        name = 'x{}'.format(len(self.domains))
        self.model.add_int_variable([1, 0], name=name)
        self.domains[name] = [1, 0]

    def constant(self, kind, tag):
        """Adds a constant constraint, returns whether it holds."""
        C = loader.load('satisfy.constraint')
        E = loader.load('satisfy.expression')
        ctx, model = self.ctx, self.model
        if kind == 'bool':
            holds = ctx.choice('b' + tag, [True, False])
            model.add_constraint(holds)
            return holds
        a, b = ctx.int('a' + tag, -2, 2), ctx.int('b' + tag, -2, 2)
        if kind == 'const':
            model.add_constraint(C.ConstConstraint(a))
            return TRUTH(a)
        if kind == 'expression':
            model.add_constraint(E.Const(a))
            return TRUTH(a)
        if kind == 'user':
            class User(C.Constraint):
                def evaluate(self, substitution):
                    return a > b
            model.add_constraint(User([]))
            return a > b
        if kind == 'all different':
            model.add_all_different_constraint([])
            return True
        p, q = model.add_parameter(a), model.add_parameter(b)
        self.parameters += [p, q]
        if kind == 'parameter':
            model.add_constraint(p)
            return TRUTH(a)
        if kind == 'comparison':
            model.add_constraint(C.ExpressionConstraint(p <= q) if ctx.choice('object' + tag, [True, False]) else p <= q)
            return a <= b
        model.add_constraint((p > 0) & (q != 1) | (p == q))
        return OR(AND(a > 0, NOT(EQ(b, 1))), EQ(a, b))

    def step(self, kind, tag):
        ctx, model = self.ctx, self.model
        if kind in CONSTANT:
            holds = self.constant(kind, tag)
            if holds:
                ctx.reach('true')
            else:
                self.dead = True
                ctx.reach('false')
        elif kind == 'variable':
            self.variable()
        elif kind in ('constraint', 'other constraint'):
            if not self.domains:
                return
            name = sorted(self.domains)[0 if kind == 'constraint' else -1]
            bound = ctx.int('bound' + tag, 0, 1)
            model.add_constraint(model.get_variable(name) <= bound)
            self.bounds.append((name, bound))
        elif kind == 'mark':
            model.set_solvable(False)
            self.marked = True
            ctx.reach('marked')
        elif kind == 'mark solvable':
            if not self.marked:
                model.set_solvable(True)
        elif kind == 'change parameters':
            # a constraint without variables is decided when it is added
            for k, p in enumerate(self.parameters):
                p.value = ctx.choice('new', [0, 1])

    def check(self, policy='GROUPS', comp=True):
        ctx, model = self.ctx, self.model
        none = self.dead or self.marked
        ctx.check(bool(model.solvable()) == (not none), "solvable() is wrong", dead=self.dead, marked=self.marked)
        solver = P.solver(policy, comp)
        got = list(solver.solve(model))
        if none:
            ctx.check(got == [], "a model with a constraint that is never satisfied has solutions", got=got)
            O = loader.load('satisfy.objective')
            E = loader.load('satisfy.expression')
            best = solver.optimal_solution(model, O.Maximize(E.Expression.coerce(1)))
            ctx.check(best.solution is None and best.is_optimal is False, "such a model has an optimum", best=best)
            ctx.reach('never again')
            return
        points = [()]
        names = sorted(self.domains)
        for n in names:
            points = [t + (v,) for t in points for v in self.domains[n]]
        found = [tuple(s[n] for n in names) for s in got]
        ctx.check(len(set(found)) == len(found), "a solution was delivered twice", got=got)
        for t in points:
            value = dict(zip(names, t))
            holds = AND(*[value[n] <= b for n, b in self.bounds])
            if t in found:
                ctx.check(holds, "a solution breaks a constraint", solution=value)
            else:
                ctx.check(NOT(holds), "a constraint that always holds removed a solution", missing=value, got=got)
        ctx.reach('still solvable')


def history(ctx, steps, start):
    scene = Scene(ctx, start)
    if ctx.choice('before', [True, False]):
        scene.check()
    # looking at a model is not always without effect
    between = ctx.choice('between', [True, False])
    for k, kind in enumerate(steps):
        scene.step(kind, str(k))
        if between or k == len(steps) - 1:
            scene.check('ORDERED' if k % 2 else 'GROUPS', k % 2 == 0)


def solvers(ctx, step):
    scene = Scene(ctx, ctx.choice('start', [0, 1, 2]))
    scene.step(step, '')
    for policy in P.POLICIES:
        for comp in (True, False):
            ctx.control_random = policy == 'RANDOM'
            scene.check(policy, comp)
