"""S15: objectives, user-defined ones included, are asked for their constraint once and told every solution before it is delivered."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT, OR
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "problems of 0-3 variables with up to 12 assignments, every relation, symbolic domain values and coefficients in [-3, 3]",
    "0-3 objectives: user-defined ones with an arbitrary (symbolic) constraint for each number of solutions so far, over all, some or one of "
    "the variables, tightening or not; ones that refuse what was found; ones that approach a symbolic target by a parameter; Maximize and Minimize "
    "among them; given as a list, a tuple, an iterator or alone",
    "every policy, compiled or not, limits 0-3, additional constraints; an objective that raises an error at any point; two runs at the same time",
]
OUTSIDE = ["objectives that change the model"]
WITNESSES = ['cut', 'complete', 'target', 'maximize', 'two', 'raised', 'limit', 'refused', 'no objective', 'overlap', 'optimum']

# name -> (domains, constraints, additional)
PROBLEMS = {
    'table': ([[0, 1, 2], [1, 0]], [['T', [0, 1]]], []),
    'free': ([[0, 1], [2, 0]], [], []),
    'one': ([[0, 's', 2]], [], []),
    'three': ([[0, 1], [1, 2], [2, 0]], [['T', [0, 2]], ['AD', [0, 1, 2]]], []),
    'linear': ([['s', 's'], ['s', 0]], [['E', [0, 1], 'sum<=']], []),
    'additional': ([[0, 1, 2], [1, 0]], [['AD', [0, 1]], ['T', [1, 0]]], [1]),
    'infeasible': ([[0, 1], [0]], [['K', False]], []),
    'none': ([], [], []),
}
OBJECTIVES = {
    'cut': ['cut'], 'loose': ['loose'], 'one': ['one'], 'tabu': ['tabu'], 'target': ['target'], 'cut+max': ['cut', 'max'], 'min+one': ['min', 'one'],
    'target+tabu': ['target', 'tabu'], 'tabu+cut': ['tabu', 'cut'], 'nothing': [], 'tabu+max+one': ['tabu', 'max', 'one'], 'last': ['last'],
    'two tabu': ['tabu', 'tabu'], 'twins': ['twin', 'twin'], 'two cuts': ['cut', 'cut'], 'two last': ['last', 'last'], 'true': ['true'], 'true+min': ['true', 'min'],
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    policies = [p for p in P.POLICIES if p != 'RANDOM']
    n = 0
    for problem in PROBLEMS:
        for objectives in OBJECTIVES:
            if problem == 'none' and objectives not in ('tabu', 'nothing', 'true'):
                continue
            if objectives == 'two cuts' and problem not in ('free', 'one', 'infeasible') and not thorough:
                continue
            for comp in (True, False):
                n += 1
                for policy in policies if thorough else [policies[n % len(policies)]]:
                    out.append(Job('protocol', problem=problem, objectives=objectives, policy=policy, comp=comp,
                                   weight=3 + 3 * (problem in ('table', 'three'))))
    for objectives in ('tabu', 'cut', 'target+tabu', 'cut+max'):
        for how in ('solver', 'call'):
            out.append(Job('limited', objectives=objectives, how=how))
    for objectives in ('tabu', 'one', 'two tabu'):
        for where in ('make', 'add'):
            out.append(Job('raising', objectives=objectives, where=where))
        out.append(Job('overlap', objectives=objectives, steps=6 if thorough else 5, weight=9))
    for k in range(4):
        out.append(Job('refused', position=k))
    return out


class Objectives(object):
    """User-defined objectives that record what they are asked."""

    def __init__(self, ctx, problem, kinds, tag='', fail=None):
        C = loader.load('satisfy.constraint')
        E = loader.load('satisfy.expression')
        O = loader.load('satisfy.objective')
        self.ctx = ctx
        self.p = problem
        self.kinds = kinds
        self.log = []                  # ('make', k, model), ('add', k, constraint, solution)
        self.constraints = {}
        self.fail = fail
        self.cuts = {}
        self.target = ctx.int(tag + 'target', -3, 3) if 'target' in kinds else None
        self.tag = tag
        outer = self

        class Cut(C.Constraint):
            """An arbitrary constraint for each number of solutions."""

            def __init__(self, k, scope):
                super().__init__([problem.names[i] for i in scope])
                self.k, self.scope, self.count = k, scope, 0

            def evaluate(self, substitution):
                values = tuple(substitution[problem.names[i]] for i in self.scope)
                return outer.allowed(self.k, self.count, outer.position(self.scope, values))

        class Tabu(C.Constraint):
            """Refuses the solutions found."""

            def __init__(self):
                super().__init__(problem.names)
                self.found = []

            def evaluate(self, substitution):
                return not any(all(substitution[n] is v or EQ(substitution[n], v) for n, v in f.items()) for f in self.found)

        class Target(C.ExpressionConstraint):
            """Approaches a value."""

            def __init__(self, expression):
                self.expression = expression
                self.bound = E.Parameter('bound', 1000)
                super().__init__(abs(expression - outer.target) < self.bound)

        class User(O.Objective):
            def __init__(self, kind):
                self.kind = kind

            @property
            def k(self):
                return [o is self for o in outer.objectives].index(True)

            def make_constraint(self, model):
                outer.log.append(('make', self.k, model))
                outer.trouble('make')
                n = problem.n
                if self.kind in ('cut', 'loose'):
                    c = Cut(self.k, list(range(n)))
                elif self.kind == 'one':
                    c = Cut(self.k, [n - 1])
                elif self.kind == 'last':
                    c = Cut(self.k, [0])
                elif self.kind in ('tabu', 'twin'):
                    c = Tabu()
                elif self.kind == 'true':
                    c = C.ConstConstraint(True)
                else:
                    c = Target(outer.expression([model.get_variable(v) for v in problem.names]))
                outer.constraints[self.k] = c
                return c

            def add_solution(self, constraint, substitution):
                outer.log.append(('add', self.k, constraint, dict(substitution)))
                outer.trouble('add')
                if self.kind in ('cut', 'loose', 'one', 'last'):
                    constraint.count += 1
                elif self.kind in ('tabu', 'twin'):
                    constraint.found.append(dict(substitution))
                elif self.kind == 'target':
                    constraint.bound.value = abs(constraint.expression.evaluate(substitution) - outer.target)
                    if constraint.is_compiled():
                        constraint.compile()

        class Twin(User):
            """Equal to others."""

            def __eq__(self, other):
                return isinstance(other, Twin)

            def __hash__(self):
                return 1

        def recorded(cls):
            class Recorded(cls):
                def make_constraint(self, model):
                    outer.log.append(('make', self.k, model))
                    outer.trouble('make')
                    outer.constraints[self.k] = super().make_constraint(model)
                    return outer.constraints[self.k]

                def add_solution(self, constraint, substitution):
                    outer.log.append(('add', self.k, constraint, dict(substitution)))
                    outer.trouble('add')
                    super().add_solution(constraint, substitution)
            return Recorded

        self.objectives = []
        for k, kind in enumerate(kinds):
            if kind in ('max', 'min'):
                o = recorded(O.Maximize if kind == 'max' else O.Minimize)(
                    E.Expression.coerce(self.expression([problem.variables[i] for i in range(problem.n)])))
                o.k = k
            else:
                o = (Twin if kind == 'twin' else User)(kind)
            self.objectives.append(o)

    def trouble(self, where):
        if self.fail is not None and self.fail[0] == where:
            self.fail[1] -= 1
            if self.fail[1] < 0:
                raise ERRORS[self.fail[2]](where)

    def position(self, scope, values):
        """The assignment among those of the scope, by positions in the domains."""
        out = []
        for i, v in zip(scope, values):
            for j, w in enumerate(self.p.domains[i]):
                if v is w or EQ(v, w):
                    out.append(j)
                    break
            else:
                self.ctx.check(False, "a value is not in its variable's domain", value=v)
        return tuple(out)

    def allowed(self, k, count, position):
        if (k, count, position) not in self.cuts:
            b = self.ctx.bool('{}c{}_{}{}'.format(self.tag, k, count, list(position)))
            if count and self.kinds[k] != 'loose':
                b = AND(b, self.allowed(k, count - 1, position))
            self.cuts[k, count, position] = b
        return self.cuts[k, count, position]

    def expression(self, values):
        out = values[0] * 2
        for v in values[1:]:
            out = out - v
        return out

    def holds(self, k, position, assignment, found):
        """The constraint of objective k once the solutions in found are known."""
        kind = self.kinds[k]
        scopes = {'cut': list(range(self.p.n)), 'loose': list(range(self.p.n)), 'one': [self.p.n - 1], 'last': [0]}
        if kind in scopes:
            return self.allowed(k, len(found), tuple(position[i] for i in scopes[kind]))
        if kind == 'true':
            return True
        if kind in ('tabu', 'twin'):
            return position not in [f[0] for f in found]
        if not found:
            return True
        new, old = self.expression(assignment), self.expression(found[-1][1])
        if kind == 'target':
            return abs(new - self.target) < abs(old - self.target)
        return new > old if kind == 'max' else new < old

    def check_log(self, model, delivered, what="delivered"):
        """What the objectives were asked, from the start of the run."""
        ctx = self.ctx
        n = len(self.objectives)
        ctx.check([e[:2] for e in self.log] == [('make', k) for k in range(n)] + [('add', k) for _ in delivered for k in range(n)],
                  "the objectives are not asked as documented", log=[e[:2] for e in self.log], delivered=delivered)
        for e in self.log[:n]:
            ctx.check(e[2] is model, "an objective is given another model")
        for e, (d, k) in zip(self.log[n:], itertools.product(delivered, range(n))):
            ctx.check(e[2] is self.constraints[k], "an objective is given the constraint of another", k=k)
            ctx.check(set(e[3]) == set(d) and all(e[3][v] is d[v] or EQ(e[3][v], d[v]) for v in d),
                      "an objective is told another solution than the one delivered", told=e[3], delivered=d)

    def check_sound(self, solution, found):
        self.p.check_sound(solution)
        t = self.p.tuple_of(solution)
        position = self.position(range(self.p.n), t)
        for k in range(len(self.kinds)):
            self.ctx.check(self.holds(k, position, t, found), "a solution breaks the constraint of an objective as it is then",
                           solution=solution, kind=self.kinds[k], before=[f[1] for f in found])
        self.ctx.check(position not in [f[0] for f in found], "a solution was delivered twice", solution=solution)
        found.append((position, t))

    def check_complete(self, found):
        if 'loose' in self.kinds:
            return
        delivered = [f[0] for f in found]
        for position in itertools.product(*[range(len(d)) for d in self.p.domains]):
            a = tuple(d[j] for d, j in zip(self.p.domains, position))
            if position not in delivered:
                self.ctx.check(NOT(AND(self.p.satisfied(a), *[self.holds(k, position, a, found) for k in range(len(self.kinds))])),
                               "an assignment that no constraint refuses was not delivered", missing=a, delivered=[f[1] for f in found])


class Trouble(Exception):
    pass


ERRORS = [Trouble, KeyError, ZeroDivisionError, ValueError, AttributeError, TypeError, RuntimeError, NotImplementedError]


def make(ctx, problem, objectives, fail=None, tag=''):
    domains, constraints, extra = PROBLEMS[problem]
    p = P.Problem(ctx, domains, constraints, coefficient_range=(-3, 3), prefix=tag)
    model = p.model(extra=extra)
    o = Objectives(ctx, p, OBJECTIVES[objectives], fail=fail, tag=tag)
    args = {'additional_constraints': p.additional(extra)} if extra else {}
    return p, model, o, args


def given(ctx, objectives):
    if len(objectives) == 1:
        if ctx.choice('alone', [True, False]):
            return objectives[0]
    how = len(objectives) % 3
    return list(objectives) if how == 1 else tuple(objectives) if how == 0 else iter(objectives)


def protocol(ctx, problem, objectives, policy, comp):
    p, model, o, args = make(ctx, problem, objectives)
    found, delivered = [], []
    for s in P.solver(policy, comp).optimize(model, given(ctx, o.objectives), **args):
        ctx.check(s.is_optimal is None, "optimality is claimed during the run")
        delivered.append(dict(s.solution))
        o.check_log(model, delivered)
        o.check_sound(s.solution, found)
        s.solution.clear()
    o.check_log(model, delivered)
    o.check_complete(found)
    if len(found) > 1:
        ctx.reach('complete')
        for kind in o.kinds:
            if kind in ('cut', 'target', 'max'):
                ctx.reach({'max': 'maximize'}.get(kind, kind))
        if len(o.kinds) > 1:
            ctx.reach('two')
        if not o.kinds:
            ctx.reach('no objective')


def limited(ctx, objectives, how):
    p, model, o, args = make(ctx, 'table', objectives)
    limit = ctx.choice('limit', [0, 1, 2, 3])
    if how == 'call':
        solver = P.solver()
        args['limit'] = limit
    else:
        solver = P.solver(limit=limit)
    best = solver.optimal_solution(model, o.objectives, **args)
    adds = [e for e in o.log if e[0] == 'add']
    n = len(o.kinds)
    delivered = [e[3] for e in adds[::n]]
    o.check_log(model, delivered)
    ctx.check(len(delivered) <= limit, "more solutions than the limit were handed to an objective")
    found = []
    for s in delivered:
        o.check_sound(s, found)
    last = delivered[-1] if delivered else None
    ctx.check((best.solution is None) == (last is None), "the last solution is not the optimum", best=best)
    if last is not None:
        ctx.check(all(best.solution[v] is last[v] or EQ(best.solution[v], last[v]) for v in last), "the last solution is not the optimum", best=best)
    if len(delivered) < limit:
        o.check_complete(found)
        ctx.check(best.is_optimal == (last is not None), "wrong optimality flag", best=best)
        ctx.reach('optimum')
    else:
        ctx.check(not best.is_optimal, "optimality is claimed for an interrupted run", best=best)
        ctx.reach('limit')


def raising(ctx, objectives, where):
    """An error of an objective ends the run; its solution is not delivered."""
    after = ctx.choice('after', [0, 1, 2, 3])
    error = ctx.index('error', len(ERRORS))
    p, model, o, args = make(ctx, 'table', objectives, fail=[where, after, error])
    found = []
    try:
        for s in P.solver().optimize(model, o.objectives, **args):
            o.check_sound(s.solution, found)
    except ERRORS[error] as e:
        ctx.check(type(e) is ERRORS[error] and e.args == (where,) and o.fail[1] == -1, "an error of an objective is not passed on at once", error=e, left=o.fail[1])
        n = len(o.kinds)
        ctx.check(len(found) == (0 if where == 'make' else after // n), "wrong number of solutions before an error", found=len(found))
        ctx.reach('raised')
    else:
        ctx.check(o.fail[1] >= 0, "an error of an objective got lost")
        o.check_complete(found)


def overlap(ctx, objectives, steps):
    """Two runs with objectives of their own, one solver or two."""
    domains, constraints, extra = PROBLEMS['free']
    p = P.Problem(ctx, domains, constraints, coefficient_range=(-3, 3))
    model = p.model()
    both = []
    solver = P.solver()
    for tag in 'ab':
        o = Objectives(ctx, p, OBJECTIVES[objectives], tag=tag)
        s = solver if ctx.choice('same', [True, False]) else P.solver('REVERSED', False)
        both.append((o, s.optimize(model, o.objectives), [], []))
    done = set()
    for k in range(steps):
        i = ctx.choice('who{}'.format(k), [0, 1])
        if i in done:
            break
        o, run, found, delivered = both[i]
        try:
            s = next(run)
        except StopIteration:
            done.add(i)
            o.check_complete(found)
            if len(found) > 1:
                ctx.reach('overlap')
        else:
            delivered.append(dict(s.solution))
            o.check_sound(s.solution, found)
        o.check_log(model, delivered)
    ctx.check(True, "explored")


def refused(ctx, position):
    """Something that is no objective."""
    E = loader.load('satisfy.expression')
    p, model, o, args = make(ctx, 'free', 'two tabu')
    bad = [3, 'max', model.get_variable('x') + ctx.int('k', -1, 1), None][position]
    objectives = list(o.objectives)
    objectives.insert(ctx.choice('at', [0, 1, 2]), bad)
    try:
        for _ in P.solver().optimize(model, objectives):
            ctx.check(False, "a solution is delivered for something that is no objective", bad=bad)
        ok = True
    except (TypeError, ValueError):
        ok = False
    ctx.check(not ok, "something that is no objective is accepted", bad=bad)
    ctx.check(not [e for e in o.log if e[0] == 'add'], "a solution was given to an objective")
    again = Objectives(ctx, p, OBJECTIVES['two tabu'])
    found = []
    for s in P.solver().optimize(model, again.objectives):
        again.check_sound(s.solution, found)
    again.check_complete(found)
    ctx.reach('refused')
