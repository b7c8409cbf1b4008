"""Optimization problems shared by S07 and S08."""
from symex import loader
from symex.api import AND, NOT
from . import _search as P

# name -> (number of coefficients, objective over the variables)
OBJECTIVES = {
    'lin2': (2, lambda c, x, y, *r: c[0] * x + c[1] * y),
    'lin3': (3, lambda c, x, y, z: c[0] * x + c[1] * y + c[2] * z),
    'x': (0, lambda c, x, *r: x),
    'y': (0, lambda c, x, y, *r: y),
    '-y': (0, lambda c, x, y, *r: -y),
    'x*y': (0, lambda c, x, y, *r: x * y),
    'abs': (1, lambda c, x, y, *r: abs(x - y + c[0])),
    'mod': (1, lambda c, x, y, *r: (x + c[0] * y) % 3),
    'sum': (0, lambda c, *v: sum(v[1:], v[0])),
    'z': (0, lambda c, x, y, z: z),
    'zero': (0, lambda c, x, *r: x * 0 + 3),
    'cmp': (1, lambda c, x, y, *r: (x + y >= c[0])),
}

# (name, domains, constraints, additional, objectives)
PROBLEMS = [
    ('lin table', [[0, 1, 2], [1, 0]], [['T', [0, 1]]], [], ['lin2']),
    ('one variable', [['s', 's', 's', 's']], [], [], ['x']),
    ('one filtered', [['s', 's', 's']], [['T', [0]]], [], ['x']),
    ('last variable', [[0, 1], ['s', 's', 's']], [['T', [0]]], [], ['y']),
    ('first variable', [['s', 's', 's'], [0, 1]], [['T', [1]]], [], ['x']),
    ('negated', [[0, 1], ['s', 's']], [['T', [0]]], [], ['-y']),
    ('product', [['s', 's'], ['s', 's']], [], [], ['x*y']),
    ('difference', [['s', 's'], [0, 1]], [['E', [0, 1], 'x>y']], [], ['abs']),
    ('ad', [[0, 1, 2], [2, 0, 1], [1, 2]], [['AD', [0, 1, 2]]], [], ['lin3']),
    ('middle', [[0, 1], ['s', 's'], [1, 0]], [['T', [0, 2]]], [], ['y']),
    ('modulus', [[0, 1, 2], [2, 1]], [['T', [0]]], [], ['mod']),
    ('sum of three', [['s', 's'], [0, 's'], [1, 2]], [], [], ['sum']),
    ('two', [[0, 1], [1, 0]], [['T', [0, 1]]], [], ['lin2', 'lin2']),
    ('two variables', [['s', 's'], ['s', 's']], [], [], ['x', 'y']),
    ('two mixed', [[0, 1, 2], ['s', 's']], [['T', [0]]], [], ['y', 'lin2']),
    ('three objectives', [[0, 1, 2], ['s', 's']], [['T', [0]]], [], ['x', 'lin2', 'y']),
    ('three of three', [[0, 1], [1, 0], ['s', 's']], [], [], ['-y', 'z', 'sum']),
    ('constant objective', [[0, 1], [1, 0]], [['T', [0, 1]]], [], ['zero']),
    ('comparison', [[0, 1], [1, 0]], [['T', [0, 1]]], [], ['cmp']),
    ('additional', [[0, 1, 2], [1, 0]], [['T', [0, 1]], ['T', [1]]], [0, 1], ['lin2']),
    ('infeasible', [[0, 1], [1, 0]], [['AD', [0, 1]], ['K', False]], [], ['x']),
    ('empty', [[], [1, 0]], [], [], ['y']),
]

BIG = [
    ('lin table 3x3', [[0, 1, 2], [1, 0, 2]], [['T', [0, 1]]], [], ['lin2']),
    ('three tables', [[0, 1], [1, 0], [0, 1]], [['T', [0, 1]], ['T', [1, 2]]], [], ['lin3']),
    ('two of three', [[0, 1], [1, 0], [0, 1]], [['T', [0, 1, 2]]], [], ['z', 'lin2']),
    ('symbolic three', [['s', 's'], ['s', 's'], [0, 's']], [['AD', [0, 1]]], [], ['sum']),
]


def find(name):
    return [p for p in PROBLEMS + BIG if p[0] == name][0]


class Optimization(object):
    def __init__(self, ctx, problem, directions, coefficient=5):
        O = loader.load('satisfy.objective')
        _, domains, constraints, self.extra, names = find(problem)
        self.ctx = ctx
        self.problem = P.Problem(ctx, domains, constraints, coefficient_range=(-3, 3))
        self.model = self.problem.model(extra=self.extra)
        self.names = names
        self.directions = directions
        self.coefficients = [[ctx.int('o{}_{}'.format(k, j), -coefficient, coefficient) for j in range(OBJECTIVES[n][0])]
                             for k, n in enumerate(names)]
        self.maker = {'max': O.Maximize, 'min': O.Minimize}

    def objective(self):
        E = loader.load('satisfy.expression')
        variables = [self.problem.variables[i] for i in range(self.problem.n)]
        out = []
        for k, n in enumerate(self.names):
            expr = OBJECTIVES[n][1](self.coefficients[k], *variables)
            out.append(self.maker[self.directions[k]](E.Expression.coerce(expr)))
        return out[0] if len(out) == 1 else out

    def values(self, assignment):
        return [OBJECTIVES[n][1](self.coefficients[k], *assignment) for k, n in enumerate(self.names)]

    def better(self, a, b):
        """a is strictly better than b in every objective."""
        va, vb = self.values(a), self.values(b)
        return AND(*[x > y if d == 'max' else x < y for x, y, d in zip(va, vb, self.directions)])

    def args(self):
        return {'additional_constraints': self.problem.additional(self.extra)} if self.extra else {}

    def delivered(self, **args):
        solver = args.pop('solver')
        modify = args.pop('modify', False)
        out = []
        for s in solver.optimize(self.model, self.objective(), **dict(self.args(), **args)):
            # the consumer may keep or modify what it gets
            out.append(dict(s.solution))
            if modify:
                for name in s.solution:
                    s.solution[name] = 0
        return out


def job_configs(tier):
    """(problem, directions, policy, compilation)"""
    out = []
    for p in PROBLEMS + (BIG if tier == 'thorough' else []):
        n = len(p[4])
        for directions in ([['max'], ['min']] if n == 1 else [['max', 'min'], ['min', 'min'], ['max', 'max'], ['min', 'max']] if n == 2 else
                           [['max', 'min', 'max'], ['min', 'max', 'min'], ['max', 'max', 'min'], ['min', 'min', 'min'], ['max', 'max', 'max']]):
            if tier == 'thorough':
                for policy in ['GROUPS', 'ORDERED', 'REVERSED', 'MIN_BOUND', 'MAX_CONSTRAINT', 'RANDOM']:
                    for comp in (True, False):
                        if policy == 'RANDOM' and p in BIG:
                            continue
                        out.append((p[0], directions, policy, comp))
            else:
                out.append((p[0], directions, 'GROUPS', True))
                out.append((p[0], directions, 'REVERSED', False))
    return out
