"""Constraint problems shared by the checks of the search.

A problem is described by plain data (so that jobs are JSON):
  domains      list of lists of values; an entry "s" is a symbolic value
  constraints  list of [kind, scope, ...], scope = variable positions
     ["T", scope]        user-defined constraint over an arbitrary (symbolic) relation
     ["AD", scope]       all-different
     ["E", scope, name]  expression constraint from EXPRESSIONS, symbolic coefficients
     ["K", value]        constant constraint (a Python bool)
"""
import itertools

from symex import loader
from symex.api import AND, DISTINCT, EQ, NOT, OR, TRUTH

POLICIES = ['ORDERED', 'REVERSED', 'RANDOM', 'GROUPS', 'MIN_BOUND', 'MAX_BOUND', 'MIN_CONSTRAINT', 'MAX_CONSTRAINT']
NAMES = ['x', 'w', 'z', 'y', 'v']

# name -> (number of coefficients, expression/reference); the same lambda serves
# for both, on expressions and on integers
EXPRESSIONS = {
    'sum<=': (1, lambda c, *v: sum(v[1:], v[0]) <= c[0]),
    'lin<': (3, lambda c, x, y: c[0] * x + c[1] * y < c[2]),
    'x!=y+c': (1, lambda c, x, y: x != y + c[0]),
    'x>y': (0, lambda c, x, y: x > y),
    'x==c': (1, lambda c, x: x == c[0]),
    'x<=c': (1, lambda c, x: x <= c[0]),
    'x*c>d': (2, lambda c, x: x * c[0] > c[1]),
    'abs>=': (1, lambda c, x, y: abs(x - y) >= c[0]),
    'or': (2, lambda c, x, y: (x == c[0]) | (y == c[1])),
    'and': (2, lambda c, x, y: (x >= c[0]) & (y <= c[1])),
    'value': (1, lambda c, x, y: x * y - c[0]),       # satisfied if not zero
    'x+y==z+c': (1, lambda c, x, y, z: x + y == z + c[0]),
    'x-y<z': (0, lambda c, x, y, z: x - y < z),
    'x+c': (1, lambda c, x: x + c[0]),
}


def plain(name, c, values):
    """Reference semantics of an expression constraint on integers."""
    if name == 'or':
        return OR(EQ(values[0], c[0]), EQ(values[1], c[1]))
    if name == 'and':
        return AND(values[0] >= c[0], values[1] <= c[1])
    return TRUTH(EXPRESSIONS[name][1](c, *values))


class Problem(object):
    def __init__(self, ctx, domains, constraints, lo=-3, hi=3, prefix='', coefficient_range=None):
        self.ctx = ctx
        self.n = len(domains)
        self.names = NAMES[:self.n]
        self.specs = [list(c) for c in constraints]
        self.domains = []
        for i, d in enumerate(domains):
            values = [ctx.int('{}{}{}'.format(prefix, self.names[i], k), lo, hi) if v == 's' else v
                      for k, v in enumerate(d)]
            if any(v == 's' for v in d):
                ctx.assume(DISTINCT(values))
            self.domains.append(values)
        self.tables = {}
        self.coefficients = {}
        clo, chi = coefficient_range or (lo, hi)
        for k, spec in enumerate(self.specs):
            if spec[0] == 'T':
                self.tables[k] = {
                    t: ctx.bool('{}r{}{}'.format(prefix, k, list(t)))
                    for t in itertools.product(*[self.domains[i] for i in spec[1]])}
            elif spec[0] == 'E':
                self.coefficients[k] = [ctx.int('{}c{}_{}'.format(prefix, k, j), clo, chi)
                                        for j in range(EXPRESSIONS[spec[2]][0])]

    # -- reference -----------------------------------------------------------
    def holds(self, k, assignment):
        spec = self.specs[k]
        if spec[0] == 'K':
            return bool(spec[1])
        values = [assignment[i] for i in spec[1]]
        if spec[0] == 'T':
            return TRUTH(self.tables[k][tuple(values)])
        if spec[0] == 'AD':
            return DISTINCT(values)
        return plain(spec[2], self.coefficients[k], values)

    def satisfied(self, assignment, which=None):
        """All constraints hold (a condition, without branching)."""
        which = range(len(self.specs)) if which is None else which
        return AND(*[self.holds(k, assignment) for k in which])

    def assignments(self):
        return itertools.product(*self.domains)

    # -- the code's objects --------------------------------------------------
    def constraint(self, k, variables):
        C = loader.load('satisfy.constraint')
        spec = self.specs[k]
        if spec[0] == 'K':
            return bool(spec[1])
        names = [self.names[i] for i in spec[1]]
        if spec[0] == 'T':
            table = self.tables[k]
            hook = self.on_evaluate

            class Table(C.Constraint):
                def evaluate(self, substitution):
                    if hook is not None:
                        hook()
                    return table[tuple(substitution[v] for v in names)]

                def __str__(self):
                    return "Table{}".format(names)
            return Table(names)
        if spec[0] == 'AD':
            return C.AllDifferentConstraint(names)
        return EXPRESSIONS[spec[2]][1](self.coefficients[k], *[variables[i] for i in spec[1]])

    on_evaluate = None

    def model(self, order=None, constraint_order=None, extra=()):
        """Builds the model; the constraints in `extra` are left out."""
        M = loader.load('satisfy.model')
        model = M.Model()
        variables = {}
        for i in (order or range(self.n)):
            variables[i] = model.add_int_variable(list(self.domains[i]), name=self.names[i])
        for k in (constraint_order or range(len(self.specs))):
            if k in extra:
                continue
            if self.specs[k][0] == 'AD' and k % 2:
                model.add_all_different_constraint([variables[i] for i in self.specs[k][1]])
            else:
                model.add_constraint(self.constraint(k, variables))
        self.variables = variables
        return model

    def additional(self, which):
        C = loader.load('satisfy.constraint')
        E = loader.load('satisfy.expression')
        out = []
        for k in which:
            c = self.constraint(k, self.variables)
            out.append(C.ExpressionConstraint(c) if isinstance(c, E.Expression) else
                       C.ConstConstraint(c) if isinstance(c, bool) else c)
        return out

    def tuple_of(self, solution):
        return tuple(solution[v] for v in self.names)

    def check_shape(self, solution):
        self.ctx.check(sorted(solution) == sorted(self.names), "a solution does not assign exactly the variables",
                       solution=solution, variables=self.names)

    def check_sound(self, solution, message="a delivered solution breaks the model"):
        ctx = self.ctx
        self.check_shape(solution)
        t = self.tuple_of(solution)
        for v, d, name in zip(t, self.domains, self.names):
            ctx.check(OR(*[EQ(v, w) for w in d]), "a delivered value is not in the variable's domain",
                      solution=solution, variable=name, domain=d)
        # tables are looked up by value
        ctx.check(self.satisfied(t), message, solution=solution)

    def same(self, a, b):
        return AND(*[EQ(x, y) for x, y in zip(a, b)])

    def check_complete(self, solutions, message="a satisfying assignment was not delivered"):
        ctx = self.ctx
        ts = [self.tuple_of(s) for s in solutions]
        for i in range(len(ts)):
            for j in range(i):
                ctx.check(NOT(self.same(ts[i], ts[j])), "a solution was delivered twice", solution=ts[i])
        for a in self.assignments():
            missing = AND(self.satisfied(a), *[NOT(self.same(a, t)) for t in ts])
            ctx.check(NOT(missing), message, missing=a, delivered=ts)


def solver(policy='GROUPS', compile_constraints=True, **args):
    S = loader.load('satisfy.solver')
    return S.Solver(var_selection_policy=S.VarSelectionPolicy[policy], compile_constraints=compile_constraints, **args)


# problems: (name, domains, constraints, positions of additional constraints)
TABLES = [
    ('triangle', [[0, 1], [5, -2], [3, 7]], [['T', [0, 1]], ['T', [1, 2]], ['T', [0, 2]]], []),
    ('unary+binary', [[2, -1, 0], [4, 3]], [['T', [0]], ['T', [0, 1]], ['T', [1]]], []),
    ('ternary+ad', [[1, 0], [0, 1], [1, 2]], [['T', [0, 1, 2]], ['AD', [0, 1]]], []),
    ('ad3', [[0, 1, 2], [2, 1, 0], [1, 2]], [['AD', [0, 1, 2]], ['T', [2, 0]]], []),
    ('ad overlapping', [[0, 1], [1, 0], [0, 1, 2], [1, 2]], [['AD', [0, 1]], ['AD', [1, 2, 3]], ['T', [0, 3]]], []),
    ('chain', [[0, 1], [1, 0], [0, 1], [1, 0]], [['T', [0, 1]], ['AD', [1, 2]], ['T', [2, 3]]], []),
    ('far pair', [[0, 1], [0, 1], [0, 1]], [['T', [0, 2]], ['T', [1]], ['K', True]], []),
    ('free variable', [[0, 1], [3], [1, 2]], [['T', [0, 2]]], []),
    ('ad single', [[0, 1], [1, 0]], [['AD', [0]], ['AD', []], ['T', [0, 1]], ['K', True]], []),
    ('doubled', [[0, 1], [1, 0]], [['T', [0, 1]], ['T', [1, 0]], ['T', [0]], ['T', [0]]], []),
    ('one', [[3, 1, 2, -5]], [['T', [0]], ['T', [0]]], []),
    ('additional', [[0, 1], [1, 0], [2]], [['T', [0, 1]], ['T', [1, 2]], ['T', [0, 2]], ['T', [0]]], [1, 2, 3]),
    ('additional ad', [[0, 1], [1, 0], [0, 1, 2]], [['T', [0, 2]], ['AD', [0, 1]], ['AD', [1, 2]]], [1, 2]),
    ('additional all', [[0, 1], [1, 0]], [['T', [0]], ['T', [1]], ['T', [0, 1]], ['K', True]], [0, 1, 2, 3]),
    ('empty domain', [[0, 1], [], [1]], [['T', [0]], ['AD', [0, 2]]], []),
    ('no constraints', [[0, 1], [7], [2, 1]], [], []),
    ('no variables', [], [['K', True]], []),
    ('no variables 2', [], [['K', True]], [0]),
    ('no variables 3', [], [['K', False]], [0]),
    ('false', [[0, 1]], [['T', [0]], ['K', False]], []),
    ('additional false', [[0, 1]], [['T', [0]], ['K', False]], [1]),
    ('additional true', [[0, 1]], [['T', [0]], ['K', True]], [1]),
    ('ad pigeons', [[0, 1], [1, 0], [0, 1]], [['AD', [0, 1, 2]], ['T', [0, 1]]], []),
    ('equal sizes ad+unary', [[0, 1], [1, 0], [1, 0]], [['T', [1]], ['AD', [1, 2]], ['AD', [0, 2]], ['T', [0, 1]]], []),
]

BIG_TABLES = [
    ('long chain', [[0, 1], [1, 0], [0, 1], [1, 0]], [['T', [0, 1]], ['T', [1, 2]], ['T', [2, 3]]], []),
    ('square', [[0, 1], [1, 0], [0, 1], [1, 0]], [['T', [0, 1]], ['T', [1, 2]], ['T', [2, 3]], ['T', [3, 0]]], []),
    ('triangle 3', [[0, 1, 2], [5, -2], [3, 7]], [['T', [0, 1]], ['T', [1, 2]], ['T', [0, 2]]], []),
    ('ternary 3', [[1, 0, 2], [0, 1], [1, 2]], [['T', [0, 1, 2]], ['AD', [0, 1]]], []),
    ('five', [[0, 1], [1, 0], [0, 1], [1, 0], [2, 1]], [['T', [0, 4]], ['T', [1, 3]], ['AD', [2, 3]], ['AD', [4, 0, 1]]], []),
    ('additional big', [[0, 1], [1, 0], [2, 0]], [['T', [0, 1]], ['T', [1, 2]], ['T', [0, 1, 2]], ['T', [0]]], [1, 2]),
]

EXPRESSION_PROBLEMS = [
    ('lin', [['s', 's'], ['s', 's']], [['E', [0, 1], 'lin<'], ['E', [0], 'x<=c']], []),
    ('neq+ad', [['s', 's'], ['s', 's'], [0, 1]], [['E', [0, 1], 'x!=y+c'], ['AD', [0, 2]]], []),
    ('ad symbolic', [['s', 's'], ['s', 's'], ['s']], [['AD', [0, 1, 2]], ['E', [1], 'x*c>d']], []),
    ('logic', [['s', 's'], [0, 's']], [['E', [0, 1], 'or'], ['E', [1, 0], 'and']], []),
    ('value', [['s', 0], ['s', 's']], [['E', [0, 1], 'value'], ['E', [1, 0], 'abs>=']], []),
    ('three', [[0, 's'], [1, 's'], [2, 's']], [['E', [0, 1, 2], 'x+y==z+c']], []),
    ('additional', [['s', 's'], [0, 's']], [['E', [0, 1], 'x>y'], ['E', [0, 1], 'sum<='], ['E', [1], 'x==c']], [1, 2]),
    ('unary value', [['s', 's', 0]], [['E', [0], 'x+c'], ['E', [0], 'x<=c']], []),
]
