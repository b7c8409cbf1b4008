"""Larger problems (3-12 variables, domains of up to 12 values of any type) for the checks of the search.

The relations are mostly fixed; a few entries and coefficients are symbolic.
What the solver delivers is compared with all assignments at once: the
unknowns of one query are the positions of the values in the domains.

constraints:
  ["P", scope, density, free]  relation: a fixed pattern with `free` symbolic entries
  ["AD", scope]
  ["E", scope, name, lo, hi]   expression of _search.EXPRESSIONS (or MORE), coefficients in [lo, hi]
"""
import itertools
import random

from symex import loader
from symex.api import AND, EQ, IMPLIES, ITE, NOT, OR, TRUTH
from . import _search as P

NAMES = ['x', 'w', 'z', 'y', 'v', 'k10', 'b_', 'T', 'a', 'm', 'k2', 'kk', 'X', 'z1', 'z_1']

MORE = {
    'weighted': (1, lambda c, *v: sum(((k + 1) * a for k, a in enumerate(v[1:], 1)), v[0]) <= c[0]),
    'equal': (1, lambda c, x, y, z, u: x + y * 2 == z + u + c[0]),
    'mod': (1, lambda c, x, y, z: (x + y + z) % 3 == c[0]),
    'square': (1, lambda c, x, y: x * x + y * y >= c[0]),
    'pow': (1, lambda c, x: x ** 2 > c[0]),
    'neg': (1, lambda c, x, y: -x - y < c[0]),
}


def lookup(name):
    return MORE[name] if name in MORE else P.EXPRESSIONS[name]


def plain(name, c, values):
    if name in MORE:
        return TRUTH(MORE[name][1](c, *values))
    return P.plain(name, c, values)


I3 = [[0, 1, 2], [2, 1, 0], [1, 0, 2], [-1, 1, 0]]

# name -> (domains, constraints, additional, objective coefficients or None)
PROBLEMS = {
    'ring': ([I3[i % 4] for i in range(7)],
             [['P', [i, (i + 1) % 7], 6, 1 if i in (0, 3, 6) else 0] for i in range(7)], [], [2, -1, 3, 0, 1, -2, 1]),
    'five different': ([[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 1, 3], [1, 2], [0, 3, 4], [5, 0]],
                       [['AD', [0, 1, 2, 3, 4]], ['E', [0, 1, 2], 'sum<=', 4, 6], ['E', [3, 5], 'x>y', 0, 0],
                        ['E', [4, 0], 'abs>=', 1, 3]], [], [1, -2, 1, 3, -1, 1]),
    'colours': ([['red', 'green', 'blue'], ['blue', 'red'], ['green', 'blue', 'red'], ['red'], ['blue', 'green'],
                 ['green', 'red', 'blue']],
                [['AD', [0, 1]], ['AD', [1, 2, 4]], ['AD', [2, 3]], ['AD', [5, 0]], ['P', [4, 5], 7, 2]], [], None),
    'mixed values': ([[(0, 1), (1, 0)], ['a', '', 'b'], [0.5, 1, 2], [True, 0], [-3, '-3', 0], [frozenset([1]), 1]],
                     [['P', [0, 1], 7, 1], ['P', [1, 2, 3], 6, 1], ['AD', [2, 3, 5]], ['AD', [4, 3]], ['P', [4, 5], 8, 1],
                      ['P', [1], 8, 1]], [], None),
    'bits': ([[0, 1]] * 8,
             [['E', [0, 1, 2, 3], 'equal', -1, 1], ['E', [4, 5, 6], 'mod', 0, 2], ['E', [6, 7], 'x>y', 0, 0],
              ['P', [0, 3, 5, 7], 9, 0], ['AD', [1, 4]], ['AD', [2, 5]]], [], [3, 1, -2, 4, -1, 2, 5, -3]),
    'long domain': ([[7, -4, 0, 3, 12, -1, 5, 1, 2, -9, 8, 6], [1, 0]],
                    [['E', [0], 'pow', -1, 20], ['E', [0], 'x<=c', 2, 8], ['P', [0], 8, 0], ['E', [0, 1], 'x!=y+c', 0, 3],
                     ['P', [0, 1], 8, 0]], [], [1, 5]),
    'nine': ([[0, 1], [1, 0], [0, 1], [3], [1, 2, 0], [0, 1], [1, 0], [2, 0], [0, 1]],
             [['AD', [0, 1]], ['AD', [1, 2]], ['AD', [2, 4, 7]], ['AD', [7, 8]], ['P', [5, 6, 8], 7, 2], ['P', [0, 3, 4], 8, 0],
              ['E', [5, 6], 'neg', -2, 0]], [], [1, 2, -1, 4, 3, -2, 2, 1, -5]),
    'added': ([[0, 1, 2], [2, 1, 0], [0, 1], [1, 0], [5, 6, 7], [0, 1]],
              [['AD', [0, 1]], ['P', [0, 1, 2], 7, 1], ['P', [2, 3, 4], 6, 1], ['E', [0, 3, 5], 'weighted', 1, 4], ['AD', [3, 5]],
               ['P', [4], 7, 1], ['P', [0, 4], 8, 0]], [2, 3, 4, 5], [1, -1, 2, 2, -1, 3]),
    'dense': ([[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2], [0, 2], [1, 3, 2], [2, 0, 1]],
              [['P', [0, 1], 6, 0], ['P', [0, 2], 6, 0], ['P', [0, 3], 7, 0], ['P', [1, 2], 6, 0], ['P', [1, 4], 7, 1],
               ['P', [2, 5], 7, 0], ['P', [3, 4], 8, 0], ['P', [3, 5], 8, 1], ['P', [4, 5], 8, 0], ['AD', [0, 1, 2]],
               ['E', [3], 'x<=c', 0, 2]], [], [5, -3, 1, 2, -2, 1]),
    'many unary': ([[3, 0, -2, 1], [0, 1, 5], [2, -1, 1], [4, 0], [1, 0, 2]],
                   [['E', [0], 'x<=c', 0, 3], ['P', [0], 8, 0], ['E', [1], 'x+c', -1, 0], ['E', [2], 'pow', 0, 1],
                    ['P', [2], 8, 0], ['P', [4], 8, 1], ['E', [4], 'x<=c', 0, 2], ['E', [0, 4], 'square', 1, 4],
                    ['P', [3, 1], 8, 0], ['AD', [3, 4]]], [], [1, 2, -3, 1, 2]),
    'one large': ([[0, 1, 2, 3, 4, 5, 6, 7, 8, 9], [9, 8, 7, 6, 5, 4, 3, 2, 1, 0], [0, 5, 10]],
                  [['E', [0, 1, 2], 'x+y==z+c', -1, 2], ['E', [0, 1], 'x>y', 0, 0], ['AD', [0, 1, 2]]], [], [1, -2, 2]),
    'twelve different': ([[0, 1], [1, 2], [2, 3, 0], [3, 4], [4, 5, 1], [5, 6], [6, 7], [7, 8, 2], [8, 9], [9, 10], [10, 11], [11, 0, 5]],
                         [['AD', list(range(12))], ['E', [0, 11], 'x!=y+c', 0, 6], ['P', [4, 7], 8, 1]], [], [1, -2, 1, 3, -1, 1, 2, 1, -3, 1, 2, 4]),
    'seven sum': ([[0, 1], [2, 0], [1, 3], [0, 4], [5, 0], [0, 6], [7, 1]],
                  [['E', [0, 1, 2, 3, 4, 5, 6], 'sum<=', 8, 10], ['E', [2, 3, 4, 5], 'equal', 0, 1]], [], [1, 1, 2, -1, 3, 1, -2]),
    'fourteen': ([[0, 1], [1, 0], [3], [0, 1], [5], [2], [0, 1, 2, 3, 4], [1], [0, 1], [0], [7, 8], [4], [0, 1], [6, 5, 3, 2]],
                 [['AD', [0, 1]], ['E', [0], 'x<=c', 0, 1], ['AD', [6, 13, 2]], ['E', [3, 8, 12], 'sum<=', 1, 2], ['P', [6], 6, 1],
                  ['AD', [9, 12]], ['P', [10, 13], 5, 1], ['E', [1], 'x+c', -1, 0], ['P', [13], 9, 0],
                  ['AD', [0, 4]]], [],
                 [1, -2, 1, 3, -1, 1, 2, 1, -3, 1, 2, 4, -1, 2]),
    'free depth': ([[0, 9], [1], [2], [0], [1], [0], [3, 1, 4, 2, 5], [0, 1], [7, 6, 8], [0], [6], [5], [4], [3]],
                   [['E', [7, 8], 'x!=y+c', -7, -6]], [], [1, -2, 1, 3, -1, 1, 2, 1, -3, 1, 1, 1, 1, 1]),
    'grid': ([list(range(18)), list(range(17, -1, -1))], [['E', [0, 1], 'x!=y+c', -1, 1]], [], [1, 5]),
}
BOUNDS = ["larger problems (checks/_large.py: 2-14 variables, up to 18 values and 324 assignments delivered, also other than integers, constraints over up to "
          "7 variables) with a few symbolic entries and coefficients; all assignments in one query"]


class Large(object):
    def __init__(self, ctx, name):
        random.seed(5)
        self.ctx = ctx
        self.domains, self.specs, self.extra, self.objective = PROBLEMS[name]
        self.n = len(self.domains)
        self.names = NAMES[:self.n]
        self.tables, self.coefficients = {}, {}
        for k, spec in enumerate(self.specs):
            if spec[0] == 'P':
                tuples = list(itertools.product(*[range(len(self.domains[i])) for i in spec[1]]))
                table = {}
                pick = random.Random(str((name, k)))
                for t in tuples:
                    table[t] = pick.random() * 10 < spec[2]
                for t in pick.sample(tuples, min(spec[3], len(tuples))):
                    table[t] = ctx.bool('r{}{}'.format(k, list(t)))
                self.tables[k] = table
            elif spec[0] == 'E':
                self.coefficients[k] = [ctx.int('c{}_{}'.format(k, j), spec[3], spec[4])
                                        for j in range(lookup(spec[2])[0])]

    def value(self, i, position):
        """Value of variable i at a (possibly unknown) position."""
        d = self.domains[i]
        out = d[-1]
        for j in range(len(d) - 2, -1, -1):
            out = ITE(EQ(position, j), d[j], out)
        return out

    def holds(self, k, positions):
        spec = self.specs[k]
        scope = spec[1]
        if spec[0] == 'AD':
            return AND(*[NOT(AND(EQ(positions[i], a), EQ(positions[j], b)))
                         for i, j in itertools.combinations(scope, 2)
                         for a, va in enumerate(self.domains[i]) for b, vb in enumerate(self.domains[j]) if va == vb])
        if spec[0] == 'P':
            return AND(*[OR(TRUTH(v), *[NOT(EQ(positions[i], p)) for i, p in zip(scope, t)])
                         for t, v in self.tables[k].items() if v is not True])
        return plain(spec[2], self.coefficients[k], [self.value(i, positions[i]) for i in scope])

    def satisfied(self, positions):
        return AND(*[self.holds(k, positions) for k in range(len(self.specs))])

    def constraint(self, k, variables):
        C = loader.load('satisfy.constraint')
        spec = self.specs[k]
        names = [self.names[i] for i in spec[1]]
        if spec[0] == 'AD':
            return C.AllDifferentConstraint(names)
        if spec[0] == 'P':
            table = self.tables[k]
            domains = [self.domains[i] for i in spec[1]]

            class Table(C.Constraint):
                def evaluate(self, substitution):
                    return table[tuple(d.index(substitution[v]) for v, d in zip(names, domains))]

                def __str__(self):
                    return "Table{}".format(names)
            return Table(names)
        return lookup(spec[2])[1](self.coefficients[k], *[variables[i] for i in spec[1]])

    def model(self, backwards=False):
        M = loader.load('satisfy.model')
        model = M.Model()
        self.variables = {}
        order = list(range(self.n))
        which = [k for k in range(len(self.specs)) if k not in self.extra]
        if backwards:
            order.reverse()
            which.reverse()
        for i in order:
            self.variables[i] = model.add_int_variable(list(self.domains[i]), name=self.names[i])
        for k in which:
            model.add_constraint(self.constraint(k, self.variables))
        return model

    def args(self):
        C = loader.load('satisfy.constraint')
        E = loader.load('satisfy.expression')
        if not self.extra:
            return {}
        out = [self.constraint(k, self.variables) for k in self.extra]
        return {'additional_constraints': [C.ExpressionConstraint(c) if isinstance(c, E.Expression) else c for c in out]}

    # -- checks ----------------------------------------------------------------
    def positions(self, solution):
        ctx = self.ctx
        ctx.check(sorted(solution) == sorted(self.names), "a solution does not assign exactly the variables",
                  solution=solution, variables=self.names)
        out = []
        for name, d in zip(self.names, self.domains):
            v = solution[name]
            found = [j for j, w in enumerate(d) if w == v and type(w) is type(v)]
            ctx.check(len(found) == 1, "a delivered value is not in the variable's domain", solution=solution,
                      variable=name, domain=d)
            out.append(found[0])
        return tuple(out)

    def check_sound(self, solutions):
        for s in solutions:
            self.ctx.check(self.satisfied(self.positions(s)), "a delivered solution breaks the model", solution=s)

    def check_complete(self, solutions):
        got = [self.positions(s) for s in solutions]
        self.ctx.check(len(set(got)) == len(got), "a solution was delivered twice")

        def missing(u):
            p = [u.int(n, 0, len(d) - 1) for n, d in zip(self.names, self.domains)]
            return AND(self.satisfied(p), *[OR(*[NOT(EQ(a, b)) for a, b in zip(p, t)]) for t in got])
        self.ctx.never(missing, "a satisfying assignment was not delivered")

    # -- optimization ----------------------------------------------------------
    def objective_value(self, coefficient, values):
        c = [coefficient] + self.objective[1:]
        total = c[0] * values[0]
        for a, v in zip(c[1:], values[1:]):
            total = total + a * v
        return total

    def make_objective(self, direction, coefficient):
        O = loader.load('satisfy.objective')
        return (O.Maximize if direction == 'max' else O.Minimize)(
            self.objective_value(coefficient, [self.variables[i] for i in range(self.n)]))

    def better(self, direction, coefficient, a, b):
        va = self.objective_value(coefficient, [self.value(i, p) for i, p in enumerate(a)])
        vb = self.objective_value(coefficient, [self.value(i, p) for i, p in enumerate(b)])
        return va > vb if direction == 'max' else va < vb

    def check_optimal(self, direction, coefficient, best):
        t = self.positions(best) if best is not None else None

        def more(u):
            p = [u.int(n, 0, len(d) - 1) for n, d in zip(self.names, self.domains)]
            return AND(self.satisfied(p), True if t is None else self.better(direction, coefficient, p, t))
        self.ctx.never(more, "a feasible assignment beats the reported optimum" if t else
                       "a feasible assignment exists but none was reported")
