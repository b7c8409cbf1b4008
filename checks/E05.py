"""E05: expressions are values: using them never changes them."""
import operator

from symex import loader
from symex.api import EQ
from symex.runner import Job
from . import _expr as X
from .E02 import table

BOUNDS = [
    "pairs of the expressions of FORMS (leaves, sums and products of 2-4 operands with and without constant, nested ones, "
    "negation, absolute value, comparisons, logic, powers), sharing a part or not",
    "one (thorough: two) of the uses of USES between two looks: every binary operator in either order, in place and with an "
    "integer, unary operators, evaluation with all or some variables, compilation, comparison, constraints made of it",
    "a look covers the value, the compiled value, the reported variables and the structural equality of both expressions, their parts "
    "and what was built first; one variable, constants and parameters any integer in [-2, 3], the others fixed",
]
OUTSIDE = ["longer sequences of uses", "changing a parameter's value (which is meant to change the expression)"]
WITNESSES = ['used', 'parameter', 'missing']

V = [('l', i) for i in range(8)]
FORMS = {
    'x': V[0],
    'x+y': ('b', '+', V[0], V[1]),
    'x+y+z': ('b', '+', ('b', '+', V[0], V[1]), V[2]),
    'c+x+y': ('b', '+', V[4], ('b', '+', V[0], V[1])),
    'x+(y+z)+c': ('b', '+', ('b', '+', V[0], ('b', '+', V[1], V[2])), V[4]),
    'x*y': ('b', '*', V[0], V[1]),
    'x*y*z': ('b', '*', ('b', '*', V[0], V[1]), V[2]),
    'c*x*y': ('b', '*', V[4], ('b', '*', V[0], V[1])),
    'x*y+z*c': ('b', '+', ('b', '*', V[0], V[1]), ('b', '*', V[2], V[4])),
    '-x': ('u', 'neg', V[0]),
    'abs(x-y)': ('u', 'abs', ('b', '-', V[0], V[1])),
    'x<y': ('b', '<', V[0], V[1]),
    '(x<y)&(z==c)': ('b', '&', ('b', '<', V[0], V[1]), ('b', '==', V[2], V[4])),
    'x|y': ('b', '|', V[0], V[1]),
    'Sum(x,c,y)': ('n', 'Sum', V[0], V[4], V[1]),
    'Prod(x,y)': ('n', 'Prod', V[0], V[1]),
    'Not(x)': ('u', 'Not', V[0]),
    'p': V[6],
    'p+x': ('b', '+', V[6], V[0]),
    'c': V[4],
    'x%c': ('b', '%', V[0], V[4]),
    'x-y': ('b', '-', V[0], V[1]),
    'x*c-x': ('b', '-', ('b', '*', V[0], V[4]), V[0]),
    '-(c-x)': ('u', 'neg', ('b', '-', V[4], V[0])),
    'x/y': ('b', '/', V[0], V[1]),
    'y**c': ('b', '**', V[1], V[4]),
    '(x==y)==c': ('b', '==', ('b', '==', V[0], V[1]), V[4]),
    'p-y*p': ('b', '-', V[6], ('b', '*', V[1], V[6])),
    'Not(x>=y)': ('u', 'Not', ('b', '>=', V[0], V[1])),
    'x!=x': ('b', '!=', V[0], V[0]),
}
KINDS = ['V', 'V', 'V', 'V', 'C', 'C', 'P', 'P']
NAMES = ['x', 'y', 'z', 'x', '', '', 'y', 'z']
PARTNERS = ['x', 'x+y+z', 'c+x+y', 'c*x*y', 'x*y*z', 'Sum(x,c,y)', 'Prod(x,y)', 'p', 'c']
INPLACE = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv, '%': operator.imod,
           '**': operator.ipow, '&': operator.iand, '|': operator.ior}
USES = ['negate', 'a op b', 'b op a', 'a op= b', 'op int', 'int op', 'twice', 'unary', 'evaluate', 'missing', 'compile', 'equals',
        'vars', 'constraint', 'constructors', 'sum']
ORDER = ['+', '*', '-', '&', '|', '==', '<', '%', '/', '**']


def jobs(tier):
    out = []
    for name in FORMS:
        for partner in PARTNERS:
            out.append(Job('uses', form=name, partners=[partner], n=1, weight=3))
        if tier == 'thorough':
            for partner in FORMS:
                if partner not in PARTNERS:
                    out.append(Job('uses', form=name, partners=[partner], n=1, weight=3))
            for first in USES:
                out.append(Job('uses', form=name, partners=['x+y+z', 'c*x*y', 'Sum(x,c,y)'], n=2, first=first, weight=9))
    return out


class Look(object):
    """What can be observed of an expression at one assignment."""

    def __init__(self, ctx, module, expression, rebuilt, substitution, function=None):
        self.e = expression
        self.vars = list(expression.vars())
        self.free = list(expression.free_vars({'x': 1}))
        self.equal = (expression.equals(rebuilt), rebuilt.equals(expression))
        self.function = function or expression.as_function()
        self.values = []
        for call in (lambda: expression.evaluate(substitution), lambda: self.function(**substitution),
                     lambda: expression.as_function()(**substitution)):
            try:
                self.values.append(call())
            except (ZeroDivisionError, OverflowError) as exc:
                self.values.append(type(exc).__name__)

    def check(self, ctx, other, **what):
        ctx.check(self.vars == other.vars and self.free == other.free, "using an expression changed its variables", **what)
        ctx.check(self.equal == other.equal == (True, True), "using an expression changed what it is equal to", **what)
        for a, b in zip(self.values, other.values):
            if isinstance(a, str) or isinstance(b, str):
                ctx.check(isinstance(a, str) and isinstance(b, str) and a == b, "using an expression changed its value", **what)
            else:
                ctx.check(EQ(a, b), "using an expression changed its value", **what)


def use(ctx, E, C, kind, tag, a, b, substitution):
    if kind in ('a op b', 'b op a', 'op int', 'int op', 'twice'):
        out = []
        for op in ORDER:
            f = X.BUILD[op]
            for number in [0, 1, 2] if 'int' in kind else [None]:
                pairs = {'a op b': (a, b), 'b op a': (b, a), 'op int': (a, number), 'int op': (number, a), 'twice': (a, a)}
                l, r = pairs[kind]
                try:
                    got = f(l, r)
                    out.append(got)
                    if kind == 'twice' and isinstance(got, E.Expression):
                        out.append(f(got, a))
                except (ZeroDivisionError, OverflowError):
                    pass
        return out
    if kind == 'a op= b':
        out = []
        for op in ORDER:
            c = a
            try:
                c = INPLACE.get(op, X.BUILD[op])(c, b)
                c = INPLACE.get(op, X.BUILD[op])(c, 2)
            except (ZeroDivisionError, OverflowError):
                pass
            out.append(c)
        return out
    if kind == 'negate':
        return -a, -b       # each once: two wrongs can make a right
    if kind == 'unary':
        return -(+a), abs(a), -(-a)
    if kind == 'evaluate':
        for e in (a, b, a):
            try:
                e.evaluate(substitution)
                e.as_function()(**substitution)
            except (ZeroDivisionError, OverflowError):
                pass
    elif kind == 'missing':
        for e in (a, b):
            try:
                e.evaluate({'y': 1})
            except (E.EvaluationError, ZeroDivisionError, OverflowError):
                ctx.reach('missing')
            try:
                e.as_function()(y=1)
            except Exception:
                pass
    elif kind == 'compile':
        return [e.compile_py_function() for e in (a, b, a + b, a * 2)]
    elif kind == 'equals':
        return a.equals(b), b.equals(a), a.equals(a), (a == b), (a != b)
    elif kind == 'vars':
        return list(a.vars()), list(b.free_vars(substitution)), list(a.free_vars({})), repr(a), str(b)
    elif kind == 'constraint':
        for e in (a, b):
            c = C.ExpressionConstraint(e)
            c.compile()
            list(c.vars())
            try:
                c.evaluate(substitution)
                c.unsatisfied({'x': 0})
                c.uncompile()
                c.evaluate(substitution)
            except (ZeroDivisionError, OverflowError, E.EvaluationError):
                pass
    elif kind == 'constructors':
        return E.Sum([a, b, 3, a]), E.Prod([a, b, 1, b]), E.Sum([a], const=2), E.Prod([b], const=3), E.Not(a), E.Neg(b), \
            E.Sum([E.Sum([a, b]), a]), E.Prod([E.Prod([a, b]), b])
    elif kind == 'sum':
        return sum([a, b, a]), sum((b, a), 5), E.prod([a, b]), E.Expression.coerce(a) + 0, a * 1, a * 0


def uses(ctx, form, partners, n, first=None):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    t = table(E)
    kinds = [first] if first else []
    while len(kinds) < n:
        kinds.append(ctx.choice('use{}'.format(len(kinds)), USES))
    partner = ctx.choice('partner', partners)
    share = ctx.choice('share', [False, True])
    lo, hi = -2, 3
    tree = ('b', '+', FORMS[form], FORMS[partner])
    fixed = {'Vy': 2, 'Vz': -3}
    one = X.Instance(ctx, tree, KINDS, NAMES, lo, hi, E,
                     values=lambda label: fixed[label] if label in fixed else ctx.int(label, lo, hi))
    a, a2 = one.build2(FORMS[form], t), one.build2(FORMS[form], t)
    b, b2 = (one.build2(FORMS[partner], t), one.build2(FORMS[partner], t))
    if share:
        if not isinstance(b, E.Expression) or not isinstance(a, E.Expression):
            return
        b, b2 = b + a, b2 + a2
    if not isinstance(a, E.Expression) or not isinstance(b, E.Expression):
        return
    substitution = {'x': 1, 'y': 2, 'z': -1}
    substitution.update(one.substitution)
    kept = dict(substitution)
    if 'P' in [KINDS[i] for i in X.leaves(tree)]:
        ctx.reach('parameter')
    whole, whole2 = a - b, a2 - b2
    watched = [(a, a2), (b, b2), (whole, whole2)]
    for e, e2 in [(a, a2), (b, b2)]:
        if isinstance(e, E.Collection):
            watched += list(zip(e, e2))
    watched = [(e, e2) for e, e2 in watched if isinstance(e, E.Expression)]
    before = [Look(ctx, E, e, e2, substitution) for e, e2 in watched]
    results = [use(ctx, E, C, kind, str(i), a, b, substitution) for i, kind in enumerate(kinds)]
    what = dict(form=form, partner=partner, uses=kinds, a=a, b=b)
    ctx.check(list(substitution) == list(kept), "using an expression changed the assignment given", **what)
    for name in kept:
        ctx.check(EQ(substitution[name], kept[name]), "using an expression changed the assignment given", **what)
    for (e, e2), look in zip(watched, before):
        after = Look(ctx, E, e, e2, substitution, function=look.function)
        look.check(ctx, after, **what)
    for parameter in one.parameters.values():
        ctx.check(EQ(parameter.value, one.parameter_values[parameter.name]), "using an expression changed a parameter", **what)
    ctx.reach('used')
    del results
