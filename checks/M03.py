"""M03: a constraint is violated only when fully bound and false."""
import itertools

from symex import loader
from symex.api import AND, DISTINCT, IFF, NOT, TRUTH, Discard
from symex.runner import Job
from . import _expr as X

BOUNDS = [
    "expression constraints over all trees with 1 or 2 binary operators (variables, raw integers), interpreted and compiled; "
    "all-different over 0-4 variables; constant constraints; a user-defined constraint over 1-4 (thorough 5) variables; larger trees (checks/_expr.py LARGE, over up to 7 variables)",
    "every subset of bound variables, with and without unrelated names; integers in [-10^6, 10^6] ([-2, 3] with **)",
]
OUTSIDE = ["all-different naming one variable twice", "other larger trees and scopes"]
WITNESSES = ['violated', 'not bound', 'satisfied', 'all different violated', 'all different holds', 'user', 'large']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for op in X.BINARY:
        out.append(Job('expression', const_hash=False, trees=[('b', op, ('l', 0), ('l', 1))], kinds='VRC',
                       names=[['x', 'y'], ['x', 'x']]))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('expression', const_hash=False, trees=trees, kinds='VR' if thorough else '',
                       fixed=None if thorough else ['VVV', 'VRV'],
                       names=[['x', 'y', 'x'], ['x', 'y', 'z']] if thorough else [['x', 'y', 'x']], weight=2))
    for n in range(0, 6 if thorough else 5):
        out.append(Job('all_different', n=n, weight=5))
    out.append(Job('constant'))
    for name in X.LARGE:
        if thorough or (len(X.LARGE[name][2]) > 2 and len(set(X.LARGE[name][2])) < 8):
            out.append(Job('large', const_hash=False, name=name))
    for n in (1, 2, 3, 4, 5) if thorough else (1, 2, 3, 4):
        out.append(Job('user', n=n))
    return out


def _unsatisfied(ctx, con, sub, allbound, truth, what):
    got = TRUTH(con.unsatisfied(dict(sub)))
    if not allbound:
        ctx.check(NOT(got), "violated although a variable is not bound", sub=sub, **what)
        ctx.reach('not bound')
        return
    ctx.check(IFF(got, NOT(truth)), "violated does not mean: fully bound and false", sub=sub, truth=truth, **what)
    if truth:
        ctx.reach('satisfied')
    else:
        ctx.reach('violated')


def expression(ctx, trees, kinds, names, fixed=None):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    names = ctx.choice('names', names)
    combos = [k for k in fixed if X.well_kinded(tree, k)] if fixed else X.kind_combos(tree, kinds)
    combo = ctx.choice('kinds', combos)
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, names, lo, hi, E)
    expected = TRUTH(inst.plain())
    built = inst.build()
    if not isinstance(built, E.Expression):
        return
    _expression(ctx, inst, built, expected)


def large(ctx, name):
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    inst = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    expected = TRUTH(inst.plain())
    built = inst.build()
    if not isinstance(built, E.Expression):
        return
    _expression(ctx, inst, built, expected)
    ctx.reach('large')


def _expression(ctx, inst, built, expected):
    C = loader.load('satisfy.constraint')
    con = C.ExpressionConstraint(built)
    scope = sorted(con.vars())
    bound = [n for n in scope if ctx.choice('bind ' + n, [True, False])]
    sub = {n: inst.substitution[n] for n in bound}
    if ctx.choice('unrelated', [False, True]):
        sub['w'] = 0
    what = dict(constraint=con, scope=scope)
    _unsatisfied(ctx, con, sub, bound == scope, expected, what)
    con.compile()
    _unsatisfied(ctx, con, sub, bound == scope, expected, dict(what, compiled=True))


def all_different(ctx, n):
    C = loader.load('satisfy.constraint')
    names = ['x', 'b', 'a', 'c', 'd'][:n]
    values = {v: ctx.int(v, -10 ** 6, 10 ** 6) for v in names}
    con = C.AllDifferentConstraint(names)
    bound = [v for v in names if ctx.choice('bind ' + v, [True, False])]
    sub = {v: values[v] for v in bound}
    sub['w'] = ctx.int('w', -10 ** 6, 10 ** 6)
    expected = DISTINCT([values[v] for v in names])
    got = TRUTH(con.unsatisfied(dict(sub)))
    if len(bound) < n:
        ctx.check(NOT(got), "all-different violated although a variable is not bound", sub=sub)
        return
    ctx.check(IFF(got, NOT(expected)), "all-different violated without equal values, or satisfied with some", sub=sub)
    value = TRUTH(con.evaluate(dict(sub)))
    ctx.check(IFF(value, expected), "all-different does not evaluate to distinctness", sub=sub)
    ctx.reach('all different holds' if expected else 'all different violated')


def constant(ctx):
    C = loader.load('satisfy.constraint')
    value = ctx.choice('value', [True, False, 1, 0, 2])
    con = C.ConstConstraint(value)
    sub = {'x': 1} if ctx.bool('extra') else {}
    ctx.check(bool(con.unsatisfied(sub)) == (not value), "constant constraint decided wrongly", value=value)


def user(ctx, n):
    """A constraint class of the user's own, over an arbitrary relation."""
    C = loader.load('satisfy.constraint')
    names = ['x', 'y', 'z', 'u', 'v'][:n]
    bits = {t: ctx.bool('r{}'.format(t)) for t in itertools.product((0, 1), repeat=n)}

    class Table(C.Constraint):
        def evaluate(self, substitution):
            return bits[tuple(substitution[v] for v in names)]

    con = Table(names)
    point = tuple(ctx.choice('v' + v, [0, 1]) for v in names)
    bound = [v for v in names if ctx.choice('bind ' + v, [True, False])]
    sub = {v: x for v, x in zip(names, point) if v in bound}
    _unsatisfied(ctx, con, sub, len(bound) == n, TRUTH(bits[point]), dict(point=point))
    ctx.reach('user')
