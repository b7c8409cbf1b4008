"""E01: built expressions compute what the Python operators wrote."""
import itertools

from symex import loader
from symex.runner import Job
from . import _expr as X

BOUNDS = [
    "all trees with 1 or 2 binary operators out of + - * / % ** == != < <= > >= & | (both shapes), and all trees with 3 "
    "(quick) or 4 (thorough) operators out of + - *; unary - + abs above, between and below them",
    "every leaf is a variable, raw integer, Const or Parameter; repeated variables included",
    "integers in [-10^6, 10^6]; [-2, 3] in trees with ** (exponents are enumerated by the solver)",
    "152 larger trees (checks/_expr.py LARGE: up to 9 leaves and 3 nested unary operators), integers in [-10^6, 10^6] ([-30, 30] with *, "
    "[-4, 4] with / or %)",
    "trees with 1 operator and around one: integers within 2 of 0, 2^31, 2^53, -2^63 and 10^25",
]
OUTSIDE = ["larger trees; operators applied to raw integers only (Python's own)",
           "non-integer leaves"]
WITNESSES = ['evaluated', 'number result', 'refused truth value', 'large', 'huge']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    kinds3 = 'VRCP' if thorough else 'VRC'
    for op in X.BINARY:
        out.append(Job('trees', const_hash=False, trees=[('b', op, ('l', 0), ('l', 1))], kinds='VRCP',
                       names=[['x', 'y'], ['x', 'x']]))
    for op in X.UNARY:
        out.append(Job('trees', const_hash=False,
                       trees=[('u', op, ('l', 0))] + [('u', op, ('u', o2, ('l', 0))) for o2 in X.UNARY],
                       kinds='VCP', names=[['x']]))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('trees', const_hash=False, trees=trees, kinds=kinds3,
                       names=[['x', 'y', 'z'], ['x', 'y', 'x']] if thorough else [['x', 'y', 'x']], weight=3))
    # unary above and below a binary operator
    for op, u in itertools.product(X.BINARY, ['neg', 'abs']):
        trees = [('u', u, ('b', op, ('l', 0), ('l', 1))),
                 ('b', op, ('u', u, ('l', 0)), ('l', 1)),
                 ('b', op, ('l', 0), ('u', u, ('l', 1)))]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VRC', names=[['x', 'y']]))
    # flattening of sums and products
    n = 4
    for opl in itertools.product(['+', '-', '*'], repeat=n - 1):
        for s in X.shapes(n):
            out.append(Job('trees', const_hash=False, trees=[X.with_ops(s, opl)],
                           kinds='VRC' if thorough else 'VR',
                           names=[['x', 'y', 'z', 'x']]))
    if thorough:
        n = 5
        for opl in itertools.product(['+', '*'], repeat=n - 1):
            for s in X.shapes(n):
                out.append(Job('trees', const_hash=False, trees=[X.with_ops(s, opl)], kinds='VR',
                               names=[['x', 'y', 'z', 'x', 'y']]))
    for name in X.LARGE:
        out.append(Job('large', const_hash=False, name=name, weight=2))
    for op in X.BINARY:
        out.append(Job('huge', const_hash=False, tree=('b', op, ('l', 0), ('l', 1)), kinds=['VV', 'VC', 'RV', 'PV', 'CC']))
        out.append(Job('huge', const_hash=False, tree=('b', op, ('u', 'neg', ('l', 0)), ('b', '+', ('l', 1), ('l', 2))), kinds=['VVC']))
        out.append(Job('huge', const_hash=False, tree=('b', '+', ('b', op, ('l', 0), ('l', 1)), ('u', 'abs', ('l', 2))), kinds=['VCV']))
    out.append(Job('truth'))
    return out


def trees(ctx, trees, kinds, names):
    E = loader.load('satisfy.expression')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    names = ctx.choice('names', names)
    combo = ctx.choice('kinds', X.kind_combos(tree, kinds))
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, names, lo, hi, E)
    expected = inst.plain()
    built = inst.build()
    value = X.evaluate(E, built, inst.substitution)
    ctx.check(value == expected, "value of the built expression differs from the plain calculation",
              tree=tree, kinds=combo, values=inst.values, built=built, got=value, expected=expected)
    ctx.reach('evaluated' if isinstance(built, E.Expression) else 'number result')


def large(ctx, name):
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    inst = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    expected = inst.plain()
    built = inst.build()
    value = X.evaluate(E, built, inst.substitution)
    ctx.check(value == expected, "value of the built expression differs from the plain calculation",
              tree=tree, kinds=kinds, values=inst.values, built=built, got=value, expected=expected)
    ctx.reach('large')


def huge(ctx, tree, kinds):
    """No precision is lost near and beyond the limits of machine numbers."""
    E = loader.load('satisfy.expression')
    tree = X.totuple(tree)
    inst = X.huge(ctx, E, tree, ctx.choice('kinds', kinds), ['x', 'y', 'x'])
    expected = inst.plain()
    built = inst.build()
    value = X.evaluate(E, built, inst.substitution)
    ctx.check(value == expected, "value of the built expression differs from the plain calculation",
              tree=tree, values=inst.values, built=built, got=value, expected=expected)
    ctx.reach('huge')


def truth(ctx):
    """An expression has no truth value: 'a < x < b' must not lose 'a < x'."""
    E = loader.load('satisfy.expression')
    op = ctx.choice('op', X.BINARY)
    x, y = E.Variable('x'), E.Variable('y')
    v = X.BUILD[op](x, y)
    try:
        bool(v)
    except TypeError:
        refused = True
    else:
        refused = False
    ctx.check(refused, "an expression is silently used as a truth value", op=op)
    ctx.reach('refused truth value')
