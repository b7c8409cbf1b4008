"""E04: structural equality of expressions implies equal values."""
import itertools

from symex import loader
from symex.api import Discard
from symex.runner import Job
from . import _expr as X
from .E02 import table

BOUNDS = [
    "all pairs of trees with 1 operator (binary, unary, Sum, Prod, leaf) and all pairs of trees with 2 binary operators that "
    "share one of them; leaves are variables, constants and parameters",
    "Sum and Prod of 0-4 operands with a constant, in all pairs",
    "152 larger trees (checks/_expr.py LARGE) against a copy with one operator, name or constant changed or two leaves swapped",
    "every tree of up to 2 binary operators against itself and a rebuilt copy",
    "integers in [-10^6, 10^6], [-2, 3] in trees with **",
]
OUTSIDE = ["larger trees", "two different parameters of the same name"]
WITNESSES = ['equal', 'different', 'rebuilt', 'equal constants', 'accumulations', 'large']

ONE = [('b', op, ('l', 0), ('l', 1)) for op in X.BINARY] + \
      [('u', u, ('l', 0)) for u in ('neg', 'abs', 'Not')] + \
      [('n', c, ('l', 0), ('l', 1)) for c in ('Sum', 'Prod')] + \
      [('l', 0)]


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for left in ONE:
        out.append(Job('pairs', const_hash=False, lefts=[left], rights=ONE,
                       kinds='VCP' if thorough else 'VC', names2=[['x', 'y'], ['y', 'x']], weight=4))
    for left in ONE:
        out.append(Job('pairs', const_hash=False, lefts=[left], rights=[left], kinds='VCP',
                       names2=[['x', 'y'], ['y', 'x'], ['x', 'x']]))
    pool = X.BINARY if thorough else ['+', '*', '-', '**', '==', '&']
    for outer in pool:
        for inner in pool:
            lefts = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
            rights = lefts + [X.with_ops(s, [inner, outer]) for s in X.shapes(3)]
            out.append(Job('pairs', const_hash=False, lefts=lefts, rights=rights, kinds='', fixed=['VVV', 'VCV', 'CVV'],
                           names2=[['x', 'y', 'x'], ['y', 'x', 'x']], weight=2))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('rebuilt', const_hash=False, trees=trees, kinds='VCP' if thorough else 'VC'))
    out.append(Job('rebuilt', const_hash=False, trees=ONE, kinds='VCP'))
    for name in X.LARGE:
        if X.LARGE[name][1].count('C') > 1 and len(X.LARGE[name][1]) > 5 and not thorough:
            continue
        out.append(Job('large', const_hash=False, name=name, weight=2))
    for c1, c2 in itertools.product(['Sum', 'Prod'], repeat=2):
        out.append(Job('accumulations', const_hash=False, c1=c1, c2=c2))
    return out


def _value(built, sub):
    try:
        return built.evaluate(sub)
    except (ZeroDivisionError, OverflowError):
        return 'undefined'


def _same_value(ctx, a, b, sub, what):
    va, vb = _value(a, sub), _value(b, sub)
    if isinstance(va, str) or isinstance(vb, str):
        ctx.check(va is vb or (isinstance(va, str) and isinstance(vb, str)),
                  "structurally equal, but only one of them has a value", left=a, right=b, sub=sub, **what)
    else:
        ctx.check(va == vb, "structurally equal, but the values differ", left=a, right=b, lv=va, rv=vb, sub=sub, **what)


def pairs(ctx, lefts, rights, kinds, names2, fixed=None):
    E = loader.load('satisfy.expression')
    left = ctx.choice('left', [X.totuple(t) for t in lefts])
    right = ctx.choice('right', [X.totuple(t) for t in rights])

    def combos(tree):
        if fixed:
            return [k for k in fixed if X.well_kinded(tree, k)]
        return X.kind_combos(tree, kinds)
    k1 = ctx.choice('k1', combos(left))
    k2 = ctx.choice('k2', combos(right))
    n1 = names2[0]
    n2 = ctx.choice('n2', names2)
    lo, hi = (-2, 3) if '**' in X.ops(left) + X.ops(right) else (-10 ** 6, 10 ** 6)
    a = X.Instance(ctx, left, k1, n1, lo, hi, E)
    cache = {}
    for i in X.leaves(left):
        if k1[i] in 'VP':
            cache[k1[i] + n1[i]] = a.values[i]

    def value(label):
        # variables and parameters of one name are shared by both trees, constants are not
        if label not in cache:
            cache[label] = ctx.int(label + "'", lo, hi)
        return cache[label]
    b = X.Instance(ctx, right, k2, n2, lo, hi, E, values=value)
    b.parameters = a.parameters
    try:
        ea, eb = a.build(table(E)), b.build(table(E))
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(ea, E.Expression) or not isinstance(eb, E.Expression):
        return
    eq, eq2 = bool(ea.equals(eb)), bool(eb.equals(ea))
    ctx.check(eq == eq2, "structural equality is not symmetric", left=ea, right=eb, equals=eq, reverse=eq2)
    if eq:
        sub = dict(a.substitution)
        sub.update(b.substitution)
        _same_value(ctx, ea, eb, sub, dict(k1=k1, k2=k2))
        ctx.reach('equal')
        if 'C' in k1:
            ctx.reach('equal constants')
    else:
        ctx.reach('different')


def rebuilt(ctx, trees, kinds):
    E = loader.load('satisfy.expression')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    combo = ctx.choice('kinds', X.kind_combos(tree, kinds))
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, ['x', 'y', 'x'], lo, hi, E)
    try:
        a = inst.build(table(E))
        b = inst.build(table(E))
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(a, E.Expression):
        return
    ctx.check(bool(a.equals(a)), "an expression is not equal to itself", expr=a)
    ctx.check(bool(a.equals(b)) and bool(b.equals(a)), "rebuilding gives a different expression", expr=a)
    ctx.reach('rebuilt')


def large(ctx, name):
    """A larger tree against a copy of it with one place changed."""
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    n = len(X.leaves(tree))
    places = []

    def nodes(t, path):
        if t[0] != 'l':
            places.append(path)
            for k, sub in enumerate(t[2:], 2):
                nodes(sub, path + (k,))
    nodes(tree, ())
    change = ctx.choice('change', ['nothing', 'operator', 'name', 'swap', 'constant'])
    names2, kinds2, tree2 = list(names), list(kinds), tree
    if change == 'operator':
        at = ctx.choice('at', places)

        def rec(t, path):
            if not path:
                if t[0] == 'u':
                    return ('u', ctx.choice('new', [u for u in X.UNARY if u != t[1]]), t[2])
                return (t[0], ctx.choice('new', [o for o in ('+', '-', '*', '<', '==', '|') if o != t[1]])) + t[2:]
            return t[:path[0]] + (rec(t[path[0]], path[1:]),) + t[path[0] + 1:]
        tree2 = rec(tree, at)
    elif change == 'name':
        i = ctx.index('at', n)
        names2[i] = ctx.choice('new', sorted(set(names)) + ['other'])
    elif change == 'swap':
        i = ctx.index('at', n)
        j = ctx.index('with', n)
        names2[i], names2[j] = names2[j], names2[i]
        kinds2[i], kinds2[j] = kinds2[j], kinds2[i]
    elif change == 'constant':
        i = ctx.index('at', n)
        kinds2[i] = 'C'
    if not X.well_kinded(tree2, kinds2):
        raise Discard()
    if '/' in X.ops(tree2) or '%' in X.ops(tree2):
        lo, hi = max(lo, -4), min(hi, 4)
    elif '*' in X.ops(tree2):
        lo, hi = max(lo, -30), min(hi, 30)
    a = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    cache = {kinds[i] + str(names[i] if kinds[i] in 'VP' else i): a.values[i] for i in range(n) if change == 'nothing' or kinds[i] in 'VP'}

    def value(label):
        if label not in cache:
            cache[label] = ctx.int(label + "'", lo, hi)
        return cache[label]
    b = X.Instance(ctx, tree2, kinds2, names2, lo, hi, E, values=value)
    b.parameters = a.parameters
    try:
        ea, eb = a.build(), b.build()
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(ea, E.Expression) or not isinstance(eb, E.Expression):
        return
    eq, eq2 = bool(ea.equals(eb)), bool(eb.equals(ea))
    ctx.check(eq == eq2, "structural equality is not symmetric", left=ea, right=eb, equals=eq, reverse=eq2)
    if change == 'nothing':
        ctx.check(eq, "rebuilding gives a different expression", expr=ea)
    if eq:
        _same_value(ctx, ea, eb, dict(a.substitution, **b.substitution), dict(change=change))
        ctx.reach('large')


def accumulations(ctx, c1, c2):
    """n-ary sums and products: operand order and count, constant."""
    E = loader.load('satisfy.expression')
    x, y = E.Variable('x'), E.Variable('y')
    pool = [[], [x], [y], [x, y], [y, x], [x, x], [x, y, x], [x, x, y], [y, x, x], [x, y, y], [x, x, y, y],
            [x, y, x, y], [x, x, x, y], [y, y, x, y], [x, x, x], [E.Neg(x), y], [x * y, x], [x + y, x]]
    l1 = ctx.choice('operands', pool)
    l2 = ctx.choice("operands'", pool)
    k1, k2 = ctx.int('const', -10 ** 6, 10 ** 6), ctx.int("const'", -10 ** 6, 10 ** 6)
    a = getattr(E, c1)(l1, const=k1)
    b = getattr(E, c2)(l2, const=k2)
    eq, eq2 = bool(a.equals(b)), bool(b.equals(a))
    ctx.check(eq == eq2, "structural equality is not symmetric", left=a, right=b)
    if eq:
        sub = {'x': ctx.int('x', -1000, 1000), 'y': ctx.int('y', -1000, 1000)}
        _same_value(ctx, a, b, sub, {})
        ctx.reach('accumulations')
