"""E03: reported variables are exactly those an expression needs."""
import itertools

from symex import loader
from symex.api import Discard
from symex.runner import Job
from . import _expr as X
from .E02 import ODD, table

BOUNDS = [
    "all trees with 1 or 2 binary operators over variables, raw integers, Const and parameters, unary operators around and "
    "below them, Sum/Prod/Not built directly; for each every subset of bound variables",
    "all-different constraints over 0-4 variables, expression constraints over the same trees",
    "larger trees (checks/_expr.py LARGE, with few variables; thorough: all), odd variable names",
    "integers in [-10^6, 10^6], [-2, 3] in trees with **",
]
OUTSIDE = ["larger trees"]
WITNESSES = ['evaluated with reported only', 'missing variable refused', 'all different', 'large', 'odd name']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for op in X.BINARY:
        out.append(Job('trees', const_hash=False, trees=[('b', op, ('l', 0), ('l', 1))], kinds='VRCP',
                       names=[['x', 'y'], ['x', 'x']]))
        trees = []
        for u in ['neg', 'abs', 'Not']:
            trees += [('u', u, ('b', op, ('l', 0), ('l', 1))), ('b', op, ('u', u, ('l', 0)), ('l', 1)),
                      ('b', op, ('l', 0), ('u', u, ('l', 1)))]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VP', names=[['x', 'y']]))
        for ctor in ('Sum', 'Prod'):
            trees = [('b', op, ('n', ctor, ('l', 0), ('l', 1)), ('l', 2)),
                     ('n', ctor, ('l', 0), ('b', op, ('l', 1), ('l', 2)))]
            out.append(Job('trees', const_hash=False, trees=trees, kinds='VCP' if thorough else 'VP',
                           names=[['x', 'y', 'x']]))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VCP' if thorough else 'VP',
                       names=[['x', 'y', 'z'], ['x', 'y', 'x']] if thorough else [['x', 'y', 'x']], weight=2))
    if thorough:
        for opl in itertools.product(['+', '*', '-'], repeat=3):
            out.append(Job('trees', const_hash=False, trees=[X.with_ops(s, opl) for s in X.shapes(4)], kinds='VC',
                           names=[['x', 'y', 'z', 'x']], weight=2))
    for name in X.LARGE:
        if thorough or X.LARGE[name][0][0] == 'u' or 'of a sum' in name or len(set(X.LARGE[name][2])) < 5:
            out.append(Job('large', const_hash=False, name=name))
    out.append(Job('names'))
    out.append(Job('all_different'))
    return out


def trees(ctx, trees, kinds, names):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    names = ctx.choice('names', names)
    combo = ctx.choice('kinds', X.kind_combos(tree, kinds))
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, names, lo, hi, E)
    _report(ctx, inst, table(E), dict(tree=tree, kinds=combo, names=names))


def large(ctx, name):
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    _report(ctx, X.Instance(ctx, tree, kinds, names, lo, hi, E), X.BUILD, dict(tree=tree, kinds=kinds, names=names))
    ctx.reach('large')


def names(ctx):
    """The names are reported as they are."""
    E = loader.load('satisfy.expression')
    pool = ODD + ['x_', '_x', '__x__', 'X', 'x', 'x0', 'x00', 'x ', '']
    i = ctx.index('name', len(pool))
    j = ctx.choice('other', [(i + k) % len(pool) for k in (1, 2, 5)])
    op = ctx.choice('op', ['+', '==', '&', '%'])
    tree = ('b', op, ('u', 'neg', ('u', 'abs', ('l', 0))), ('b', '*', ('l', 1), ('l', 0)))
    names = [pool[i], pool[j]]
    _report(ctx, X.Instance(ctx, tree, 'VV', names, -9, 9, E), X.BUILD, dict(names=names))
    ctx.reach('odd name')


def _report(ctx, inst, operators, what):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    names = sorted(set(inst.names[i] for i in X.leaves(inst.tree)))
    try:
        built = inst.build(operators)
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(built, E.Expression):
        return
    what = dict(what, built=built)
    occurring = inst.var_names()
    for report in (built, C.ExpressionConstraint(built)):
        got = list(report.vars())
        ctx.check(sorted(got) == sorted(set(got)), "a variable is reported twice", got=got, **what)
        ctx.check(set(got) <= set(occurring), "a reported variable does not occur", got=got, **what)
    ctx.check(set(built.vars()) == set(got), "constraint and expression report different variables", **what)
    # every partial assignment, with unrelated names
    bound = [n for n in sorted(set(names)) if ctx.choice('bind ' + n, [False, True])]
    partial = {n: inst.substitution.get(n, 5) for n in bound}
    partial['unrelated'] = 3
    for report in (built, C.ExpressionConstraint(built)):
        free = list(report.free_vars(partial))
        ctx.check(sorted(free) == sorted(set(got) - set(bound)), "wrong free variables",
                  got=free, bound=bound, reported=got, **what)
    # full assignment with noise on everything that is not reported
    full = dict(inst.substitution, unrelated=3)
    for n in names:
        full['p_' + n] = 77
    for n in set(names) - set(got):
        full[n] = 55
    try:
        value = built.evaluate(full)
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    only = {n: full[n] for n in got}
    ctx.check(built.evaluate(only) == value, "evaluation needs or uses more than the reported variables", **what)
    ctx.reach('evaluated with reported only')
    missing = [n for n in got if n not in bound]
    if missing:
        partial = {n: full[n] for n in full if n not in missing}
        try:
            less = built.evaluate(partial)
        except Exception:
            ctx.reach('missing variable refused')
        else:
            ctx.reach('short circuit')
            ctx.check(less == value, "a value was invented for a missing variable", missing=missing,
                      got=less, full=value, **what)


def all_different(ctx):
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    n = ctx.index('n', 5)
    names = ['x', 'b', 'a', 'c'][:n]
    con = C.AllDifferentConstraint(names)
    got = list(con.vars())
    ctx.check(sorted(got) == sorted(names), "wrong variables of an all-different constraint", got=got)
    bound = [v for v in names if ctx.choice('bind ' + v, [False, True])]
    sub = {v: 1 for v in bound}
    sub['other'] = 1
    free = list(con.free_vars(sub))
    ctx.check(sorted(free) == sorted(set(names) - set(bound)), "wrong free variables of an all-different constraint",
              got=free, bound=bound)
    const = C.ConstConstraint(True)
    ctx.check(not list(const.vars()) and not list(const.free_vars(sub)), "a constant constraint reports variables")
    v = E.Variable('x')
    ctx.check(list(v.vars()) == ['x'] and list(v.free_vars({'x': 0})) == [], "wrong variables of a variable")
    p = E.Parameter('x', 1)
    ctx.check(list(p.vars()) == [] and list(p.free_vars({})) == [], "a parameter is reported as a variable")
    ctx.reach('all different')
