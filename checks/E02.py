"""E02: compiled expressions compute the same value as interpreted ones."""
import itertools

from symex import loader
from symex.api import Discard
from symex.runner import Job
from . import _expr as X

BOUNDS = [
    "all trees with 1 or 2 binary operators out of + - * / % ** == != < <= > >= & | over variables, constants and parameters; "
    "3 operators out of - * == & | % ** (quick: - * == & |); unary - abs and 'not' around and below each operator",
    "Sum, Prod (2-4 operands, with and without constant), Not, Neg, Abs built directly",
    "integers in [-10^6, 10^6], [-2, 3] in trees with ** (negative exponents included)",
    "152 larger trees (checks/_expr.py LARGE: up to 9 leaves and 3 nested unary operators), integers in [-10^6, 10^6] ([-30, 30] with *, "
    "[-4, 4] with / or %); one and two operators on integers within 2 of 0, 2^31, 2^53, -2^63 and 10^25",
    "variable names: keywords, builtins, names used by the generated code, unicode; extra names in the assignment",
]
OUTSIDE = ["larger trees", "non-integer constants"]
WITNESSES = ['compared', 'odd name', 'constraint', 'large', 'huge']

ODD = ['sum', 'prod', 'abs', 'lambda', 'if', 'None', 'True', 'self', 'eval', 'substitution', 'vars', 'args', 'kwargs',
       'a_1', 'int', 'e\ufb01', 'x\u00b2', 'and', 'not', 'not_', 'x__vars', '__vars', 'x y', "it's", 'a"b', 'k[0]', '{}', '((', 'a\\', '%s', '',
       'lambda **__vars', '0', '#', 'line\nbreak', '__builtins__']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for op in X.BINARY:
        out.append(Job('trees', const_hash=False, trees=[('b', op, ('l', 0), ('l', 1))], kinds='VRCP',
                       names=[['x', 'y'], ['x', 'x']]))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VRCP' if thorough else 'VC' if '**' in (outer, inner) else 'VCP',
                       names=[['x', 'y', 'x']], weight=3))
    un = ['neg', 'abs', 'Not']
    for op in X.BINARY:
        trees = []
        for u in un:
            trees += [('u', u, ('b', op, ('l', 0), ('l', 1))),
                      ('b', op, ('u', u, ('l', 0)), ('l', 1)),
                      ('b', op, ('l', 0), ('u', u, ('l', 1)))]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VCP', names=[['x', 'y']]))
    for u, v in itertools.product(un, repeat=2):
        out.append(Job('trees', const_hash=False, trees=[('u', u, ('u', v, ('l', 0)))], kinds='VCP', names=[['x']]))
    # direct constructors, nested in and around operators
    for ctor in ('Sum', 'Prod'):
        trees = []
        for n in (2, 3):
            trees.append(('n', ctor) + tuple(('l', i) for i in range(n)))
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VCP', names=[['x', 'y', 'x']]))
        for op in X.BINARY:
            trees = [('b', op, ('n', ctor, ('l', 0), ('l', 1)), ('l', 2)),
                     ('b', op, ('l', 0), ('n', ctor, ('l', 1), ('l', 2))),
                     ('n', ctor, ('b', op, ('l', 0), ('l', 1)), ('l', 2)),
                     ('n', ctor, ('l', 0), ('b', op, ('l', 1), ('l', 2))),
                     ('n', ctor, ('l', 0), ('l', 1), ('b', op, ('l', 1), ('l', 2)))]
            out.append(Job('trees', const_hash=False, trees=trees, kinds='VC', names=[['x', 'y', 'z']], weight=2))
        trees = [('u', u, ('n', ctor, ('l', 0), ('l', 1))) for u in un]
        trees += [('n', ctor, ('u', u, ('l', 0)), ('l', 1)) for u in un]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='VCP', names=[['x', 'y']]))
    pool = ['-', '*', '==', '&', '|', '%', '**'] if thorough else ['-', '*', '==', '|', '&']
    fixed = ['VCVP', 'CVPV'] if thorough else ['VCVP']
    for opl in itertools.product(pool, repeat=3):
        trees = [X.with_ops(s, opl) for s in X.shapes(4)]
        out.append(Job('trees', const_hash=False, trees=trees, kinds='', fixed=fixed,
                       names=[['x', 'y', 'x', 'z']], weight=2))
    for name in X.LARGE:
        out.append(Job('large', const_hash=False, name=name, weight=2))
    for op in X.BINARY:
        out.append(Job('huge', const_hash=False, tree=('b', op, ('l', 0), ('l', 1)), kinds=['VV', 'VC', 'CV', 'PV']))
        out.append(Job('huge', const_hash=False, tree=('b', op, ('u', 'neg', ('l', 0)), ('n', 'Sum', ('l', 1), ('l', 2))), kinds=['VVC']))
    for op in X.BINARY:
        out.append(Job('names', const_hash=False, op=op))
    out.append(Job('constraint', const_hash=False))
    return out


def table(E):
    t = dict(X.BUILD)
    t['Not'] = E.Not
    t['Sum'] = lambda *a: E.Sum(a)
    t['Prod'] = lambda *a: E.Prod(a)
    return t


def compare(ctx, E, built, substitution, what):
    try:
        expected = built.evaluate(substitution)
    except Exception:
        raise Discard()         # nothing is claimed where direct evaluation fails
    extra = dict(substitution, zz=7, sum_=3, __class__=1)
    for how in (built.compile_py_function, built.as_function):
        function = how()
        for sub in (substitution, extra):
            got = function(**sub)
            ctx.check(got == expected, "compiled value differs from the interpreted one",
                      built=built, got=got, expected=expected, assignment=substitution, **what)
    ctx.reach('compared')


def trees(ctx, trees, kinds, names, fixed=None):
    E = loader.load('satisfy.expression')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    names = ctx.choice('names', names)
    combos = [tuple(k) for k in fixed if X.well_kinded(tree, k)] if fixed else X.kind_combos(tree, kinds)
    if not combos:
        raise Discard()
    combo = ctx.choice('kinds', combos)
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, names, lo, hi, E)
    try:
        built = inst.build(table(E))
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(built, E.Expression):
        return
    compare(ctx, E, built, inst.substitution, dict(tree=tree, kinds=combo, values=inst.values))


def large(ctx, name):
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    inst = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    try:
        built = inst.build()
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    compare(ctx, E, built, inst.substitution, dict(tree=tree, kinds=kinds, values=inst.values))
    ctx.reach('large')


def huge(ctx, tree, kinds):
    E = loader.load('satisfy.expression')
    tree = X.totuple(tree)
    inst = X.huge(ctx, E, tree, ctx.choice('kinds', kinds), ['x', 'y', 'x'])
    try:
        built = inst.build(table(E))
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(built, E.Expression):
        return
    compare(ctx, E, built, inst.substitution, dict(tree=tree, values=inst.values))
    ctx.reach('huge')


def names(ctx, op):
    E = loader.load('satisfy.expression')
    n = len(ODD)
    i = ctx.index('name', n)
    a, b = ODD[i], ODD[(i + 1) % n]
    x, y = ctx.int('x', -2, 3), ctx.int('y', -2, 3)
    x_, y_ = E.Variable(a), E.Variable(b)
    try:
        built = X.BUILD[op](X.BUILD[op](x_, abs(y_)), E.Sum([x_, y_, x_ * y_]))
        two = E.Prod([x_, y_, x_ + 1, y_ - 1])
    except ZeroDivisionError:
        raise Discard()
    compare(ctx, E, two, {a: x, b: y}, dict(names=(a, b)))
    compare(ctx, E, built, {a: x, b: y}, dict(names=(a, b)))
    ctx.reach('odd name')


def constraint(ctx):
    """An expression constraint decides the same before and after compilation."""
    E = loader.load('satisfy.expression')
    C = loader.load('satisfy.constraint')
    op = ctx.choice('op', X.BINARY)
    x, y, c = ctx.int('x', -2, 3), ctx.int('y', -2, 3), ctx.int('c', -2, 3)
    extra = ctx.choice('extra', [{}, {'z': 4, 'prod': 2}])
    sub = dict(extra, x=x, y=y)
    try:
        con = C.ExpressionConstraint(X.BUILD[op](X.BUILD[op](E.Variable('x'), c), E.Variable('y')))
        first = con.evaluate(dict(sub))
    except (ZeroDivisionError, TypeError):
        raise Discard()
    for step in ctx.choice('steps', [['compile'], ['compile', 'compile'], ['compile', 'uncompile'],
                                     ['evaluate_function'], ['uncompile']]):
        getattr(con, step)()
        again = con.evaluate(dict(sub))
        ctx.check(again == first, "the constraint's value depends on compilation", op=op, step=step, sub=sub,
                  got=again, expected=first)
        bad = con.unsatisfied(dict(sub))
        ctx.check((not bad) == (not not first), "unsatisfied() disagrees with evaluate()", op=op, step=step, sub=sub)
    ctx.reach('constraint')
