"""Expression trees shared by the expression checks.

A tree is ('b', op, left, right) | ('u', op, operand) | ('l', i): leaf number i.
The kind of each leaf is chosen separately:
  V variable, R raw integer, C Const(integer), P parameter.
"""
import itertools
import operator

from symex.api import ITE, TRUTH, Discard

ARITH = ['+', '-', '*', '/', '%']
CMP = ['==', '!=', '<', '<=', '>', '>=']
LOGIC = ['&', '|']
BINARY = ARITH + ['**'] + CMP + LOGIC
UNARY = ['neg', 'pos', 'abs']

BUILD = {
    '+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv,
    '%': operator.mod, '**': operator.pow, '==': operator.eq, '!=': operator.ne,
    '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
    '&': operator.and_, '|': operator.or_,
    'neg': operator.neg, 'pos': operator.pos, 'abs': abs,
}


def _power(a, b):
    if b < 0:
        raise Discard()     # the result is not an integer
    return a ** b


PLAIN = dict(BUILD)
PLAIN['/'] = operator.floordiv
PLAIN['**'] = _power
PLAIN['&'] = lambda a, b: ITE(TRUTH(a), b, a)
PLAIN['|'] = lambda a, b: ITE(TRUTH(a), a, b)


def leaves(tree):
    if tree[0] == 'l':
        return [tree[1]]
    return [i for sub in tree[2:] for i in leaves(sub)]


def ops(tree):
    if tree[0] == 'l':
        return []
    return [tree[1]] + [o for sub in tree[2:] for o in ops(sub)]


def fold(tree, table, leaf):
    if tree[0] == 'l':
        return leaf(tree[1])
    return table[tree[1]](*[fold(sub, table, leaf) for sub in tree[2:]])


def is_number(tree, kinds):
    """The tree builds a plain integer: raw integers, and comparisons or logical
    operations between constants (which are decided at once)."""
    if tree[0] == 'l':
        return kinds[tree[1]] == 'R'
    return (tree[1] in CMP + LOGIC and all(kinds[i] in 'RC' for i in leaves(tree))) or \
        all(is_number(sub, kinds) for sub in tree[2:])


def well_kinded(tree, kinds):
    """No operation between plain integers only (that would be Python's own)."""
    if tree[0] == 'l':
        return True
    return not all(is_number(sub, kinds) for sub in tree[2:]) and all(well_kinded(sub, kinds) for sub in tree[2:])


def kind_combos(tree, kinds):
    n = len(leaves(tree))
    return [k for k in itertools.product(kinds, repeat=n) if well_kinded(tree, k)]


def shapes(n):
    """Binary tree shapes with n leaves, as nested pairs of leaf numbers."""
    def rec(lo, hi):
        if hi - lo == 1:
            yield lo
            return
        for mid in range(lo + 1, hi):
            for a in rec(lo, mid):
                for b in rec(mid, hi):
                    yield (a, b)
    return list(rec(0, n))


def with_ops(shape, op_list):
    """All trees of the shape with the operators in op_list (pre-order)."""
    it = iter(op_list)

    def rec(s):
        if isinstance(s, int):
            return ('l', s)
        op = next(it)
        return ('b', op, rec(s[0]), rec(s[1]))
    return rec(shape)


def totuple(tree):
    """Trees come back from JSON as lists."""
    return tuple(totuple(t) if isinstance(t, (list, tuple)) else t for t in tree)


UNDEFINED = (ZeroDivisionError, OverflowError, ValueError, TypeError)


def bounds_for(tree):
    """Range of the leaf values: wide, but small where it must be enumerated."""
    return (-2, 3) if '**' in ops(tree) else (-10 ** 6, 10 ** 6)


class Instance(object):
    """One symbolic instance: leaf kinds, values, and what is built from them."""

    def __init__(self, ctx, tree, kinds, names, lo, hi, expression_module, suffix='', values=None):
        self.ctx = ctx
        self.tree = tree
        self.kinds = kinds
        self.names = names
        self.values = {}            # leaf -> value
        self.substitution = {}
        self.module = expression_module
        by_name = {}
        for i in leaves(tree):
            key = (kinds[i], names[i]) if kinds[i] in 'VP' else (kinds[i], i)
            if key not in by_name:
                label = "{}{}{}".format(kinds[i], key[1], suffix)
                by_name[key] = values(label) if values else ctx.int(label, lo, hi)
            self.values[i] = by_name[key]
            if kinds[i] == 'V':
                self.substitution[names[i]] = self.values[i]
        self.parameters = {}
        self.parameter_values = {}

    def var_names(self):
        return sorted(set(self.names[i] for i in leaves(self.tree) if self.kinds[i] == 'V'))

    def leaf(self, i):
        kind, value = self.kinds[i], self.values[i]
        m = self.module
        if kind == 'V':
            return m.Variable(self.names[i])
        if kind == 'R':
            return value
        if kind == 'C':
            return m.Const(value)
        name = 'p_' + self.names[i]
        if name not in self.parameters:
            self.parameters[name] = m.Parameter(name, value)
            self.parameter_values[name] = value
        return self.parameters[name]

    def plain(self):
        """The same calculation on integers; Discard where it is undefined."""
        try:
            return fold(self.tree, PLAIN, lambda i: self.values[i])
        except (ZeroDivisionError, OverflowError):
            raise Discard()

    def build2(self, tree, table):
        """A part of the tree, built afresh (parameters are shared)."""
        return fold(tree, table, self.leaf)

    def build(self, table=BUILD):
        return fold(self.tree, table, self.leaf)


def evaluate(module, built, substitution):
    if isinstance(built, module.Expression):
        return built.evaluate(substitution)
    return built


# -- larger trees -------------------------------------------------------------
LARGE_NAMES = ['x', 'y_', 'X', 'x10', 'x1', 'a_b_', 'n__0']


def _large():
    """A fixed set of larger trees: name -> (tree, kinds, names)."""
    import random
    pick = random.Random('larger trees')

    def number(shape, op_of, unary):
        counter = itertools.count()

        def rec(s, depth):
            t = ('l', next(counter)) if s is None else ('b', op_of(depth), rec(s[0], depth + 1), rec(s[1], depth + 1))
            for u in unary(depth):
                t = ('u', u, t)
            return t
        return rec(shape, 0)

    def shape(n, how):
        if n == 1:
            return None
        k = 1 if how == 'right' else n - 1 if how == 'left' else n // 2 if how == 'even' else pick.randint(1, n - 1)
        return (shape(k, how), shape(n - k, how))

    out = {}

    def add(name, tree, kinds=None, names=None):
        n = len(leaves(tree))
        if kinds is None:
            kinds = ''.join(pick.choice('VVVVCRP') for _ in range(n))
        if names is None:
            names = [pick.choice(LARGE_NAMES[:5]) for _ in range(n)]
        if well_kinded(tree, kinds):
            out[name] = (tree, kinds, names)

    none = lambda depth: ()
    for op in ('+', '*'):
        for how in ('left', 'right', 'even', 'random'):
            for n in (5, 7):
                add('{} {} {}'.format(op, how, n), number(shape(n, how), lambda d: op, none), 'V' * n)
        add('{} same'.format(op), number(shape(5, 'left'), lambda d: op, none), 'VVVVV', ['x'] * 5)
        add('{} twice'.format(op), number(shape(6, 'random'), lambda d: op, none), 'VVVVVV', ['x', 'y', 'y', 'x', 'z', 'x'])
        add('{} const'.format(op), number(shape(6, 'left'), lambda d: op, none), 'VCVCVR', list('xyzuvw'))
        add('{} many'.format(op), number(shape(9, 'even'), lambda d: op, none), 'V' * 9, list('abcdefghi'))
    for op in BINARY:
        if op == '**':
            continue
        for how in ('left', 'right', 'random'):
            add('{} {} 4'.format(op, how), number(shape(4, how), lambda d: op, none), 'VVVV', ['x', 'y', 'z', 'x'])
    for u in itertools.product(UNARY, repeat=3):
        t = ('l', 0)
        for o in u:
            t = ('u', o, t)
        add(' '.join(u), t, 'V', ['y_'])
        add(' '.join(u) + ' of a sum', ('b', '-', ('u', u[0], ('u', u[1], ('b', '+', ('l', 0), ('l', 1)))), ('u', u[2], ('l', 2))),
            'VVV', ['x', 'y_', 'x'])
    for k in range(40):
        n = pick.choice((4, 5, 5, 6, 7))
        few = pick.sample(['+', '-', '*', '+', '-'] + CMP + LOGIC + ['%', '/'], 4)
        add('random {}'.format(k), number(shape(n, 'random'), lambda d: pick.choice(few),
                                          lambda d: [pick.choice(UNARY)] if pick.random() < .2 else ()))
    return out


LARGE = _large()


def large_bounds(tree):
    """Small where products or divisions of several unknowns occur."""
    o = ops(tree)
    if '**' in o:
        return (-2, 3)
    if '/' in o or '%' in o:
        return (-4, 4)
    return (-30, 30) if '*' in o else (-10 ** 6, 10 ** 6)


BASES = [0, 2 ** 31, 2 ** 53, -2 ** 63, 10 ** 25]


def huge(ctx, E, tree, kinds, names):
    """An instance with integers near the limits of machine numbers."""
    def value(label):
        base = ctx.choice('base ' + label, BASES if '**' not in ops(tree) or kinds == 'V' else [0])
        return base + ctx.int(label, -2, 2)
    return Instance(ctx, tree, kinds, names, 0, 0, E, values=value)
