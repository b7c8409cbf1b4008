"""T03: the listing of a model shows the model that is solved."""
import ast
import builtins
import contextlib
import io
import itertools

from symex import loader
from symex.api import AND, DISTINCT, EQ, IFF, ITE, OR, TRUTH, Discard
from symex.runner import Job
from . import _expr as X

BOUNDS = [
    "expression text: all trees with 1 or 2 binary operators out of + - * / % ** == != < <= > >= & | over variables, constants, integers and "
    "parameters, unary - and abs around and below each operator, sums and products of up to 5 operands, 152 larger trees; "
    "symbolic integers in [-10^6, 10^6], [-2, 3] in trees with **, read back under a symbolic assignment",
    "listings: models of 0-3 variables and parameters (symbolic domain values and coefficients; lists, tuples, ranges), 0-3 constraints of every kind in "
    "every order, with up to 120 entries, entries of up to 2000 characters (domains of up to 300 values, names of up to 200 characters, sums, products and conjunctions of up to 60 operands), before and after runs; the listed domains and constraints, read back, have the same solutions",
]
OUTSIDE = ["the text of user-defined constraints, and what the listing says about a parameter's value"]
WITNESSES = ['text', 'power', 'large', 'all different', 'constant', 'expression', 'parameter', 'range', 'solved', 'many', 'long']


# -- reading ------------------------------------------------------------------
def number_token(name):
    return hasattr(builtins, name) and name.startswith('__sym_')


class Reader(object):
    """The value of a text under an assignment, by the usual rules."""

    def __init__(self, values):
        self.values = values

    def read(self, text):
        return self.visit(ast.parse(text.strip(), mode='eval').body)

    def listed(self, text):
        try:
            out = self.read(text)
        except (SyntaxError, AttributeError, KeyError, ValueError):
            return None
        return out if isinstance(out, list) else None

    def visit(self, node):
        return getattr(self, type(node).__name__)(node)

    def Constant(self, node):
        return node.value

    def Name(self, node):
        if number_token(node.id):
            return getattr(builtins, node.id)
        return self.values[node.id]

    def UnaryOp(self, node):
        assert isinstance(node.op, ast.USub)
        return -self.visit(node.operand)

    def BinOp(self, node):
        op = type(node.op).__name__
        if op in ('BitAnd', 'BitOr'):
            left, right = self.visit(node.left), self.visit(node.right)
            return ITE(TRUTH(left), right, left) if op == 'BitAnd' else ITE(TRUTH(left), left, right)
        table = dict(Add='+', Sub='-', Mult='*', Div='/', FloorDiv='/', Mod='%', Pow='**')
        return X.PLAIN[table[op]](self.visit(node.left), self.visit(node.right))

    def BoolOp(self, node):
        values = [self.visit(v) for v in node.values]
        out = values[-1]
        for v in reversed(values[:-1]):
            out = ITE(TRUTH(v), out, v) if isinstance(node.op, ast.And) else ITE(TRUTH(v), v, out)
        return out

    def Compare(self, node):
        table = dict(Eq='==', NotEq='!=', Lt='<', LtE='<=', Gt='>', GtE='>=')
        values = [self.visit(v) for v in [node.left] + node.comparators]
        parts = [X.PLAIN[table[type(op).__name__]](a, b) for op, a, b in zip(node.ops, values, values[1:])]
        return parts[0] if len(parts) == 1 else AND(*parts)

    def List(self, node):
        return [self.visit(v) for v in node.elts]

    Tuple = List

    def Call(self, node):
        args = [self.visit(a) for a in node.args]
        name = node.func.id
        if name == 'abs':
            return abs(args[0])
        if name in ('sum', 'prod'):
            values = args[0]
            out = 0 if name == 'sum' else 1
            for v in values:
                out = out + v if name == 'sum' else out * v
            return out
        raise ValueError(name)


# -- jobs ---------------------------------------------------------------------
def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for op in X.BINARY:
        out.append(Job('text', const_hash=False, trees=[('b', op, ('l', 0), ('l', 1))], kinds='VRCP', names=[['x', 'y'], ['x', 'x']]))
        trees = []
        for u in ('neg', 'abs', 'pos'):
            trees += [('u', u, ('b', op, ('l', 0), ('l', 1))), ('b', op, ('u', u, ('l', 0)), ('l', 1)),
                      ('b', op, ('l', 0), ('u', u, ('l', 1))), ('b', op, ('u', u, ('u', 'neg', ('l', 0))), ('l', 1))]
        out.append(Job('text', const_hash=False, trees=trees, kinds='VCP', names=[['x', 'y']]))
    for outer, inner in itertools.product(X.BINARY, repeat=2):
        trees = [X.with_ops(s, [outer, inner]) for s in X.shapes(3)]
        out.append(Job('text', const_hash=False, trees=trees, kinds='VRCP' if thorough else 'VC', names=[['x', 'y', 'x']], weight=3))
    out.append(Job('accumulated', const_hash=False))
    for name in X.LARGE:
        out.append(Job('large', const_hash=False, name=name, weight=2))
    for n in (0, 1, 2, 3):
        for a in KINDS:
            for b in KINDS:
                if n == 2 and (thorough or a <= b) or n == 3 and (thorough or a == b):
                    out.append(Job('listing', const_hash=False, variables=n, kinds=[a, b], weight=2))
            if n < 2 or thorough:
                out.append(Job('listing', const_hash=False, variables=n, kinds=[a], weight=2))
        out.append(Job('listing', const_hash=False, variables=n, kinds=['linear', 'all different', 'logic'], weight=3))
        out.append(Job('listing', const_hash=False, variables=n, kinds=[]))
    out.append(Job('many'))
    for names in LONG_NAMES:
        out.append(Job('long', const_hash=False, names=names))
    return out


def compare(ctx, built, inst, what):
    expected = inst.plain()
    text = str(built)
    try:
        reader = Reader(dict(inst.substitution, **inst.parameter_values))
        got = reader.read(text)
    except ZeroDivisionError:
        ctx.check(False, "the text has no value where the expression has one", text=text, **what)
    except (SyntaxError, AttributeError, KeyError, ValueError, AssertionError) as exc:
        ctx.check(False, "the text cannot be read: {!r}".format(exc), text=text, **what)
    ctx.check(got == expected, "the text means something else than the expression", text=text, got=got, expected=expected, **what)
    ctx.reach('text')


def text(ctx, trees, kinds, names):
    E = loader.load('satisfy.expression')
    tree = ctx.choice('tree', [X.totuple(t) for t in trees])
    names = ctx.choice('names', names)
    combo = ctx.choice('kinds', X.kind_combos(tree, kinds))
    lo, hi = X.bounds_for(tree)
    inst = X.Instance(ctx, tree, combo, names, lo, hi, E)
    try:
        built = inst.build()
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(built, E.Expression):
        return
    if '**' in X.ops(tree):
        ctx.reach('power')
    compare(ctx, built, inst, dict(tree=tree, kinds=combo, values=inst.values))


def accumulated(ctx):
    """Sums and products of several operands, with constants in every place."""
    E = loader.load('satisfy.expression')
    op = ctx.choice('op', ['+', '*'])
    n = ctx.choice('n', [2, 3, 4, 5])
    place = ctx.choice('constant', list(range(n + 1)))
    inside = ctx.choice('inside', [None] + X.BINARY)
    names = ['x', 'y', 'z', 'x', 'w']
    tree = None
    kinds = []
    for i in range(n):
        kinds.append('C' if i == place else 'V')
        leaf = ('l', i)
        tree = leaf if tree is None else ('b', op, tree, leaf)
    if inside is not None:
        kinds.append('V')
        names = names[:n] + ['y']
        tree = ('b', inside, tree, ('l', n)) if ctx.choice('left', [True, False]) else ('b', inside, ('l', n), tree)
        # leaves are numbered in any order: only names and kinds matter
    lo, hi = (-2, 2) if inside == '**' else (-9, 9)
    inst = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    try:
        built = inst.build()
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    compare(ctx, built, inst, dict(tree=tree, kinds=kinds, values=inst.values))


def large(ctx, name):
    E = loader.load('satisfy.expression')
    tree, kinds, names = X.LARGE[name]
    lo, hi = X.large_bounds(tree)
    inst = X.Instance(ctx, tree, kinds, names, lo, hi, E)
    try:
        built = inst.build()
    except (ZeroDivisionError, OverflowError):
        raise Discard()
    if not isinstance(built, E.Expression):
        return
    compare(ctx, built, inst, dict(tree=tree, kinds=kinds, values=inst.values))
    ctx.reach('large')


# -- listings -----------------------------------------------------------------
KINDS = ['linear', 'all different', 'logic', 'false', 'power', 'unary', 'parameter', 'sum']


def printed(model):
    U = loader.load('satisfy.tool.demo_utils')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        U.print_model(model)
    return out.getvalue()


def entries(ctx, text):
    """The listed variables and constraints: [(number, text)]."""
    sections = []
    for line in text.split('\n'):
        if line.startswith('==='):
            sections.append([])
        elif line.strip():
            ctx.check(bool(sections) and ')' in line, "a line of the listing is not an entry", line=line)
            number, entry = line.split(')', 1)
            sections[-1].append((number.strip(), entry.strip()))
    ctx.check(len(sections) == 2, "the listing has not two parts", text=text)
    for section in sections:
        # entries are numbered one after the other
        numbers = [int(number) for number, _ in section]
        ctx.check(numbers == list(range(numbers[0], numbers[0] + len(numbers)) if numbers else []), "entries are not numbered", listed=section)
    return sections


def add(ctx, model, kind, variables, parameter, tag):
    """Adds a constraint; returns (its meaning on values by name, scope)."""
    C = loader.load('satisfy.constraint')
    E = loader.load('satisfy.expression')
    if kind == 'false':
        model.add_constraint(False)
        return False
    names = [v.name for v in variables]
    c = ctx.int('c' + tag, -3, 3) if kind in ('linear', 'logic', 'power') else None
    first, last = variables[0], variables[-1]
    if kind == 'linear':
        model.add_constraint(first - c * last <= 2)
        return lambda v: v[names[0]] - c * v[names[-1]] <= 2
    if kind == 'all different':
        model.add_all_different_constraint(variables)
        return names
    if kind == 'logic':
        model.add_constraint((first == c) | (last != first) & (first >= last))
        return lambda v: v[names[0]] == c or (v[names[-1]] != v[names[0]] and v[names[0]] >= v[names[-1]])
    if kind == 'power':
        model.add_constraint((-first) ** 2 + E.Const(c) ** abs(last) > 3)
        return lambda v: (-v[names[0]]) ** 2 + c ** abs(v[names[-1]]) > 3
    if kind == 'unary':
        model.add_constraint(C.ExpressionConstraint(abs(first) - -last))
        return lambda v: abs(v[names[0]]) + v[names[-1]] != 0
    if kind == 'parameter':
        model.add_constraint(first * parameter - last / 2 < parameter)
        return lambda v: v[names[0]] * v['p'] - v[names[-1]] // 2 < v['p']
    model.add_constraint(sum(variables) + first + 1 + last * 2 >= 0)
    return lambda v: sum(v[n] for n in names) + v[names[0]] + 1 + 2 * v[names[-1]] >= 0


def check_listing(ctx, model, declared, meanings, parameters):
    listed, constraints = entries(ctx, printed(model))
    ctx.check(len(listed) == len(declared), "another number of variables is listed than declared", listed=listed)
    for (_, entry), (name, domain) in zip(listed, declared):
        ctx.check(entry.startswith(repr(name) + ' domain: '), "a variable is not listed in its place", entry=entry, name=name)
        shown = entry.split(' domain: ', 1)[1]
        if domain is None:
            ctx.check(shown == 'None', "a parameter has a domain", entry=entry)
        elif isinstance(domain, range):
            ctx.check(shown == str(domain), "another domain is listed", entry=entry)
            ctx.reach('range')
        else:
            values = Reader({}).listed(shown)
            ctx.check(isinstance(values, list) and len(values) == len(domain) and AND(*[EQ(a, b) for a, b in zip(values, domain)]),
                      "another domain is listed", entry=entry, domain=domain)
    ctx.check(len(constraints) == len(meanings), "another number of constraints is listed", listed=constraints)
    variables = [(n, d) for n, d in declared if d is not None]
    found = []
    for assignment in itertools.product(*[d for _, d in variables]):
        values = dict(parameters)
        values.update(zip([n for n, _ in variables], assignment))
        every = True
        for (_, entry), meaning in zip(constraints, meanings):
            if meaning is False:
                ctx.check(entry == 'False', "a constraint that is never satisfied is listed otherwise", entry=entry)
                truth = False
                ctx.reach('constant')
            elif isinstance(meaning, list):
                ctx.check(entry.startswith('AllDifferentConstraint(') and sorted(ast.literal_eval(entry[23:-1])) == sorted(meaning),
                          "an all-different constraint is not listed with its variables", entry=entry, variables=meaning)
                truth = DISTINCT([values[n] for n in meaning])
                ctx.reach('all different')
            else:
                try:
                    truth = TRUTH(Reader(values).read(entry))
                except (SyntaxError, AttributeError, KeyError, ValueError, AssertionError) as exc:
                    ctx.check(False, "a constraint cannot be read: {!r}".format(exc), entry=entry)
                ctx.check(IFF(truth, TRUTH(meaning(values))), "a constraint is not listed as it was added", entry=entry, assignment=values)
                ctx.reach('expression')
            every = AND(every, truth)
        if every:
            found.append({n: values[n] for n, _ in variables})
    return found


def listing(ctx, variables, kinds):
    M = loader.load('satisfy.model')
    S = loader.load('satisfy.solver')
    E = loader.load('satisfy.expression')
    model = M.Model()
    declared = []
    parameters = {'p': ctx.int('p', -2, 2)}
    with_parameter = 'parameter' in kinds or ctx.choice('with parameter', [False, True])
    parameter = None
    vs = []
    for i in range(variables):
        if i == 1 and with_parameter:
            parameter = model.add_parameter(parameters['p'], name='p')
            declared.append(('p', None))
            ctx.reach('parameter')
        name = ['x', 'a_1', None][i]
        domain = [[ctx.int('d0', -3, 3), 4] if len(kinds) < 3 else [0, 4], (1, 0), range(0, 2)][i]
        vs.append(model.add_int_variable(domain, name=name))
        declared.append((vs[-1].name, domain))
    if with_parameter and parameter is None:
        parameter = model.add_parameter(parameters['p'], name='p')
        declared.append(('p', None))
    meanings = []
    for k, kind in enumerate(kinds):
        if not vs and kind != 'false':
            continue
        if k and ctx.choice('list between', [False, True]):
            check_listing(ctx, model, declared, meanings, parameters)
        meanings.append(add(ctx, model, kind, vs, parameter, str(k)))
    found = check_listing(ctx, model, declared, meanings, parameters)
    solver = S.Solver(compile_constraints=ctx.choice('compiled', [True, False]))
    got = list(solver.solve(model))
    ctx.check(len(got) == len(found) and all(any(sorted(s) == sorted(f) and AND(*[EQ(s[n], f[n]) for n in f]) for f in found) for s in got),
              "the listed model has other solutions than the model", listed=found, delivered=got)
    ctx.reach('solved')
    again = check_listing(ctx, model, declared, meanings, parameters)
    ctx.check(len(again) == len(found), "the listing changes with a run")


def many(ctx):
    """Long listings."""
    M = loader.load('satisfy.model')
    n = ctx.choice('n', [9, 10, 11, 99, 100, 101, 120])
    model = M.Model()
    form = ctx.choice('names', ['x{}', 'X{}y'])
    variables = [model.add_int_variable([i, i + 1], name=form.format(i) if i % 2 else None) for i in range(n)]
    declared = [(v.name, [i, i + 1]) for i, v in enumerate(variables)]
    bounds = []
    for i in range(n):
        c = ctx.int('c', 0, 3) if i == n - 1 else i % 5
        model.add_constraint(variables[i] + c <= variables[i - 1] * 2)
        bounds.append(c)
    listed, constraints = entries(ctx, printed(model))
    ctx.check(len(listed) == n and len(constraints) == n, "another number of entries is listed", listed=len(listed), constraints=len(constraints))
    for (_, entry), (name, domain) in zip(listed, declared):
        ctx.check(entry == "{!r} domain: {}".format(name, domain), "a variable is not listed in its place", entry=entry)
    for i, (_, entry) in enumerate(constraints):
        for a in (0, 7):
            values = {variables[i].name: a, variables[i - 1].name: 3}
            ctx.check(IFF(TRUTH(Reader(values).read(entry)), a + bounds[i] <= 6), "a constraint is not listed in its place", entry=entry)
    ctx.reach('many')


LONG_NAMES = [['x', 'y'], ['a' * 200, 'A_9' * 30], ['domain', 'x_domain'], ['_'.join('abc' * 9), 'sum'], ['prod', 'range_1']]


def long(ctx, names):
    """Long entries."""
    M = loader.load('satisfy.model')
    model = M.Model()
    part = ctx.choice('part', ['domain', 'text'])
    d = ctx.int('d', -2, 2) if part == 'domain' else 3
    size = ctx.choice('size', [1, 20, 60, 300]) if part == 'domain' else 2
    domain = [100 + i * 7 for i in range(size)]
    where = ctx.choice('where', ['first', 'middle', 'last']) if part == 'domain' else 'first'
    domain.insert({'first': 0, 'middle': size // 2, 'last': size}[where], d)
    domain = ctx.choice('type', [list, tuple])(domain)
    x = model.add_int_variable(domain, name=names[0])
    y = model.add_int_variable(range(-10 ** 30, 10 ** 30 + 1, 10 ** 25), name=names[1])
    c = ctx.int('c', -9, 9) if part == 'text' else 2
    kind = ctx.choice('kind', ['sum', 'prod', 'and', 'different']) if part == 'text' else 'sum'
    terms = ctx.choice('terms', [1, 9, 60]) if part == 'text' else 1
    if kind == 'sum':
        left = x + c * y
        for i in range(terms):
            left = left + (x if i % 2 else y) * (i + 2)
        model.add_constraint(left <= c)
    elif kind == 'prod':
        left = x
        for i in range(min(terms, 5)):
            left = left * (y - c - i)
        model.add_constraint(left != 0)
    elif kind == 'and':
        left = x >= c
        for i in range(terms):
            left = left & (y != c * 100 + i) if i % 3 else left | (x == 500 + i)
        model.add_constraint(left)
    else:
        others = [model.add_int_variable([0, i], name='{}_{}'.format(names[i % 2], i)) for i in range(1, terms + 1)]
        model.add_all_different_constraint([x] + others + [y])
    listed, constraints = entries(ctx, printed(model))
    ctx.check(len(constraints) == 1 and len(listed) == (2 + terms if kind == 'different' else 2), "another number of entries is listed")
    ctx.check(listed[0][1].startswith(repr(names[0]) + ' domain: ') and
              listed[1][1] == "{!r} domain: {!r}".format(names[1], range(-10 ** 30, 10 ** 30 + 1, 10 ** 25)),
              "a variable is not listed in its place", listed=listed[:2])
    shown = Reader({}).listed(listed[0][1][len(repr(names[0])) + 9:])
    ctx.check(shown is not None and len(shown) == len(domain) and AND(*[EQ(a, b) for a, b in zip(shown, domain)]),
              "another domain is listed", entry=listed[0][1])
    entry = constraints[0][1]
    if kind == 'different':
        wanted = sorted([v.name for v in others] + names)
        try:
            found = sorted(ast.literal_eval(entry[len('AllDifferentConstraint('):-1]))
        except (SyntaxError, ValueError):
            found = None
        ctx.check(found == wanted, "an all-different constraint is not listed with its variables", entry=entry)
    else:
        for a, b in ((0, 0), (1, -3), (d, 1000), (500, 7)):
            values = dict(zip(names, (a, b)))
            try:
                got = TRUTH(Reader(values).read(entry))
            except (SyntaxError, AttributeError, KeyError, ValueError, AssertionError) as exc:
                ctx.check(False, "a constraint cannot be read: {!r}".format(exc), entry=entry)
            if kind == 'sum':
                total = a + c * b
                for i in range(terms):
                    total = total + (a if i % 2 else b) * (i + 2)
                want = total <= c
            elif kind == 'prod':
                total = a
                for i in range(min(terms, 5)):
                    total = total * (b - c - i)
                want = total != 0
            else:
                want = a >= c
                for i in range(terms):
                    want = AND(want, b != c * 100 + i) if i % 3 else OR(want, a == 500 + i)
            ctx.check(IFF(got, want), "a constraint is not listed as it was added", entry=entry, assignment=(a, b))
    ctx.reach('long')
