"""M01: model declarations are validated and all-or-nothing."""
from symex import loader
from symex.api import AND, DISTINCT, EQ, NOT, OR, TRUTH
from symex.runner import Job

BOUNDS = [
    "histories of up to 3 (thorough 4) declarations after 0-2 fixed ones, from the kinds listed in KINDS, names valid, invalid, "
    "in use (by a variable or a parameter) or automatic, domains of up to 4 arbitrary (symbolic) integers given as list, tuple, "
    "range, set, generator or other iterable",
    "every accepted history is solved and compared with a model declared without the refused ones",
]
OUTSIDE = ["names outside the listed ones", "longer histories", "a name followed by a newline"]
WITNESSES = ['accepted', 'refused', 'bad name', 'name in use', 'duplicate value', 'undeclared', 'parameter', 'type', 'solved']

BAD_NAMES = ['', '1x', 'a b', 'a:b', ':', '_x', '_v0', '_p1', 'x-y', ' x', 'x.y', '9', '*', 'a\nb', '-']
GOOD_NAMES = ['x', 'Y', 'x1', 'a_b', 'N9_', 'x_', 'None', 'p']
SHAPES = ['list', 'tuple', 'generator', 'iterator', 'map', 'values']
KINDS = ['variable', 'bool', 'parameter', 'constraint', 'all different', 'bad constraint', 'undeclared', 'parameter constraint']


def jobs(tier):
    out = []
    for kind in KINDS:
        out.append(Job('history', kinds=[kind], before=2, names=True))
        for other in KINDS:
            out.append(Job('history', kinds=[kind, other], before=1, names=False, weight=3))
            for third in (KINDS if tier == 'thorough' else ['variable', 'undeclared', 'parameter constraint']):
                out.append(Job('history', kinds=[kind, other, third], before=0, names=False, weight=6))
                if tier == 'thorough':
                    for fourth in ['variable', 'parameter', 'all different']:
                        out.append(Job('history', kinds=[kind, other, third, fourth], before=0, names=False, weight=6))
    for n in range(0, 6 if tier == 'thorough' else 5):
        for shape in SHAPES:
            out.append(Job('domain', n=n, shape=shape, weight=n))
    # where values are looked up among fixed ones they are enumerated by the solver
    for n, shape in [(2, 'tuple'), (3, 'list'), (4, 'generator')] + ([(4, 'list'), (5, 'tuple')] if tier == 'thorough' else []):
        out.append(Job('domain', n=n, shape=shape, lo=-1, hi=n, const_hash=False, weight=9))
    out.append(Job('other_domains'))
    out.append(Job('automatic', n=6 if tier == 'thorough' else 5, weight=4))
    return out


def _give(values, shape):
    if shape == 'list':
        return list(values)
    if shape == 'tuple':
        return tuple(values)
    if shape == 'generator':
        return (v for v in values)
    if shape == 'iterator':
        return iter(list(values))
    if shape == 'map':
        return map(lambda v: v, values)
    return dict(enumerate(values)).values()


def _snapshot(model):
    variables = [(name, info.variable, info.domain, None if info.domain is None else list(info.domain))
                 for name, info in model.variables().items()]
    values = [v.value for _, v, d, _ in variables if d is None]
    return variables, list(model.constraints()), bool(model.solvable()), values


def _unchanged(ctx, model, before, what):
    after = _snapshot(model)
    same = (len(after[0]) == len(before[0]) and
            all(a[0] == b[0] and a[1] is b[1] and a[2] is b[2] and a[3] == b[3] for a, b in zip(after[0], before[0])))
    ctx.check(same, "a refused declaration changed the model's variables", before=before[0], after=after[0], **what)
    ctx.check(len(after[1]) == len(before[1]) and all(a is b for a, b in zip(after[1], before[1])),
              "a refused declaration changed the model's constraints", before=before[1], after=after[1], **what)
    ctx.check(after[2] == before[2], "a refused declaration changed whether the model is solvable", **what)
    ctx.check(after[3] == before[3], "a refused declaration changed a parameter", **what)
    ctx.reach('refused')


def _accepted(ctx, model, before, variable, domain, name, what):
    """variable is the one new entry."""
    after = _snapshot(model)
    n = len(before[0])
    ctx.check(len(after[0]) == n + 1, "an accepted declaration is not exactly one new entry", names=[a[0] for a in after[0]], **what)
    ctx.check(all(a[0] == b[0] and a[1] is b[1] and a[3] == b[3] for a, b in zip(after[0], before[0])),
              "an accepted declaration changed other entries", before=before[0], after=after[0], **what)
    new, var, given, values = after[0][-1]
    ctx.check(new not in [b[0] for b in before[0]], "an accepted declaration reuses a name", **what)
    ctx.check(var is variable and variable.name == new, "the entry is not the declared variable", **what)
    if name is not None:
        ctx.check(new == name, "the entry has another name", got=new, **what)
    ctx.check(model.get_variable(new) is variable, "the variable cannot be retrieved by its name", **what)
    if domain is None:
        ctx.check(given is None, "a parameter has a domain", **what)
    else:
        for ask in (variable, new):
            got = model.get_var_domain(ask)
            ctx.check(got is not None, "no domain", **what)
            got = list(got)
            ctx.check(len(got) == len(domain), "another domain than given", got=got, domain=domain, **what)
            ctx.check(AND(*[EQ(a, b) for a, b in zip(got, domain)]), "another domain than given", got=got, domain=domain, **what)
            # a second look gives the same
            ctx.check(len(list(model.get_var_domain(ask))) == len(domain), "the domain is exhausted", **what)
    ctx.check(len(after[1]) == len(before[1]) and after[2] == before[2], "a declaration changed constraints", **what)
    ctx.reach('accepted')


def history(ctx, kinds, before, names):
    C = loader.load('satisfy.constraint')
    E = loader.load('satisfy.expression')
    M = loader.load('satisfy.model')
    model, twin = M.Model(), M.Model()
    done = []           # accepted declarations, as functions of a model

    def accept(f):
        done.append(f)

    if before >= 1:
        first = ctx.choice('first domain', [[0, 1], []])
        model.add_int_variable(first, name='x')
        accept(lambda m: m.add_int_variable(first, name='x'))
    if before >= 2:
        model.add_parameter(4, name='p')
        accept(lambda m: m.add_parameter(4, name='p'))
    for k, kind in enumerate(kinds):
        snapshot = _snapshot(model)
        used = [v[0] for v in snapshot[0]]
        free = [v[1] for v in snapshot[0] if v[2] is not None]
        parameters = [v[1] for v in snapshot[0] if v[2] is None]
        what = dict(kind=kind, used=used)
        if kind in ('variable', 'bool', 'parameter'):
            if names:
                name = ctx.choice('name{}'.format(k), [None] + GOOD_NAMES + BAD_NAMES)
            else:
                name = ctx.choice('name{}'.format(k), [None, 'x', 'p', '_v1'] if len(kinds) > 2 else [None, 'x', 'p', 'z', '_v0', '_v1', '_p1', '2x'])
            valid = name not in BAD_NAMES and name not in ('2x', '_v1') and name not in used
            what['name'] = name
            if kind == 'variable':
                domain = [ctx.int('v{}_{}'.format(k, i), -5, 5) for i in range(2)]
                valid = AND(valid, DISTINCT(domain))
                make = lambda m, domain=domain, name=name: m.add_int_variable(list(domain), name=name)
            elif kind == 'bool':
                domain = [0, 1]
                make = lambda m, name=name: m.add_bool_variable(name=name)
            else:
                domain = None
                value = ctx.int('value{}'.format(k), -5, 5)
                make = lambda m, value=value, name=name: m.add_parameter(value, name=name)
            try:
                variable = make(model)
            except Exception as exc:
                ctx.check(NOT(valid), "a valid declaration was refused", error=exc, **what)
                _unchanged(ctx, model, snapshot, what)
                ctx.reach('name in use' if name in used else
                          'bad name' if name in BAD_NAMES or name in ('2x', '_v1') else 'duplicate value')
                continue
            ctx.check(valid, "an invalid declaration was accepted", domain=domain, **what)
            _accepted(ctx, model, snapshot, variable, domain, name, what)
            if kind == 'parameter':
                ctx.check(EQ(variable.value, value), "the parameter has another value", **what)
            accept(make)
            continue
        # constraints
        ghost = E.Variable('ghost')
        if kind == 'constraint':
            if not free:
                return
            v = ctx.choice('of{}'.format(k), free)
            bound = ctx.int('bound{}'.format(k), -5, 5)
            options = {'expression': lambda m, v=v, bound=bound: m.add_constraint(m.get_variable(v.name) <= bound),
                       'object': lambda m, v=v, bound=bound: m.add_constraint(C.ExpressionConstraint(m.get_variable(v.name) <= bound)),
                       'with parameter': lambda m, v=v, bound=bound, ps=tuple(parameters): m.add_constraint(
                           m.get_variable(v.name) + (m.get_variable(ps[0].name) if ps else 0) <= bound)}
        elif kind == 'all different':
            if not free:
                return
            chosen = [v for v in free if ctx.choice('in{} {}'.format(k, v.name), [True, False])]
            options = {'add': lambda m, chosen=chosen: m.add_all_different_constraint([m.get_variable(v.name) for v in chosen]),
                       'object': lambda m, chosen=chosen: m.add_constraint(C.AllDifferentConstraint([v.name for v in chosen]))}
        elif kind == 'bad constraint':
            bad = [None, 3, 0, 1, 'x', 'x > 1', 2.5, [True], (1,), object, lambda s: True, C.Constraint, {'x': 1}]
            options = {'type {}'.format(i): (lambda m, b=b: m.add_constraint(b)) for i, b in enumerate(bad)}
        elif kind == 'undeclared':
            other = free[0] if free else ghost
            options = {
                'expression': lambda m: m.add_constraint(ghost > 1),
                'mixed': lambda m: m.add_constraint(ghost + other > 1),
                'mixed 2': lambda m: m.add_constraint((other > 1) | (1 < ghost)),
                'object': lambda m: m.add_constraint(C.ExpressionConstraint(ghost == other)),
                'different': lambda m: m.add_all_different_constraint([other, ghost]),
                'different 2': lambda m: m.add_constraint(C.AllDifferentConstraint(['ghost'] + [v.name for v in free])),
            }
        else:
            if not parameters:
                return
            p = ctx.choice('parameter{}'.format(k), parameters)
            mixed = [p] + free
            options = {
                'different': lambda m: m.add_all_different_constraint(mixed),
                'different 2': lambda m: m.add_constraint(C.AllDifferentConstraint([p.name])),
                'variable': lambda m: m.add_constraint(E.Variable(p.name) > 1),
            }
        option = ctx.choice('how{}'.format(k), sorted(options))
        what['how'] = option
        try:
            options[option](model)
        except Exception as exc:
            ctx.check(kind in ('bad constraint', 'undeclared', 'parameter constraint'), "a valid constraint was refused",
                      error=exc, **what)
            _unchanged(ctx, model, snapshot, what)
            ctx.reach({'bad constraint': 'type', 'undeclared': 'undeclared'}.get(kind, 'parameter'))
            continue
        ctx.check(kind in ('constraint', 'all different'), "an invalid constraint was accepted", **what)
        after = _snapshot(model)
        ctx.check([a[:1] for a in after[0]] == [b[:1] for b in snapshot[0]], "a constraint changed the variables", **what)
        if kind == 'constraint' or chosen:
            ctx.check(len(after[1]) == len(snapshot[1]) + 1 and all(a is b for a, b in zip(after[1], snapshot[1])),
                      "an accepted constraint is not exactly one new constraint", **what)
        ctx.check(after[2] == snapshot[2], "a satisfiable constraint changed whether the model is solvable", **what)
        accept(options[option])
    S = loader.load('satisfy.solver')
    for f in done:
        f(twin)
    a, b = list(S.Solver().solve(model)), list(S.Solver().solve(twin))
    ctx.check(len(a) == len(b), "the refused declarations changed the solutions", got=a, expected=b)
    for s, t in zip(a, b):
        ctx.check(sorted(s) == sorted(t) and AND(*[EQ(s[v], t[v]) for v in s]), "the refused declarations changed the solutions",
                  got=a, expected=b)
    ctx.reach('solved')


def domain(ctx, n, shape, lo=-10 ** 6, hi=10 ** 6):
    """Any integers as a domain."""
    M = loader.load('satisfy.model')
    S = loader.load('satisfy.solver')
    model = M.Model()
    model.add_int_variable([3], name='first')
    snapshot = _snapshot(model)
    values = [ctx.int('v{}'.format(i), lo, hi) for i in range(n)]
    what = dict(shape=shape, values=values)
    try:
        variable = model.add_int_variable(_give(values, shape), name='x')
    except Exception as exc:
        ctx.check(NOT(DISTINCT(values)), "a domain of distinct values was refused", error=exc, **what)
        _unchanged(ctx, model, snapshot, what)
        # the name is still free
        variable = model.add_bool_variable(name='x')
        _accepted(ctx, model, snapshot, variable, [0, 1], 'x', what)
        ctx.reach('duplicate value')
        return
    ctx.check(DISTINCT(values), "a repeated value was accepted", **what)
    _accepted(ctx, model, snapshot, variable, values, 'x', what)
    for _ in range(2):
        got = [s['x'] for s in S.Solver().solve(model)]
        ctx.check(len(got) == n and AND(*[EQ(a, b) for a, b in zip(got, values)]), "solving does not use the given domain",
                  got=got, **what)


def other_domains(ctx):
    M = loader.load('satisfy.model')
    S = loader.load('satisfy.solver')
    model = M.Model()
    d = ctx.choice('domain', [range(3), range(5, -5, -2), {4, 2, 7}, frozenset([1]), {1: 'a', 3: 'b'}, range(0), [1, True],
                              [0, False, 2], [1.0, 1], ['a', 'b'], ['a', 'a'], [True, False], [-1, 1, -1],
                              list(range(12)), list(range(11, -1, -1)), [5, 3, 4, 0, 2, 1], [2, 0, 1], [1, 2, 4, 3], [10, 0, -10], range(30),
                              [9, 1, 2, 3, 4, 5, 6, 7, 8, 9], [1, 3, 2], [0.5, 2, 1], ['b', 'a', 'c'], range(3, 3), range(4, 0, -1)])
    snapshot = _snapshot(model)
    distinct = len(set(d)) == len(list(d))
    try:
        v = model.add_int_variable(d)
    except Exception:
        ctx.check(not distinct, "a valid domain was refused", domain=d)
        _unchanged(ctx, model, snapshot, {})
        return
    ctx.check(distinct, "a repeated value was accepted", domain=d)
    got = [s[v.name] for s in S.Solver().solve(model)]
    ctx.check(got == list(d), "solving does not use the given domain", got=got, domain=d)
    ctx.check(list(model.get_var_domain(v)) == list(d), "another domain than given")


def automatic(ctx, n):
    """Automatically named entries of both kinds, in every order."""
    M = loader.load('satisfy.model')
    model = M.Model()
    seen = []
    for k in range(n):
        snapshot = _snapshot(model)
        kind = ctx.choice('kind{}'.format(k), ['variable', 'bool', 'parameter', 'named', 'refused'])
        if kind == 'refused':
            try:
                model.add_int_variable([1, 1])
            except ValueError:
                _unchanged(ctx, model, snapshot, {})
            else:
                ctx.check(False, "a repeated value was accepted")
            continue
        name = 'v{}'.format(k) if kind == 'named' else None
        v = (model.add_parameter(k) if kind == 'parameter' else model.add_bool_variable() if kind == 'bool' else
             model.add_int_variable([k, k + 1], name=name))
        _accepted(ctx, model, snapshot, v, None if kind == 'parameter' else [0, 1] if kind == 'bool' else [k, k + 1], name, {})
        ctx.check(v.name not in seen, "an automatic name is not new", name=v.name, seen=seen)
        seen.append(v.name)
    ctx.check(list(model.variables()) == seen, "entries are missing or in another order", seen=seen)
