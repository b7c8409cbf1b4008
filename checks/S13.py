"""S13: constraints are consulted only on viable assignments of their variables, and only when a solution is asked for."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT, OR, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "models of up to 5 variables with up to 4 values and a parameter, with up to 4 constraints whose consultations are recorded: user-defined "
    "ones over arbitrary (symbolic) relations, all-different ones and expressions with symbolic coefficients and domains; constraints "
    "of the model and additional ones; with an objective",
    "every policy (RANDOM: every order), compilation on and off; complete runs, runs with a limit of 0-3, runs closed after 0-2 solutions, "
    "runs of models marked unsolvable, two interleaved runs",
]
OUTSIDE = ["larger problems", "consultations of the bound of an objective, which is made by the library itself"]
WITNESSES = ['consulted', 'unary', 'binary', 'ternary', 'additional', 'expression', 'extended', 'limit', 'closed', 'limit 0', 'unsolvable',
             'optimize', 'interleaved', 'uncompiled', 'symbolic domain']

PROBLEMS = {name: (d, c, e) for name, d, c, e in P.TABLES + P.BIG_TABLES + P.EXPRESSION_PROBLEMS}
PROBLEMS['mixed'] = ([[0, 1, 2], [1, 0], [2, 1]], [['T', [0]], ['AD', [0, 2]], ['E', [0, 1], 'x!=y+c'], ['T', [1, 2]]], [])
PROBLEMS['mixed added'] = ([[0, 1], [1, 0], [2, 1]], [['T', [0, 2]], ['AD', [0, 2]], ['E', [0, 1], 'x>y'], ['E', [1], 'x<=c']], [1, 2, 3])
PROBLEMS['four'] = ([[0, 1, 2, 3], [3, 2, 1, 0]], [['E', [0, 1], 'sum<='], ['E', [1, 0], 'abs>='], ['AD', [1, 0]]], [])
PROBLEMS['forced'] = ([[0, 1], [2], [1, 0]], [['T', [0, 1]], ['T', [1, 2]]], [])
PROBLEMS['forced last'] = ([[1, 0], [0, 1], [1]], [['T', [2, 0]], ['T', [1, 2]], ['AD', [0, 1]]], [])
PROBLEMS['forced ends'] = ([[4], [0, 1, 2], [3], [0, 1]], [['T', [0, 1]], ['T', [2, 3]], ['E', [1, 3], 'x!=y+c']], [])
PROBLEMS['forced added'] = ([[0, 1], [1], [1, 0]], [['T', [0, 1]], ['T', [1, 2]], ['T', [0, 2]]], [0])
HEAVY = {'forced ends', 'long chain', 'square', 'triangle 3', 'ternary 3', 'five', 'additional big'}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for name, (domains, constraints, extra) in PROBLEMS.items():
        if not constraints or name in HEAVY and not thorough:
            continue
        for policy in P.POLICIES:
            if policy == 'RANDOM' and (len(domains) > 3 or len(domains) > 2 and not thorough):
                continue
            if thorough or policy in ('GROUPS', 'REVERSED', 'MAX_CONSTRAINT') or name.startswith('forced') or policy == 'RANDOM' and len(domains) == 2:
                for comp in (True, False):
                    if comp or thorough or any(c[0] == 'E' for c in constraints):
                        out.append(Job('complete', problem=name, policy=policy, comp=comp, weight=8 if name in HEAVY else 3))
    for name in ['unary+binary', 'mixed', 'far pair', 'additional', 'mixed added', 'one', 'four', 'doubled']:
        for policy in ['GROUPS', 'ORDERED'] if thorough else ['GROUPS']:
            for how in ['limit', 'closed', 'interleaved', 'optimize', 'both']:
                if how != 'interleaved' or thorough or name not in ('additional', 'unary+binary'):
                    out.append(Job('partial', problem=name, policy=policy, how=how, weight=5))
            out.append(Job('unsolvable', problem=name, policy=policy))
    return out


class Monitor(object):
    """Records what constraints are consulted on; p.holds is the reference."""

    def __init__(self, ctx, p):
        self.ctx = ctx
        self.p = p
        self.asked = False
        self.count = 0
        self.conditions = []
        self.log = []

    def consulted(self, k, names, substitution):
        ctx, p = self.ctx, self.p
        self.count += 1
        what = dict(constraint=p.specs[k], substitution=dict(substitution))
        ctx.check(self.asked, "a constraint is consulted although no solution was asked for", **what)
        ctx.check(all(n in substitution for n in names), "a constraint is consulted although its variables are not all bound", **what)
        ctx.check(all(n in p.names for n in substitution), "a constraint is consulted with names that are no variables", **what)
        ctx.reach('consulted')
        ctx.reach({1: 'unary', 2: 'binary', 3: 'ternary'}.get(len(names), 'consulted'))
        bound = {p.names.index(n): v for n, v in substitution.items()}
        for i, v in bound.items():
            self.conditions.append(OR(*[EQ(v, w) for w in p.domains[i]]))
        if len(bound) > 1:
            # without its last variable the assignment violated nothing
            options = []
            for last in bound:
                rest = [k2 for k2, spec in enumerate(p.specs) if spec[0] != 'K' and last not in spec[1] and all(i in bound for i in spec[1])]
                options.append(AND(*[p.holds(k2, bound) for k2 in rest]) if rest else True)
                if rest:
                    ctx.reach('extended')
            if all(o is not True for o in options):
                self.conditions.append(OR(*options))
        self.log.append((k, dict(substitution)))

    def verdict(self, what):
        self.ctx.check(AND(*self.conditions), "a constraint is consulted on an assignment with a value out of its domain, or that "
                       "extends one which violates a constraint", consulted=self.log, **what)


def build(ctx, problem):
    C = loader.load('satisfy.constraint')
    M = loader.load('satisfy.model')
    domains, constraints, extra = PROBLEMS[problem]
    p = P.Problem(ctx, domains, constraints)
    if any(v == 's' for d in domains for v in d):
        ctx.reach('symbolic domain')
    mon = Monitor(ctx, p)
    model = M.Model()
    model.add_parameter(7, name='par')
    variables = [model.add_int_variable(list(d), name=n) for d, n in zip(p.domains, p.names)]
    added = []
    for k, spec in enumerate(p.specs):
        if spec[0] == 'K':
            con = C.ConstConstraint(bool(spec[1]))
        else:
            names = [p.names[i] for i in spec[1]]
            base = {'T': C.Constraint, 'AD': C.AllDifferentConstraint, 'E': C.ExpressionConstraint}[spec[0]]

            def evaluate(self, substitution, k=k, names=names, base=base):
                if self.vars():       # others are decided when they are added
                    mon.consulted(k, self.vars(), substitution)
                if base is C.Constraint:
                    try:
                        return p.tables[k][tuple(substitution[v] for v in names)]
                    except KeyError:
                        ctx.check(False, "a constraint is consulted on a value out of its domain", substitution=dict(substitution))
                if base is C.ExpressionConstraint:
                    ctx.reach('expression')
                return base.evaluate(self, substitution)
            cls = type('Recorded', (base,), dict(evaluate=evaluate))
            if spec[0] == 'E':
                con = cls(P.EXPRESSIONS[spec[2]][1](p.coefficients[k], *[variables[i] for i in spec[1]]))
            else:
                con = cls(names)
        if k in extra:
            ctx.reach('additional')
            added.append(con)
        else:
            model.add_constraint(con)
    return p, mon, model, ({'additional_constraints': added} if added else {})


def ask(mon, it):
    mon.asked = True
    s = next(it, None)
    mon.asked = False
    return s


def drain(mon, it, stop=None):
    got = []
    while stop is None or len(got) < stop:
        s = ask(mon, it)
        if s is None:
            break
        got.append(s)
    return got


def complete(ctx, problem, policy, comp):
    ctx.control_random = policy == 'RANDOM'
    p, mon, model, args = build(ctx, problem)
    if not comp:
        ctx.reach('uncompiled')
    solver = P.solver(policy, comp)
    ctx.check(mon.count == 0, "a constraint is consulted before a run")
    it = solver.solve(model, **args)
    got = drain(mon, it)
    solver.get_stats()
    for s in got:
        p.check_sound(s)
    mon.verdict(dict(problem=problem, policy=policy, comp=comp))


def partial(ctx, problem, policy, how):
    O = loader.load('satisfy.objective')
    p, mon, model, args = build(ctx, problem)
    solver = P.solver(policy)
    what = dict(problem=problem, policy=policy, how=how)
    if how == 'limit':
        limit = ctx.index('limit', 4)
        it = solver.solve(model, limit=limit, **args)
        got = drain(mon, it, limit)
        before = mon.count
        ctx.check(ask(mon, it) is None, "more solutions than the limit", **what)
        if len(got) == limit:
            ctx.reach('limit' if limit else 'limit 0')
            ctx.check(mon.count == before, "a constraint is consulted although the limit is reached", **what)
    elif how == 'closed':
        it = solver.solve(model, **args)
        drain(mon, it, ctx.index('taken', 3))
        it.close()
        solver.get_stats()
        ctx.reach('closed')
    elif how == 'interleaved':
        a, b = solver.solve(model, **args), P.solver('REVERSED').solve(model, **args)
        more = [True, True]
        while any(more):
            for i, it in enumerate((a, b)):
                if more[i]:
                    more[i] = ask(mon, it) is not None
        ctx.reach('interleaved')
    else:
        total = sum(model.get_variable(n) for n in p.names)
        objective = O.Maximize(total) if how == 'optimize' else [O.Minimize(total), O.Maximize(model.get_variable(p.names[0]))]
        ctx.check(mon.count == 0, "a constraint is consulted before a run", **what)
        drain(mon, solver.optimize(model, objective, **args))
        ctx.reach('optimize')
    mon.verdict(what)


def unsolvable(ctx, problem, policy):
    """Nothing is consulted by a run of a model marked unsolvable."""
    p, mon, model, args = build(ctx, problem)
    if ctx.choice('by', ['hand', 'constraint']) == 'hand':
        model.set_solvable(False)
    else:
        model.add_constraint(False)
    got = drain(mon, P.solver(policy).solve(model, **args))
    ctx.check(got == [] and mon.count == 0, "a run of an unsolvable model consults constraints", count=mon.count)
    ctx.reach('unsolvable')
