"""S01: every delivered solution satisfies the model."""
from symex import loader
from symex.runner import Job
from . import _large
from . import _search as P

BOUNDS = [
    "problems of 0-4 variables (5 in the thorough tier) with 0-4 values each, in arbitrary order, constraint graphs as listed "
    "in checks/_search.py; every relation of each user-defined constraint (one symbolic bit per tuple of values)",
    "expression constraints with symbolic coefficients and symbolic domain values in [-3, 3]",
    "all eight policies (random: every permutation), compilation on and off, additional constraints per call",
] + _large.BOUNDS
OUTSIDE = ["more variables or values", "constraints whose evaluation is not a function of the assignment"]
WITNESSES = ['solution', 'no solution', 'several solutions', 'large']


def jobs(tier):
    out = []
    names = [p[0] for p in P.TABLES] + ([p[0] for p in P.BIG_TABLES] if tier == 'thorough' else [])
    for name in names:
        for policy in P.POLICIES:
            out.append(Job('tables', problem=name, policy=policy, weight=5 if name in ('triangle', 'chain') else 2))
    for name in [p[0] for p in P.EXPRESSION_PROBLEMS]:
        for policy in (P.POLICIES if tier == 'thorough' else ['GROUPS', 'RANDOM', 'MAX_CONSTRAINT', 'REVERSED']):
            for comp in (True, False):
                out.append(Job('expressions', problem=name, policy=policy, comp=comp, weight=4))
    for k, name in enumerate(_large.PROBLEMS):
        for j, policy in enumerate(P.POLICIES):
            if tier == 'thorough' or policy == 'GROUPS' or name != 'many unary' or (k + j) % 4 == 0:
                out.append(Job('large', problem=name, policy=policy, comp=j % 2 == 1, weight=5))
            if tier == 'thorough' or name == 'fourteen':
                out.append(Job('large', problem=name, policy=policy, comp=j % 2 == 0, weight=5))
    return out


def find(name):
    return [p for p in P.TABLES + P.BIG_TABLES if p[0] == name][0]


def run(ctx, spec, policy, comp):
    ctx.control_random = policy == 'RANDOM'
    _, domains, constraints, extra = spec
    p = P.Problem(ctx, domains, constraints)
    model = p.model(extra=extra)
    args = {'additional_constraints': p.additional(extra)} if extra else {}
    solutions = list(P.solver(policy, comp).solve(model, **args))
    ctx.reach('no solution' if not solutions else 'solution' if len(solutions) == 1 else 'several solutions')
    return p, solutions


def sound(ctx, p, solutions):
    for s in solutions:
        p.check_sound(s)
    ctx.check(True, "explored")


def tables(ctx, problem, policy, comp=True):
    sound(ctx, *run(ctx, find(problem), policy, comp))


def run_large(ctx, problem, policy, comp):
    p = _large.Large(ctx, problem)
    model = p.model(backwards=comp)
    solutions = list(P.solver(policy, comp).solve(model, **p.args()))
    ctx.reach('large' if solutions else 'no solution')
    return p, solutions


def large(ctx, problem, policy, comp):
    p, solutions = run_large(ctx, problem, policy, comp)
    p.check_sound(solutions)
    ctx.check(True, "explored")


def expressions(ctx, problem, policy, comp):
    spec = [p for p in P.EXPRESSION_PROBLEMS if p[0] == problem][0]
    sound(ctx, *run(ctx, spec, policy, comp))
