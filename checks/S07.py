"""S07: optimization delivers only strictly improving feasible solutions."""
from symex.runner import Job
from . import _large
from . import _opt
from . import _search as P

BOUNDS = [
    "1-3 variables with 2-4 values, every feasibility relation, symbolic domain values in [-3, 3] in every order, objectives "
    "as listed in checks/_opt.py with symbolic coefficients in [-5, 5], one to three objectives, both directions; the consumer keeps the solutions or overwrites them (then without compilation)",
] + _large.BOUNDS
OUTSIDE = ["larger problems, non-integer objectives"]
WITNESSES = ['improved', 'single', 'none', 'several objectives improved', 'large']


def jobs(tier):
    return [Job('improving', problem=p, directions=d, policy=policy, comp=comp, weight=3 + 5 * (p in ('lin table', 'ad', 'two')))
            for p, d, policy, comp in _opt.job_configs(tier)] + \
        [Job('large', problem=p, direction=d, policy=policy, comp=comp, weight=6) for p, d, policy, comp in large_configs(tier)]


def large_configs(tier):
    for k, name in enumerate(n for n in _large.PROBLEMS if _large.PROBLEMS[n][3]):
        for d, direction in enumerate(['max', 'min']):
            for j, policy in enumerate(P.POLICIES):
                for comp in (True, False):
                    if tier == 'thorough' or (policy == 'GROUPS' or (j + k) % 4 == 0) and comp == ((j + k + d) % 2 == 0):
                        yield name, direction, policy, comp


def optimize_large(ctx, problem, direction, policy, comp, modify=False):
    p = _large.Large(ctx, problem)
    model = p.model(backwards=comp)
    coefficient = ctx.int('o', -4, 4)
    out = []
    for s in P.solver(policy, comp).optimize(model, p.make_objective(direction, coefficient), **p.args()):
        out.append(dict(s.solution))
        if modify:
            s.solution.clear()
    return p, coefficient, out


def large(ctx, problem, direction, policy, comp):
    p, coefficient, got = optimize_large(ctx, problem, direction, policy, comp, modify=not comp)
    p.check_sound(got)
    positions = [p.positions(s) for s in got]
    for a, b in zip(positions, positions[1:]):
        ctx.check(p.better(direction, coefficient, b, a), "a solution does not improve on the one before",
                  solution=b, before=a, coefficient=coefficient)
        ctx.reach('large')
    ctx.check(True, "explored")


def improving(ctx, problem, directions, policy, comp):
    ctx.control_random = policy == 'RANDOM'
    o = _opt.Optimization(ctx, problem, directions)
    got = o.delivered(solver=P.solver(policy, comp), modify=not comp)
    previous = None
    for s in got:
        o.problem.check_sound({n: s[n] for n in s}, "a solution delivered while optimizing breaks the model")
        t = o.problem.tuple_of(s)
        if previous is not None:
            ctx.check(o.better(t, previous), "a solution does not improve on the one before in every objective",
                      solution=t, before=previous, values=o.values(t), values_before=o.values(previous))
            ctx.reach('improved')
            if len(directions) > 1:
                ctx.reach('several objectives improved')
        previous = t
    ctx.check(True, "explored")
    ctx.reach('none' if not got else 'single')
