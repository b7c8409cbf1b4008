"""P08: the riddle's answer is the one and only model of its statements."""
import re

from symex import loader
from symex.api import AND, DISTINCT, EQ, NOT, OR
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "the riddle itself, complete: z3 decides over all 5^25 placements of the attributes whether one that satisfies the fifteen "
    "statements was left out",
    "every variable selection policy except RANDOM, compilation on and off, limits None, infinity, 0-2",
]
OUTSIDE = ["the RANDOM policy (the order of 29 variables has too many permutations)"]
WITNESSES = ['answer', 'limit', 'again', 'statements']

KINDS = {
    'owner': ['English', 'Swede', 'Dane', 'Norwegian', 'German'],
    'color': ['red', 'green', 'white', 'yellow', 'blue'],
    'drink': ['water', 'coffee', 'tea', 'milk', 'beer'],
    'smoke': ['Pall Mall', 'Prince', 'Dunhill', 'Blend', 'Blue Master'],
    'animal': ['cats', 'a dog', 'birds', 'a horse', 'a zebra'],
}
# (first, relation, second); positions count from 1
STATEMENTS = [
    ('English', 'same', 'red'), ('Swede', 'same', 'a dog'), ('Dane', 'same', 'tea'), ('green', 'left', 'white'),
    ('coffee', 'same', 'green'), ('Pall Mall', 'same', 'birds'), ('yellow', 'same', 'Dunhill'), ('milk', 'at', 3),
    ('Norwegian', 'at', 1), ('Blend', 'next', 'cats'), ('a horse', 'next', 'Dunhill'), ('Blue Master', 'same', 'beer'),
    ('German', 'same', 'Prince'), ('Norwegian', 'next', 'blue'), ('water', 'next', 'Blend'),
]
WORDS = {name.split()[-1] if name.startswith('a ') else name: name for names in KINDS.values() for name in names}


def jobs(tier):
    out = []
    for policy in [None] + P.POLICIES:
        for compiled in [True, False]:
            if policy != 'RANDOM':
                out.append(Job('riddle', policy=policy, compiled=compiled, path_timeout=300,
                               weight=9 if policy == 'MIN_CONSTRAINT' else 1))
    out.append(Job('limits', path_timeout=200))
    out.append(Job('published'))
    return out


def _statement(place, first, relation, second):
    a = place[first]
    if relation == 'at':
        return EQ(a, second)
    b = place[second]
    if relation == 'same':
        return EQ(a, b)
    if relation == 'left':
        return EQ(a + 1, b)
    return OR(EQ(a + 1, b), EQ(b + 1, a))


def _places(ctx, answer):
    """{attribute: house} of a delivered answer."""
    ctx.check(sorted(answer) == [1, 2, 3, 4, 5], "an answer has other houses", answer=answer)
    place = {}
    for kind, names in KINDS.items():
        ctx.check(all(kind in answer[house] for house in answer), "a house lacks an attribute", answer=answer)
        ctx.check(sorted(answer[house][kind] for house in answer) == sorted(names), "the attributes are not all different",
                  answer=answer)
        for house in answer:
            place[answer[house][kind]] = house
    ctx.check(all(sorted(answer[house]) == sorted(KINDS) for house in answer), "a house has other attributes", answer=answer)
    return place


def _check(ctx, answers):
    places = []
    for answer in answers:
        place = _places(ctx, answer)
        for k, statement in enumerate(STATEMENTS):
            ctx.check(_statement(place, *statement), "statement {} does not hold".format(k + 1), answer=answer)
        places.append(place)
        ctx.reach('answer')
    ctx.check(len({tuple(sorted(p.items())) for p in places}) == len(places), "an answer was delivered twice")
    return places


def riddle(ctx, policy, compiled):
    R = loader.load('satisfy.tool.einstein_riddle')
    S = loader.load('satisfy.solver')
    args = dict(compile_constraints=compiled)
    if policy is not None:
        args['var_selection_policy'] = S.VarSelectionPolicy[policy]
    solver = R.EinsteinRiddleSolver(**args)
    places = _check(ctx, list(solver))

    def missing(u):
        place = {}
        conditions = []
        for names in KINDS.values():
            for name in names:
                place[name] = u.int(name, 1, 5)
            conditions.append(DISTINCT([place[name] for name in names]))
        conditions += [_statement(place, *s) for s in STATEMENTS]
        for p in places:
            conditions.append(NOT(AND(*[EQ(place[name], p[name]) for name in p])))
        return AND(*conditions)

    ctx.never(missing, "an arrangement that satisfies the statements was not delivered")
    stats = solver.get_stats()
    ctx.check(stats.interrupt is None and stats.count == len(places), "wrong statistics", stats=stats)
    if policy is None:
        ctx.check(_check(ctx, list(solver)) == places, "solving again gives other answers")
        ctx.reach('again')


def limits(ctx):
    R = loader.load('satisfy.tool.einstein_riddle')
    U = loader.load('satisfy.utils')
    full = _check(ctx, list(R.EinsteinRiddleSolver()))
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2])
    got = _check(ctx, list(R.EinsteinRiddleSolver(limit=limit)))
    ctx.check(got == (full if limit in (None, U.INFINITY) else full[:limit]), "a limited run delivers something else", limit=limit)
    ctx.reach('limit')


def published(ctx):
    """The statements, read as text, are those the answers satisfy."""
    R = loader.load('satisfy.tool.einstein_riddle')
    statements = list(R.EinsteinRiddleSolver.statements())
    ctx.check(len(statements) == len(STATEMENTS), "another number of statements", statements=statements)
    places = _check(ctx, list(R.EinsteinRiddleSolver()))
    text = R.EinsteinRiddleSolver.riddle()
    pattern = re.compile('|'.join(sorted((re.escape(w) for w in WORDS), key=len, reverse=True)))
    for statement in statements:
        ctx.check(statement in text, "the riddle's text lacks a statement", statement=statement)
        found = [WORDS[w] for w in pattern.findall(statement)]
        if 'middle house' in statement or 'first house' in statement:
            read = (found[0], 'at', 3 if 'middle' in statement else 1)
        elif 'to the left of' in statement:
            read = (found[0], 'left', found[1])
        elif 'next to' in statement:
            read = (found[0], 'next', found[1])
        else:
            read = (found[0], 'same', found[1])
        for place in places:
            ctx.check(_statement(place, *read), "a published statement does not hold", statement=statement)
        ctx.reach('statements')
