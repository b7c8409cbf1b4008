"""P02: nonogram answers are exactly the pictures matching the clues."""
import itertools

from symex import loader
from symex.api import AND, NOT, OR
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "every combination of row and column clues (fitting or too long) for shapes up to 2x3 and 3x3 (thorough also 2x4, 4x2), "
    "picked by symbolic indices; lines without clue, shapes without rows or columns",
    "every picture of up to 3x3, 2x4 (thorough 3x4, 4x3, 4x4) cells by symbolic cells, solved from its own clues",
    "the pictures of PICTURES (up to 12x3, 1x15, 7x6) and their clues with one symbolic clue changed",
    "one row or column of up to 10 cells with up to 5 runs (LINES), every crossing clue of 0 or 1 with about as many cells in all",
    "for each of them z3 decides over all 2^cells pictures whether one was left out",
]
OUTSIDE = ["larger pictures", "clues containing zero", "pictures with more than a few hundred answers"]
WITNESSES = ['unique', 'several', 'none', 'from picture', 'limit', 'empty shape', 'again', 'spoiled', 'line']

PICTURES = {
    'diagonal 4': ["#...", ".#..", "..#.", "...#"],
    'checker 4': ["#.#.", ".#.#", "#.#.", ".#.#"],
    'ring 5': [".###.", "#...#", "#.#.#", "#...#", ".###."],
    'letter': ["####.", "#...#", "####.", "#.#..", "#..##"],
    'wide': ["##.##.#", "#.#.#.#", ".##..##"],
    'tall': ["#.#", "###", ".#.", "#..", "##.", "..#", ".##"],
    'p': ["......", ".####.", ".#..#.", ".####.", ".#....", ".#....", "......"],
    'full': ["####", "####", "####"],
    'blank': ["....", "....", "...."],
    'edges': ["#...#", ".....", "..#..", ".....", "#...#"],
    'two runs': ["##.#.", ".####", "#..##", "##..#"],
    'mix 5': ["#.##.", "##..#", "..###", "#.#.#", ".##.#"],
    'row': ["#.##.###"],
    'column': ["#", "#", ".", "#", ".", "#"],
    'twelve wide': ["#.##.#.###.#", "##.#.####.##", ".###.#.#.###"],
    'twelve tall': ["#.#", ".##", "##.", "#.#", "###", ".#.", "#.#", "##.", "..#", "#.#", ".##", "#.#"],
    'line 14': ["##.#.###.#.##."],
    'line 15': [".#.##.###.#..##"],
    'stack 14': ["#", ".", "#", "#", ".", "#", "#", "#", ".", "#", "#", ".", ".", "#"],
    'long runs': ["#############", "###########.#", "#.###########"],
    'five runs': ["#.##.#.##.#", "##.##.#.#.#"],
    'mix 6': ["##..##", "#.##.#", ".####.", ".#..#.", "##..##", "#.##.#"],
}
BIG = {
    'eight': ["..####..", ".#....#.", "#.#..#.#", "#......#", "#.#..#.#", "#..##..#", ".#....#.", "..####.."],
    'mix 7': ["##.#.##", "#.###.#", ".##.##.", "#.#.#.#", "##...##", ".#####.", "#..#..#"],
}


# length, runs
LINES = [(9, [1, 1, 2, 1]), (9, [2, 1, 1, 2]), (8, [1, 2, 1]), (8, [3, 2]), (7, [1, 1, 1, 1]), (10, [2, 1, 3, 1]), (10, [1, 1, 1, 2, 1]),
         (6, [4, 1]), (10, [8]), (7, [6]), (8, [4, 1]), (9, [5, 2]), (8, [1, 5])]


def line_clues(n):
    """Every clue of a line of n cells."""
    out = set()
    for bits in itertools.product([0, 1], repeat=n):
        out.add(tuple(runs(bits)))
    return sorted(out)


def runs(bits):
    out, count = [], 0
    for b in list(bits) + [0]:
        if b:
            count += 1
        elif count:
            out.append(count)
            count = 0
    return out


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for shape in [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2)]:
        out.append(Job('clues', shape=shape, first=None, long=shape != (3, 2) or thorough, weight=5))
    for first in range(5):
        for second in range(5):
            out.append(Job('clues', shape=(3, 3), first=[first, second], long=False, weight=9))
    if thorough:
        for shape in [(2, 4), (4, 2)]:
            for first in range(len(line_clues(shape[1]))):
                out.append(Job('clues', shape=shape, first=[first], long=False, weight=9))
    for shape in [(2, 3), (3, 2), (3, 3), (2, 4), (1, 6), (6, 1), (4, 2)] + ([(3, 4), (4, 3)] if thorough else []):
        out.append(Job('pictures', shape=shape, fixed=[], weight=8))
    if thorough:
        for bits in itertools.product([0, 1], repeat=5):
            out.append(Job('pictures', shape=(4, 4), fixed=list(bits), weight=8))
    for name in list(PICTURES) + (list(BIG) if thorough else []):
        for policy in [None] + (['GROUPS', 'MAX_BOUND', 'ORDERED', 'MIN_CONSTRAINT'] if thorough else ['GROUPS']):
            if policy and name in ('ring 5', 'mix 6', 'checker 4', 'mix 5', 'p') + tuple(BIG):
                continue
            out.append(Job('own_clues', name=name, policy=policy, weight=6, path_timeout=200))
        if name not in BIG:
            out.append(Job('spoiled', name=name, weight=9, path_timeout=100))
    for name in ['diagonal 4', 'tall', 'two runs', 'row', 'edges']:
        out.append(Job('limits', name=name))
    for clue in LINES:
        for down in (False, True):
            out.append(Job('line', clue=clue, down=down, weight=7))
    out.append(Job('empty'))
    return out


def _fits(cells, clue):
    """The runs of the (symbolic) cells are exactly the clue."""
    n = len(cells)

    def lines(at, clue):
        if not clue:
            yield [0] * (n - at)
            return
        for start in range(at, n - sum(clue) - len(clue) + 2):
            head = [0] * (start - at) + [1] * clue[0] + [0] * (start + clue[0] < n)
            for tail in lines(at + len(head), clue[1:]):
                yield head + tail
    return OR(*[AND(*[c if b else NOT(c) for c, b in zip(cells, bits)]) for bits in lines(0, list(clue)) if runs(bits) == list(clue)])


def _check(ctx, rows, cols, pictures, complete=True):
    n, m = len(rows), len(cols)
    what = dict(rows=rows, columns=cols)
    for p in pictures:
        ctx.check(len(p) == n and all(len(line) == m for line in p), "a picture has another shape", picture=p, **what)
        for i in range(n):
            ctx.check(runs(p[i]) == list(rows[i]), "a row does not match its clue", picture=p, row=i, **what)
        for j in range(m):
            ctx.check(runs([p[i][j] for i in range(n)]) == list(cols[j]), "a column does not match its clue", picture=p,
                      column=j, **what)
    ctx.check(len(set(pictures)) == len(pictures), "a picture was delivered twice", **what)
    if not complete:
        return

    def missing(u):
        cells = [[u.bool('p{}_{}'.format(i, j)) for j in range(m)] for i in range(n)]
        conditions = [_fits(cells[i], rows[i]) for i in range(n)]
        conditions += [_fits([cells[i][j] for i in range(n)], cols[j]) for j in range(m)]
        for p in pictures:
            conditions.append(NOT(AND(*[c if v else NOT(c) for line, values in zip(cells, p) for c, v in zip(line, values)])))
        return AND(*conditions)

    ctx.never(missing, "a picture that matches the clues was not delivered")
    ctx.reach('none' if not pictures else 'unique' if len(pictures) == 1 else 'several')


def _solve(rows, cols, cap=3000, **args):
    N = loader.load('satisfy.nonogram')
    solver = N.NonogramSolver({'rows': rows, 'columns': cols}, **args)
    out = []
    for p in solver:
        out.append(tuple(tuple(1 if c else 0 for c in line) for line in p))
        if len(out) > cap:
            break
    return solver, out


def clues(ctx, shape, first, long):
    n, m = shape
    across, down = line_clues(m), line_clues(n)
    if long:
        across, down = across + [(m + 1,), (1,) * m + (1,)], down + [(n, 1), (n + 1,)]
    rows = []
    for i in range(n):
        if first is not None and i < len(first):
            rows.append(list(across[first[i]]))
        else:
            rows.append(list(ctx.choice('row{}'.format(i), across)))
    cols = [list(ctx.choice('column{}'.format(j), down)) for j in range(m)]
    solver, pictures = _solve(rows, cols)
    _check(ctx, rows, cols, pictures)


def pictures(ctx, shape, fixed):
    """Every picture is among the answers to its own clues."""
    n, m = shape
    N = loader.load('satisfy.nonogram')
    cells = list(fixed)
    for k in range(len(fixed), n * m):
        cells.append(ctx.choice('cell{}'.format(k), [0, 1]))
    picture = tuple(tuple(cells[i * m:i * m + m]) for i in range(n))
    rows = [runs(line) for line in picture]
    cols = [runs([line[j] for line in picture]) for j in range(m)]
    given = N.pixmap_to_nonogram([list(line) for line in picture])
    ctx.check([list(r) for r in given['rows']] == rows and [list(c) for c in given['columns']] == cols, "wrong clues",
              picture=picture, clues=given)
    solver, found = _solve(given['rows'], given['columns'])
    ctx.check(picture in found, "a picture is not among the answers to its own clues", picture=picture, found=found)
    _check(ctx, rows, cols, found)
    ctx.reach('from picture')


def _clues_of(name):
    source = PICTURES.get(name) or BIG[name]
    picture = tuple(tuple(int(c == '#') for c in line) for line in source)
    return picture, [runs(line) for line in picture], [runs(line) for line in zip(*picture)]


def own_clues(ctx, name, policy):
    S = loader.load('satisfy.solver')
    picture, rows, cols = _clues_of(name)
    args = {'var_selection_policy': S.VarSelectionPolicy[policy]} if policy else {}
    shape = ctx.choice('as', ['lists', 'tuples'])
    give = (lambda c: [list(x) for x in c]) if shape == 'lists' else (lambda c: tuple(tuple(x) for x in c))
    solver, found = _solve(give(rows), give(cols), compile_constraints=ctx.choice('compile', [True, False]), **args)
    ctx.check(picture in found, "a picture is not among the answers to its own clues", picture=name, found=len(found))
    _check(ctx, rows, cols, found)
    stats = solver.get_stats()
    ctx.check(stats.interrupt is None and stats.count == len(found), "wrong statistics", stats=stats)
    again = [tuple(tuple(line) for line in p) for p in solver]
    ctx.check(again == found, "solving again gives other pictures", picture=name)
    ctx.reach('again')


def spoiled(ctx, name):
    """One clue is something else."""
    picture, rows, cols = _clues_of(name)
    which = ctx.choice('line', list(range(len(rows) + len(cols))))
    line = (rows + cols)[which]
    n = len(cols) if which < len(rows) else len(rows)
    new = list(ctx.choice('clue', [(), (1,), (2,), (n,), (1, 1), (1, 2), (2, 1), (max(n - 1, 1),), (n + 1,), (1, n)]))
    if which < len(rows):
        rows[which] = new
    else:
        cols[which - len(rows)] = new
    solver, found = _solve(rows, cols)
    _check(ctx, rows, cols, found)
    ctx.reach('spoiled')


def line(ctx, clue, down):
    """One line with every combination of crossing clues."""
    n, clue = clue
    cross = [[1] if ctx.choice('crossing{}'.format(j), [True, False]) else [] for j in range(n)]
    ctx.assume(abs(sum(map(len, cross)) - sum(clue)) <= 1)
    rows, cols = (cross, [list(clue)]) if down else ([list(clue)], cross)
    solver, found = _solve(rows, cols)
    _check(ctx, rows, cols, found)
    ctx.reach('line')


def limits(ctx, name):
    U = loader.load('satisfy.utils')
    picture, rows, cols = _clues_of(name)
    if ctx.choice('open', [True, False]):
        # several answers
        rows, cols = [[1]] * 3, [[1]] * 3
    full = _solve(rows, cols)[1]
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2, 5, 6, 7])
    got = _solve(rows, cols, limit=limit)[1]
    ctx.check(got == (full if limit in (None, U.INFINITY) else full[:limit]), "a limited run does not deliver the first pictures",
              limit=limit, got=got)
    ctx.reach('limit')


def empty(ctx):
    n, m = ctx.choice('shape', [(0, 0), (2, 0), (0, 2), (1, 1), (2, 3)])
    rows, cols = [[] for _ in range(n)], [[] for _ in range(m)]
    if n and ctx.choice('row', [True, False]):
        rows[ctx.choice('which', list(range(n)))] = [1]
    if m and ctx.choice('column', [True, False]):
        cols[ctx.choice('where', list(range(m)))] = [1]
    solver, found = _solve(rows, cols)
    _check(ctx, rows, cols, found)
    ctx.reach('empty shape')
