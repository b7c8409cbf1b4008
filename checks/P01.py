"""P01: sudoku answers are exactly the valid completions of the clues."""
from symex import loader
from symex.api import AND, DISTINCT, EQ, NOT, OR
from symex.runner import Job

BOUNDS = [
    "schemas obtained from three complete grids (one the transpose of a band-shuffled other) by blanking the patterns of "
    "PATTERNS (2-4 digits everywhere, rectangles, lines, blocks, bands, diagonals, single cells, published puzzles), blanks "
    "written 0, None or mixed",
    "with up to 2 (thorough 3) clues changed to any symbolic value 0-9 or null at a symbolic position among the listed ones: consistent, "
    "contradicting or none at all",
    "for each of them z3 decides over all 9^blanks completions whether one was left out",
    "limits: default, none, 0-3; the schema given as lists, tuples or generators",
]
OUTSIDE = ["schemas with more than a few hundred completions (only the delivered part is checked there)"]
WITNESSES = ['unique', 'several', 'no completion', 'contradiction', 'complete grid', 'default limit', 'limit', 'again']

GRIDS = [
    ["123456789", "456789123", "789123456", "231564897", "564897231", "897231564", "312645978", "645978312", "978312645"],
    ["534678912", "672195348", "198342567", "859761423", "426853791", "713924856", "961537284", "287419635", "345286179"],
    ["812753649", "943682175", "675491283", "154237896", "369845721", "287169534", "521974368", "438526917", "796318452"],
]
PUZZLES = [
    "530070000600195000098000060800060003400803001700020006060000280000419005000080079",
    "800000000003600000070090200050007000000045700000100030001000068008500010090000400",
    "000000907000420180000705026100904000050000040000507009920108000034059000507000000",
]


def _pattern(name, grid):
    kind, _, arg = name.partition(':')
    cells = [(r, c) for r in range(9) for c in range(9)]
    if kind == 'none':
        return set()
    if kind == 'digits':
        return {(r, c) for r, c in cells if grid[r][c] in arg}
    if kind == 'cell':
        return {(int(arg[0]), int(arg[1]))}
    if kind == 'block':
        return {(r, c) for r, c in cells if str((r // 3) * 3 + c // 3) in arg}
    if kind == 'rows':
        return {(r, c) for r, c in cells if str(r) in arg}
    if kind == 'columns':
        return {(r, c) for r, c in cells if str(c) in arg}
    if kind == 'cross':
        i = int(arg)
        return {(r, c) for r, c in cells if r == i or c == i}
    if kind == 'diagonal':
        return {(r, c) for r, c in cells if r == c or r + c == 8}
    if kind == 'checker':
        return {(r, c) for r, c in cells if (r + c) % 2 == 0}
    if kind == 'corners':
        return {(r, c) for r, c in cells if (r % 3 != 1) == (c % 3 == 1)}
    raise KeyError(name)


PATTERNS = ['none', 'digits:12', 'digits:89', 'digits:159', 'digits:47', 'cell:00', 'cell:48', 'cell:84', 'block:4', 'block:08',
            'block:26', 'block:57', 'rows:01', 'rows:8', 'columns:67', 'columns:0', 'cross:4', 'cross:8', 'diagonal', 'checker',
            'corners']
MORE = ['digits:1234', 'digits:6789', 'digits:258', 'digits:369', 'digits:13', 'digits:28', 'rows:345', 'columns:345', 'rows:678',
        'columns:012', 'block:13', 'block:048', 'block:246', 'cross:0', 'cross:5']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    patterns = PATTERNS + (MORE if thorough else [])
    for g in range(len(GRIDS)):
        for pattern in patterns:
            out.append(Job('completions', grid=g, pattern=pattern, changes=0, weight=6, path_timeout=200))
        for pattern in ['none', 'cell:48', 'digits:12', 'diagonal', 'rows:8', 'block:57', 'columns:0'] + \
                (['digits:159', 'cross:4', 'block:08'] if thorough else []):
            out.append(Job('completions', grid=g, pattern=pattern, changes=1, weight=8, path_timeout=200))
        for pattern in ['cell:84', 'digits:47'] if not thorough else ['none', 'cell:84', 'diagonal', 'digits:47', 'block:4']:
            out.append(Job('completions', grid=g, pattern=pattern, changes=2, weight=9, path_timeout=200))
    for i in range(len(PUZZLES)):
        if i != 1 or thorough:
            out.append(Job('puzzle', index=i, weight=7, path_timeout=200))
    for pattern in ['none', 'digits:12', 'digits:159', 'block:4', 'rows:01', 'corners']:
        out.append(Job('limits', pattern=pattern, weight=3, path_timeout=200))
    out.append(Job('few_clues', path_timeout=200))
    return out


def _units():
    for i in range(9):
        yield [(i, c) for c in range(9)]
        yield [(r, i) for r in range(9)]
        yield [(r, c) for r in range((i // 3) * 3, (i // 3) * 3 + 3) for c in range((i % 3) * 3, (i % 3) * 3 + 3)]


UNITS = list(_units())


def _blank(v):
    return v is None or v == 0


def _give(schema, how):
    if how == 'tuple':
        return tuple(tuple(row) for row in schema)
    if how == 'generator':
        return (iter(row) for row in schema)
    return [list(row) for row in schema]


def _check_grid(ctx, schema, grid, what):
    ctx.check(len(grid) == 9 and all(len(row) == 9 for row in grid), "a grid has another shape", grid=grid, **what)
    for r in range(9):
        for c in range(9):
            v = grid[r][c]
            ctx.check(isinstance(v, int) and 1 <= v <= 9, "a grid has a cell outside 1-9", cell=(r, c), value=v, **what)
            if not _blank(schema[r][c]):
                ctx.check(v == schema[r][c], "a grid does not keep a clue", cell=(r, c), value=v, **what)
    for unit in UNITS:
        ctx.check(len({grid[r][c] for r, c in unit}) == 9, "a grid repeats a value in a row, column or block", grid=grid,
                  unit=unit, **what)


def _missing(u, schema, grids):
    """A valid completion of the clues that is none of the grids."""
    cell = {}
    blanks = []
    for r in range(9):
        for c in range(9):
            if _blank(schema[r][c]):
                cell[r, c] = u.int('c{}{}'.format(r, c), 1, 9)
                blanks.append((r, c))
            else:
                cell[r, c] = schema[r][c]
    conditions = []
    for unit in UNITS:
        given = [cell[p] for p in unit if p not in blanks]
        free = [cell[p] for p in unit if p in blanks]
        if len(set(given)) != len(given):
            return False
        conditions.append(DISTINCT(free))
        conditions += [NOT(EQ(f, g)) for f in free for g in given]
    for grid in grids:
        conditions.append(NOT(AND(*[EQ(cell[r, c], grid[r][c]) for r, c in blanks])))
    return AND(*conditions)


def _run(ctx, schema, how='list', full=True, **args):
    S = loader.load('satisfy.sudoku')
    U = loader.load('satisfy.utils')
    if full:
        args['limit'] = U.INFINITY
    solver = S.SudokuSolver(_give(schema, how), **args)
    return solver, [tuple(map(tuple, g)) for g in solver]


def _compare(ctx, schema, grids, what):
    for g in grids:
        _check_grid(ctx, schema, g, what)
    ctx.check(len(set(grids)) == len(grids), "a grid was delivered twice", **what)
    ctx.never(lambda u: _missing(u, schema, grids), "a valid completion was not delivered")


def _base(ctx, grid, pattern):
    source = GRIDS[grid]
    holes = _pattern(pattern, source)
    null = ctx.choice('null', [0, None, 'mixed'])
    schema = [[int(source[r][c]) if (r, c) not in holes else (0 if (r + c) % 2 else None) if null == 'mixed' else null
               for c in range(9)] for r in range(9)]
    return schema, holes


def completions(ctx, grid, pattern, changes):
    schema, holes = _base(ctx, grid, pattern)
    positions = [(0, 0), (4, 4), (8, 8), (0, 8), (2, 5), (7, 3)]
    for k in range(changes):
        r, c = ctx.choice('at{}'.format(k), positions[:4] if changes == 1 else positions[2 * k:2 * k + 2])
        value = ctx.choice('clue{}'.format(k), [0, 1, 2, 5, 8, 9] if changes == 2 else list(range(10)))
        schema[r][c] = value
    how = ctx.choice('how', ['list', 'tuple', 'generator']) if changes == 0 else 'list'
    solver, grids = _run(ctx, schema, how)
    what = dict(schema=schema)
    _compare(ctx, schema, grids, what)
    given = [[schema[r][c] for r, c in unit if not _blank(schema[r][c])] for unit in UNITS]
    if any(len(set(g)) != len(g) for g in given):
        ctx.check(not grids, "contradicting clues give a grid", grids=grids, **what)
        ctx.reach('contradiction')
    elif not any(_blank(v) for row in schema for v in row):
        ctx.reach('complete grid')
    else:
        ctx.reach('unique' if len(grids) == 1 else 'several' if grids else 'no completion')
    stats = solver.get_stats()
    ctx.check(stats.interrupt is None and stats.count == len(grids), "wrong statistics", stats=stats, **what)
    again = [tuple(map(tuple, g)) for g in solver]
    ctx.check(again == grids, "solving again gives other grids", **what)
    ctx.reach('again')


def puzzle(ctx, index):
    cells = [int(c) for c in PUZZLES[index]]
    schema = [cells[9 * i:9 * i + 9] for i in range(9)]
    _, grids = _run(ctx, schema)
    _compare(ctx, schema, grids, dict(puzzle=PUZZLES[index]))
    ctx.reach('unique')


def limits(ctx, pattern):
    """By default one grid, otherwise as many as the limit allows."""
    schema, _ = _base(ctx, ctx.choice('grid', [0, 1, 2]), pattern)
    if ctx.choice('spoiled', [False, True]):
        # two equal clues, or a clue that leaves no completion
        schema[8][8] = schema[8][0] or 1
    _, full = _run(ctx, schema)
    limit = ctx.choice('limit', ['default', None, 0, 1, 2, 3])
    solver, grids = _run(ctx, schema, full=False, **({} if limit == 'default' else {'limit': limit}))
    what = dict(schema=schema, limit=limit)
    n = 1 if limit in ('default', None) else limit
    for g in grids:
        _check_grid(ctx, schema, g, what)
    ctx.check(grids == full[:n], "a limited run does not deliver the first grids", got=grids, **what)
    if n == 1:
        ctx.check(len(grids) <= 1, "more than one grid by default", **what)
        if not grids:
            ctx.never(lambda u: _missing(u, schema, []), "a completion exists but none was delivered")
    ctx.reach('default limit' if limit in ('default', None) else 'limit')


def few_clues(ctx):
    """Far more completions than can be enumerated: the delivered ones are valid."""
    schema = [[0] * 9 for _ in range(9)]
    for k in range(3):
        r, c = ctx.choice('at{}'.format(k), [(k, 2 * k), (8, 3 * k)])
        schema[r][c] = ctx.choice('clue{}'.format(k), [1, 2, 9])
    limit = ctx.choice('limit', [None, 3])
    _, grids = _run(ctx, schema, full=False, limit=limit)
    given = [[schema[r][c] for r, c in unit if not _blank(schema[r][c])] for unit in UNITS]
    bad = any(len(set(g)) != len(g) for g in given)
    ctx.check(len(grids) == (0 if bad else 1 if limit is None else 3), "wrong number of grids", schema=schema, grids=grids)
    for g in grids:
        _check_grid(ctx, schema, g, dict(schema=schema))
    ctx.check(len(set(grids)) == len(grids), "a grid was delivered twice", schema=schema)
