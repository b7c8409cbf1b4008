"""P10: malformed puzzles are refused, well-formed ones accepted."""
import collections
import decimal
import fractions
import itertools

from symex import loader
from symex.runner import Job

BOUNDS = [
    "sudoku: 0-11 rows, one or two rows of 0-11 values at any position, any cell a symbolic integer in -12..21 or one of the odd "
    "values of ODD; lists, tuples, generators, iterators, ranges, deques, dictionary views, arrays",
    "knapsack: 0-4 items, 0-3 capacities, any number of weight rows in 0..items+2, any row lengths in 0..capacities+2, any number "
    "symbolic in -5..5 or one of the odd values; the same kinds of sequences",
]
OUTSIDE = [
    "values that are equal to an accepted one without being an int (True, 5.0): neither refusal nor acceptance is demanded",
    "booleans as knapsack numbers (they are ints in Python)",
]
WITNESSES = ['row number', 'row length', 'bad value', 'accepted', 'forms', 'odd number', 'too many', 'too few', 'row of weights',
             'no items', 'no capacities']

GRID = ["534678912", "672195348", "198342567", "859761423", "426853791", "713924856", "961537284", "287419635", "345286179"]
ODD = ['', '5', 'x', 1.5, -0.5, float('nan'), float('inf'), (), (5,), [5], {}, {5}, object, 10 ** 30, -10 ** 20, b'5', 2 + 1j, 9.5, '0',
       frozenset()]
NUMBERS = ['', '5', 1.5, 2.0, None, (), [1], {}, 2 + 1j, float('nan'), b'1', float('inf'), -float('inf'), 0.0, -1.0, 'inf', '', 'x', object(),
           range(2), 0j, 1e300, {1}, '0', b'', fractions.Fraction(3, 2), decimal.Decimal('1.5')]

FORMS = ['list', 'tuple', 'generator', 'iter', 'deque', 'dict', 'map', 'outer generator', 'custom']


class _Custom(collections.abc.Sequence):
    def __init__(self, items):
        self.items = list(items)

    def __len__(self):
        return len(self.items)

    def __getitem__(self, i):
        return self.items[i]


def _one(form, items):
    items = list(items)
    if form == 'tuple':
        return tuple(items)
    if form == 'generator':
        return (x for x in items)
    if form == 'iter':
        return iter(items)
    if form == 'deque':
        return collections.deque(items)
    if form == 'dict':
        return {i: x for i, x in enumerate(items)}.values()
    if form == 'map':
        return map(lambda x: x, items)
    if form == 'custom':
        return _Custom(items)
    return items


def _give(form, rows):
    if form == 'outer generator':
        return (list(row) for row in rows)
    return _one(form, [_one(form, row) for row in rows])


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for form in FORMS:
        out.append(Job('sudoku_shape', form=form))
        out.append(Job('sudoku_forms', form=form))
    for row in range(9):
        out.append(Job('sudoku_value', row=row, const_hash=False, weight=5, columns=list(range(9)) if thorough else
                       sorted({0, row, 8 - row, 8, (row + 4) % 9})))
    out.append(Job('sudoku_odd'))
    for items in range(0, 4 + thorough):
        for capacities in range(0, 3 + thorough):
            out.append(Job('knapsack_shape', items=items, capacities=capacities, weight=items * 3))
            if items:
                out.append(Job('knapsack_odd', items=items, capacities=capacities))
    out.append(Job('knapsack_forms'))
    return out


def _refused(make):
    """The error a constructor raises, or None."""
    try:
        make()
    except Exception as exc:     # noqa: BLE001
        return exc
    return None


def _grid():
    return [[int(ch) for ch in row] for row in GRID]


def sudoku_shape(ctx, form):
    U = loader.load('satisfy.sudoku')
    rows = ctx.choice('rows', [9, 9, 9, 0, 1, 3, 8, 10, 11])
    blank = ctx.choice('blank', [False, True])
    schema = [list(row) for row in _grid() * 2][:rows]
    if blank:
        schema = [[0] * len(row) for row in schema]
    wrong = rows != 9
    for k in range(2):
        if not schema:
            break
        length = ctx.choice('length{}'.format(k), [9, 9, 0, 1, 8, 10, 11][:4 if k else 7])
        if length != 9:
            at = ctx.choice('at{}'.format(k), list(range(len(schema))) if k == 0 else [0, len(schema) - 1])
            schema[at] = (schema[at] * 2 + [0] * 11)[:length]
    wrong = wrong or any(len(row) != 9 for row in schema)
    error = _refused(lambda: U.SudokuSolver(_give(form, schema)))
    what = dict(lengths=[len(row) for row in schema], form=form)
    if wrong:
        ctx.check(error is not None, "a sudoku of another shape is accepted", **what)
        ctx.reach('row number' if rows != 9 else 'row length')
    else:
        ctx.check(error is None, "a well-formed sudoku is refused", error=repr(error), **what)
        ctx.reach('accepted')


def sudoku_value(ctx, row, columns):
    """Any integer, or an odd value, in any cell of a grid."""
    U = loader.load('satisfy.sudoku')
    column = ctx.choice('column', columns)
    schema = _grid()
    if ctx.choice('blank', [False, True]):
        schema = [[None] * 9 for _ in range(9)]
    value = ctx.int('value', -12, 21)
    schema[row][column] = value
    ok = 0 <= value <= 9
    error = _refused(lambda: U.SudokuSolver(schema))
    if ok:
        ctx.check(error is None, "a well-formed sudoku is refused", cell=(row, column), value=value, error=repr(error))
        ctx.reach('accepted')
    else:
        ctx.check(error is not None, "a value outside 0-9 is accepted", cell=(row, column), value=value)
        ctx.reach('bad value')


def sudoku_odd(ctx):
    U = loader.load('satisfy.sudoku')
    row, column = ctx.choice('cell', [(0, 0), (0, 8), (4, 4), (8, 0), (8, 8), (2, 7), (6, 1)])
    value = ctx.choice('value', ODD)
    schema = _grid()
    if ctx.choice('blank', [False, True]):
        schema = [[0] * 9 for _ in range(9)]
    schema[row][column] = value
    error = _refused(lambda: U.SudokuSolver(schema))
    ctx.check(error is not None, "a value outside 0-9 is accepted", cell=(row, column), value=repr(value))
    ctx.reach('bad value')


def sudoku_forms(ctx, form):
    """The kind of sequence does not matter; the blanks may be 0 or null."""
    U = loader.load('satisfy.sudoku')
    schema = _grid()
    cells = [(0, 0), (4, 4), (8, 8), (0, 3), (3, 0), (8, 1), (2, 6), (7, 7)]
    for k, (r, c) in enumerate(cells):
        blank = ctx.choice('blank{}'.format(k), [0, None, 'clue'][:3 if k < 4 else 2])
        if blank != 'clue':
            schema[r][c] = blank
    try:
        found = list(U.SudokuSolver(_give(form, schema)))
    except Exception as exc:     # noqa: BLE001
        ctx.check(False, "a well-formed sudoku is refused", error=repr(exc), form=form, schema=schema)
        return
    ctx.check([[list(row) for row in grid] for grid in found] == [_grid()], "another answer than the one completion", form=form,
              schema=schema, got=found)
    ctx.reach('forms')


def knapsack_shape(ctx, items, capacities):
    K = loader.load('satisfy.knapsack')
    form = ctx.choice('form', FORMS) if items < 2 else FORMS[(items + capacities) % len(FORMS)]
    rows = ctx.choice('rows', list(range(items + 3)))
    lengths = [capacities] * rows
    for k in range(min(rows, 2)):
        length = ctx.choice('length{}'.format(k), list(range(capacities, capacities + 3)) + list(range(capacities)))
        if length != capacities:
            lengths[ctx.choice('at{}'.format(k), list(range(rows)))] = length
    values = [ctx.int('value{}'.format(i), -5, 5) for i in range(items)]
    caps = [ctx.int('capacity{}'.format(i), -5, 5) for i in range(capacities)]
    weights = [[ctx.int('weight{}_{}'.format(r, c), -5, 5) for c in range(n)] for r, n in enumerate(lengths)]
    what = dict(items=items, capacities=capacities, lengths=lengths, form=form)
    error = _refused(lambda: K.KnapsackOptimizer(_one(form, values), _one(form, caps), _give(form, weights)))
    if rows != items:
        ctx.check(error is not None, "too {} weight rows are accepted".format('many' if rows > items else 'few'), **what)
        ctx.reach('too many' if rows > items else 'too few')
    elif any(n != capacities for n in lengths):
        ctx.check(error is not None, "a weight row of the wrong length is accepted", **what)
        ctx.reach('row of weights')
    else:
        ctx.check(error is None, "a well-formed knapsack is refused", error=repr(error), **what)
        ctx.reach('accepted')
        if not items:
            ctx.reach('no items')
        if not capacities:
            ctx.reach('no capacities')


def knapsack_odd(ctx, items, capacities):
    K = loader.load('satisfy.knapsack')
    form = ctx.choice('form', FORMS[:2])
    values = [ctx.int('value{}'.format(i), -5, 5) for i in range(items)]
    caps = [ctx.int('capacity{}'.format(i), -5, 5) for i in range(capacities)]
    weights = [[ctx.int('weight{}_{}'.format(r, c), -5, 5) for c in range(capacities)] for r in range(items)]
    where = [('value', i, 0) for i in range(items)] + [('capacity', i, 0) for i in range(capacities)] + \
        [('weight', i, c) for i in range(items) for c in range(capacities)]
    kind, i, c = ctx.choice('where', where)
    odd = ctx.choice('odd', NUMBERS)
    if kind == 'value':
        values[i] = odd
    elif kind == 'capacity':
        caps[i] = odd
    else:
        weights[i][c] = odd
    error = _refused(lambda: K.KnapsackOptimizer(_one(form, values), _one(form, caps), _give(form, weights)))
    ctx.check(error is not None, "a number that is not an integer is accepted", where=(kind, i, c), value=repr(odd))
    ctx.reach('odd number')


KNAPSACKS = [
    ([10, 12, 20, 23], [[1, 1], [2, 1], [5, 3], [4, 4]], [8, 6], 45),
    ([4, 2, 1], [[12], [2], [1]], [3], 3),
    ([1, 2], [[], []], [], 3),
    ([], [], [3, 4], 0),
    ([5], [[7]], [6], 0),
    ([5, -1], [[7], [-3]], [4], 4),
]


def knapsack_forms(ctx):
    K = loader.load('satisfy.knapsack')
    values, weights, caps, best = ctx.choice('instance', KNAPSACKS)
    forms = [ctx.choice(name, FORMS) for name in ('values', 'capacities', 'weights')]
    try:
        optimizer = K.KnapsackOptimizer(_one(forms[0], values), _one(forms[1], caps), _give(forms[2], weights))
        result = optimizer()
    except Exception as exc:     # noqa: BLE001
        ctx.check(False, "a well-formed knapsack is refused", error=repr(exc), forms=forms, values=values)
        return
    ctx.check(result.value == best, "another value than with lists", got=result, forms=forms, expected=best)
    ctx.reach('forms')
