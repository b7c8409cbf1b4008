"""P03: clues derived from a picture are its exact run lengths."""
import itertools

from symex import loader
from symex.api import AND, EQ, IFF, NOT, OR, SUM, ITE, TRUTH
from symex.runner import Job

BOUNDS = [
    "every picture of up to 3x3, 2x4, 1x7 (thorough 3x4, 4x3, 1x10) symbolic cells: integers of any sign, Booleans, cells other than 0/1",
    "every combination of row lengths 0-3 in pictures of 3 rows (thorough 0-4)",
    "every text image of up to 3 lines of up to 3 characters from the blank characters, letters and punctuation, and custom "
    "blank or filled characters",
]
OUTSIDE = ["longer lines", "line separators other than the newline"]
WITNESSES = ['clues', 'ragged', 'empty line', 'image', 'round trip', 'custom']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for shape in [(1, 1), (1, 5), (5, 1), (2, 2), (2, 4), (4, 2), (3, 3), (1, 7)] + \
            ([(3, 4), (4, 3), (1, 10), (10, 1), (2, 6)] if thorough else []):
        out.append(Job('picture', shape=shape, kind='int', weight=shape[0] * shape[1]))
    for shape in [(2, 3), (3, 2)]:
        out.append(Job('picture', shape=shape, kind='bool', weight=5))
    top = 4 if thorough else 3
    for lengths in itertools.product(range(top + 1), repeat=3):
        if sum(lengths) > 9:
            continue
        out.append(Job('ragged', lengths=list(lengths), weight=sum(lengths)))
    for lengths in [[], [0], [2], [0, 0], [3, 1], [1, 3], [2, 0, 0, 1]]:
        out.append(Job('ragged', lengths=lengths))
    for lengths in [[0], [1], [3], [1, 2], [2, 0], [0, 2], [2, 1, 2], [1, 1, 0], [0, 0, 3]] + \
            ([[3, 2], [2, 2, 2]] if thorough else []):
        out.append(Job('image', lengths=lengths, weight=2 * sum(lengths)))
    for shape in [(1, 3), (2, 2), (2, 3), (3, 2), (0, 0), (2, 0)] + ([(3, 3), (2, 4)] if thorough else []):
        out.append(Job('round_trip', shape=shape, weight=4))
    out.append(Job('custom'))
    return out


def _match(cells, clue):
    """clue is the list of the run lengths of the filled cells (a condition)."""
    n = len(cells)
    filled = [TRUTH(c) for c in cells]
    out = []
    for bits in itertools.product([0, 1], repeat=n):
        lengths = [len(list(g)) for b, g in itertools.groupby(bits) if b]
        if len(lengths) != len(clue):
            continue
        out.append(AND(*([f if b else NOT(f) for f, b in zip(filled, bits)] + [EQ(a, b) for a, b in zip(clue, lengths)])))
    return OR(*out)


def _check(ctx, rows, width, clues):
    """rows: lists of symbolic cells, short rows are blank to the right."""
    ctx.check(sorted(clues) == ['columns', 'rows'], "not a nonogram", clues=clues)
    given, down = clues['rows'], clues['columns']
    ctx.check(len(given) == len(rows), "wrong number of row clues", clues=clues)
    ctx.check(len(down) == width, "wrong number of column clues", clues=clues, width=width)
    for row, clue in zip(rows, given):
        ctx.check(_match(row, list(clue)), "a row clue is not the row's runs", row=row, clue=clue)
        if not clue:
            ctx.reach('empty line')
    for c in range(width):
        column = [row[c] if c < len(row) else 0 for row in rows]
        ctx.check(_match(column, list(down[c])), "a column clue is not the column's runs", column=column, clue=down[c])
    ctx.reach('clues')


def picture(ctx, shape, kind):
    N = loader.load('satisfy.nonogram')
    n, m = shape
    cells = [[ctx.bool('c{}_{}'.format(i, j)) if kind == 'bool' else ctx.int('c{}_{}'.format(i, j), -3, 3) for j in range(m)]
             for i in range(n)]
    how = ctx.choice('as', ['list', 'tuple'])
    given = [list(r) for r in cells] if how == 'list' else tuple(tuple(r) for r in cells)
    ctx.check(tuple(N.pixmap_shape(given)) == (n, m), "wrong shape", shape=N.pixmap_shape(given))
    _check(ctx, cells, m, N.pixmap_to_nonogram(given))


def ragged(ctx, lengths):
    N = loader.load('satisfy.nonogram')
    cells = [[ctx.int('c{}_{}'.format(i, j), 0, 1) for j in range(k)] for i, k in enumerate(lengths)]
    width = max(lengths + [0])
    given = [list(r) for r in cells]
    ctx.check(tuple(N.pixmap_shape(given)) == (len(lengths), width), "wrong shape", shape=N.pixmap_shape(given))
    _check(ctx, cells, width, N.pixmap_to_nonogram(given))
    ctx.check(all(len(a) == len(b) for a, b in zip(given, cells)), "the picture was changed")
    ctx.reach('ragged')


CHARACTERS = [' ', '_', '#', 'x', '.', '0', '\t']


def _text(ctx, lengths, characters):
    return [''.join(ctx.choice('t{}_{}'.format(i, j), characters) for j in range(k)) for i, k in enumerate(lengths)]


def image(ctx, lengths):
    """Text image to picture, to clues and back."""
    D = loader.load('satisfy.tool.demo_nonogram')
    total = sum(lengths)
    lines = _text(ctx, lengths, CHARACTERS if total <= 4 else CHARACTERS[:4])
    text = '\n'.join(lines)
    width = max(lengths)
    pixmap = D.image_to_pixmap(text)
    ctx.check(len(pixmap) == len(lines), "wrong number of rows", text=text, pixmap=pixmap)
    for line, row in zip(lines, pixmap):
        for c in range(max(width, len(row))):
            expected = c < len(line) and line[c] not in ' _'
            got = c < len(row) and bool(row[c])
            ctx.check(expected == got, "a cell is not what the text says", text=text, pixmap=pixmap)
    rows = [[int(ch not in ' _') for ch in line] for line in lines]
    _check(ctx, rows, width, D.image_to_nonogram(text))
    back = D.pixmap_to_image(pixmap)
    _same(ctx, D, rows, back)
    again = D.image_to_pixmap(back)
    _filled(ctx, rows, again)
    ctx.reach('image')


def _same(ctx, D, rows, text):
    lines = text.split('\n')
    ctx.check(len(lines) == max(len(rows), 1), "a picture's image has another number of lines", rows=rows, text=text)
    for row, line in zip(rows, lines):
        for c in range(max(len(row), len(line))):
            a = c < len(row) and bool(row[c])
            b = c < len(line) and line[c] not in ' _'
            ctx.check(a == b, "a picture's image fills other cells", rows=rows, text=text)


def _filled(ctx, rows, pixmap):
    ctx.check(len(pixmap) == max(len(rows), 1), "another number of rows after a round trip", rows=rows, pixmap=pixmap)
    for row, other in zip(rows, pixmap):
        for c in range(max(len(row), len(other))):
            a = c < len(row) and bool(row[c])
            b = c < len(other) and bool(other[c])
            ctx.check(a == b, "another cell is filled after a round trip", rows=rows, pixmap=pixmap)


def round_trip(ctx, shape):
    """Picture with symbolic cells to text and back."""
    D = loader.load('satisfy.tool.demo_nonogram')
    n, m = shape
    cells = [[ctx.int('c{}_{}'.format(i, j), -1, 2) for j in range(m)] for i in range(n)]
    text = D.pixmap_to_image([list(r) for r in cells])
    pixmap = D.image_to_pixmap(text)
    ctx.check(len(pixmap) == max(n, 1), "another number of rows after a round trip", pixmap=pixmap)
    for i in range(n):
        for j in range(m):
            value = pixmap[i][j] if j < len(pixmap[i]) else 0
            ctx.check(IFF(TRUTH(cells[i][j]), TRUTH(value)), "another cell is filled after a round trip", cell=(i, j), text=text)
    ctx.reach('round trip')


def custom(ctx):
    """Other blank and filled characters."""
    D = loader.load('satisfy.tool.demo_nonogram')
    zeroes = ctx.choice('zeroes', ['.', ' .', 'x', {'o', '-'}])
    lines = _text(ctx, [2, 2], ['.', 'x', ' ', 'o'])
    rows = [[int(ch not in zeroes) for ch in line] for line in lines]
    pixmap = D.image_to_pixmap('\n'.join(lines), zeroes=zeroes)
    _filled(ctx, rows, pixmap)
    _check(ctx, rows, 2, D.image_to_nonogram('\n'.join(lines), zeroes=zeroes))
    text = D.pixmap_to_image(rows, zero='.', one='o')
    ctx.check(text == '\n'.join(''.join('o' if v else '.' for v in row) for row in rows), "wrong characters", text=text)
    ctx.reach('custom')
