"""P09: map regions are found exactly and adjacent ones differ in colour."""
import itertools

from symex import loader
from symex.api import AND, EQ, NOT
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "every map (up to renaming of its characters) with lines of the lengths in SHAPES: up to 6 (thorough 9) cells, each a blank, a "
    "dot or one of the characters used so far or a new one; 1-4 colours, default limit or no limit",
    "given as a string, or as a list, tuple, generator of strings, lists, tuples; larger maps of LARGE (spirals, nested regions, "
    "more than 36 regions, ragged lines)",
    "whether a map has a colouring is decided by z3 over all assignments of the colours to its regions",
]
OUTSIDE = ["larger maps other than LARGE"]
WITNESSES = ['coloured', 'uncolourable', 'no regions', 'ragged', 'one colour', 'diagonal', 'large', 'limit', 'again', 'forms',
             'duplicate colours']

# lengths of the lines
SHAPES = [(), (0,), (1,), (3,), (1, 1, 1), (2, 2), (2, 1), (0, 2), (2, 0, 2), (1, 2), (1, 3), (3, 1), (2, 2, 1), (1, 0, 1), (1, 2, 1),
          (0, 1, 3), (5,), (3, 0, 1)]
BIG = [(3, 3), (2, 2, 2), (1, 2, 3), (2, 1, 3), (3, 1, 2), (4, 2), (6,), (1, 5)]
COLORS = {1: ('red',), 2: ('red', 'green'), 3: ('blue', 'green', 'x'), 4: ('red', 'green', 'blue', 'yellow')}
CHARS = 'ABCDEFGHI'
OTHER = '0#_- \t.é∂'

LARGE = {
    'spiral': ("AAAAAAAA\nABBBBBBA\nABAAAABA\nABABBABA\nABABBAB \nABABBBB \nABAAAAAA\nABBBBBBB", 2, True),
    'diagonals': ("A B A B\n B A B \nA A B B\n.B.A.B.\nA.A.B.B", 4, True),
    'comb': ("AAAAAAAAA\nA.A.A.A.A\nABABABABA\n.B.B.B.B.\nBBBBBBBBB", 2, True),
    'nested': ("AAAAA\nABBBA\nABABA\nABBBA\nAAAAA", 2, True),
    'many regions': ('\n'.join(''.join('ABCD'[(r % 2) * 2 + c % 2] for c in range(9)) for r in range(7)), 4, True),
    'quadrants': ('AB\nCD', 3, False),
    'checkers': ('ABAB\nBABA\nABAB\nBABA', 2, True),
    'stripes': ('\n'.join('A' * k if k % 2 else 'B' * k for k in range(9)), 2, True),
    'far ends': ('A' * 30 + '\n' + 'B' * 29 + 'A\n' + 'A' * 30, 2, True),
    'snake': ('A         \n A A A A A\n  A A A A', 2, True),
    'wheel': (' BBC\nEAAC\nEFD ', 3, False),
    'wheel coloured': (' BBC\nEAAC\nEFD ', 4, True),
    'right first': ('  A\n  A\nAAA\nA  \nBBB', 2, True),
    'up and left': ('   A\n  A \n A B\nA BB', 2, True),
    'blocks': ('1122\n1122\n3344\n3344', 4, True),
    'digits': ('000\n101\n111', 2, True),
    'dots between': ('A.A\n...\nA.A', 1, True),
    'split then joined': ('A A\nA A\nAAA', 1, True),
    'scattered 0': ('BBBBCBACB\nABA ACBBB\nCAB BAAC \nBBCB BACA\nC AB BAC ', 4, True),
    'scattered 1': ('xx.zzz.\nzyyxz..\nxzxz zy\n z.yxxz\ny y.xxy\ny..yyyz', 4, True),
    'scattered 2': ('caaccba  ac \nb.a.daaabb .\nadca acabbbc\nccd.c .b .ac', 4, True),
    'scattered 3': ('   BABA\n.A.AAB.\nAAB.. B\nA  ABA \nA. A BA\n.A AAA \nBA..ABA', 4, True),
    'scattered 4': ('322113\n2131.4\n142332\n222443\n224414\n21.423\n122233\n1.1423', 4, True),
}


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for shape in SHAPES + (BIG if thorough else []):
        cells = sum(shape)
        if cells <= 3:
            out.append(Job('maps', shape=shape, colors=None, chars=9, blanks=' .', weight=2))
        else:
            for colors in COLORS:
                out.append(Job('maps', shape=shape, colors=colors, chars=9, blanks=' .' if cells < 5 else ' ', weight=cells))
    if not thorough:
        for shape, colors in [((3, 3), 2), ((2, 2, 2), 3), ((1, 2, 3), 3), ((2, 1, 3), 2), ((2, 3, 1), 4)]:
            out.append(Job('maps', shape=shape, colors=colors, chars=3, blanks=' ', weight=8))
        for head in itertools.product(' AB', repeat=2):
            for colors in (2, 3) if ''.join(head) in ('AA', 'A ', ' A') else ():
                out.append(Job('maps', shape=(3, 3, 3), colors=colors, chars=2, blanks=' ' if ' ' not in head else '',
                               head=''.join(head), weight=30))
        out.append(Job('maps', shape=(3, 3, 3), colors=2, chars=2, blanks='', head='AB', weight=10))
    else:
        for head in itertools.product(' AB', repeat=2):
            for colors in (1, 2, 3):
                out.append(Job('maps', shape=(3, 3, 3), colors=colors, chars=2, blanks=' ', head=''.join(head), weight=30))
                out.append(Job('maps', shape=(3, 4, 1), colors=colors, chars=2, blanks=' ', head=''.join(head), weight=20))
        for head in ['AA', 'AB']:
            for colors in (2, 3, 4):
                out.append(Job('maps', shape=(3, 3, 3), colors=colors, chars=4, blanks='', head=head, weight=30))
    for name in sorted(LARGE):
        out.append(Job('large', name=name, path_timeout=200, weight=5))
    for policy in P.POLICIES:
        out.append(Job('settings', policy=policy, weight=5))
    for k in range(8):
        out.append(Job('forms', form=k))
    return out


def regions(lines):
    """The regions of a map: sets of cells."""
    cell = {(r, c): ch for r, line in enumerate(lines) for c, ch in enumerate(line) if ch not in ' .'}
    label = {}
    for start in sorted(cell):
        if start in label:
            continue
        stack, label[start] = [start], start
        while stack:
            r, c = stack.pop()
            for p in itertools.product((r - 1, r, r + 1), (c - 1, c, c + 1)):
                if p not in label and cell.get(p) == cell[start]:
                    label[p] = start
                    stack.append(p)
    out = {}
    for p in sorted(label):
        out.setdefault(label[p], []).append(p)
    out = [out[k] for k in sorted(out)]
    edges = set()
    owner = {p: i for i, group in enumerate(out) for p in group}
    for (r, c), i in owner.items():
        for p in itertools.product((r - 1, r, r + 1), (c - 1, c, c + 1)):
            j = owner.get(p, i)
            if i < j:
                edges.add((i, j))
    return out, sorted(edges)


def _check(ctx, lines, colors, found, limited=False):
    """Checks the delivered maps; returns the colours of the regions of each."""
    lines = [list(line) for line in lines]
    groups, edges = regions(lines)
    what = dict(map=[''.join(line) for line in lines], colors=list(colors))
    inside = {p for group in groups for p in group}
    colourings = []
    for image in found:
        ctx.check([len(row) for row in image] == [len(line) for line in lines], "a coloured map has another shape", got=image, **what)
        color = {}
        for r, row in enumerate(image):
            for c, text in enumerate(row):
                if (r, c) not in inside:
                    ctx.check(text == ' ', "a cell outside the regions is not blank", cell=(r, c), got=text, **what)
                    continue
                ctx.check(text.startswith('\x01') and text.endswith('\x03') and '\x02' in text, "a cell is not coloured",
                          cell=(r, c), got=text, **what)
                color[r, c], shown = text[1:-1].split('\x02')
                ctx.check(len(shown) == 1, "a cell is not one character wide", cell=(r, c), got=text, **what)
                ctx.check(color[r, c] in colors, "a colour that was not given", cell=(r, c), got=text, **what)
        for group in groups:
            ctx.check(len({color[p] for p in group}) == 1, "a region has several colours", region=group, got=image, **what)
        for i, j in edges:
            ctx.check(color[groups[i][0]] != color[groups[j][0]], "touching regions have the same colour", regions=(groups[i], groups[j]),
                      got=image, **what)
        colourings.append(tuple(color[group[0]] for group in groups))
    if not found and not limited:
        distinct = sorted(set(colors))

        def colouring(u):
            x = [u.int('region{}'.format(i), 0, len(distinct) - 1) for i in range(len(groups))]
            if groups and not distinct:
                return False
            return AND(*[NOT(EQ(x[i], x[j])) for i, j in edges]) if edges else True

        ctx.never(colouring, "a map that can be coloured was not")
        ctx.reach('uncolourable')
    elif found:
        ctx.reach('coloured' if groups else 'no regions')
        if len(set(len(line) for line in lines)) > 1:
            ctx.reach('ragged')
        if len(colors) == 1:
            ctx.reach('one colour')
        if any(not any(abs(a[0] - b[0]) + abs(a[1] - b[1]) == 1 for b in group) for group in groups if len(group) > 1 for a in group):
            ctx.reach('diagonal')
    return colourings


def _lines(ctx, shape, chars, blanks, head=''):
    lines, used, k = [], 0, 0
    for n in shape:
        line = ''
        for _ in range(n):
            if k < len(head):
                ch = head[k]
            else:
                ch = ctx.choice('cell{}'.format(k), list(blanks) + list(CHARS[:min(used + 1, chars)]))
            if ch in CHARS:
                used = max(used, CHARS.index(ch) + 1)
            line += ch
            k += 1
        lines.append(line)
    return lines


def maps(ctx, shape, colors, chars, blanks, head=''):
    M = loader.load('satisfy.tool.ascii_map_coloring')
    U = loader.load('satisfy.utils')
    lines = _lines(ctx, shape, chars, blanks, head)
    if colors is None:
        colors = ctx.choice('colors', sorted(COLORS))
    colors = COLORS[colors]
    args = {}
    if sum(shape) <= 3 and ctx.choice('all', [False, True]):
        args['limit'] = U.INFINITY
    source = '\n'.join(lines) if shape and sum(shape) % 2 else lines
    solver = M.AsciiMapColoringSolver(source, colors, **args)
    found = list(solver)
    colourings = _check(ctx, lines, colors, found)
    if not args:
        ctx.check(len(found) <= 1, "more than one map without a limit", got=found)
    else:
        ctx.check(len(set(colourings)) == len(colourings), "a colouring was delivered twice", got=found, lines=lines)


def large(ctx, name):
    M = loader.load('satisfy.tool.ascii_map_coloring')
    source, count, colourable = LARGE[name]
    lines = source.split('\n')
    solver = M.AsciiMapColoringSolver(source, COLORS[count])
    found = list(solver)
    _check(ctx, lines, COLORS[count], found)
    ctx.check(bool(found) == colourable, "wrong verdict", map=lines)
    ctx.check([''.join(row) for row in solver.ascii_map] == lines, "the map of the solver is another one", map=lines)
    again = list(solver)
    ctx.check(again == found, "solving again gives another map", map=lines)
    ctx.reach('again')
    ctx.reach('large')
    limit = ctx.choice('limit', [0, 1, 3])
    got = list(M.AsciiMapColoringSolver(source, COLORS[count], limit=limit))
    _check(ctx, lines, COLORS[count], got, limited=limit == 0)
    ctx.check(len(got) <= limit, "more maps than the limit", map=lines, limit=limit)
    ctx.reach('limit')


SMALL = ['AB\n A', 'A\nB\nC', 'ABA', 'AA.\n BC', 'A']


def settings(ctx, policy):
    M = loader.load('satisfy.tool.ascii_map_coloring')
    S = loader.load('satisfy.solver')
    U = loader.load('satisfy.utils')
    ctx.control_random = policy == 'RANDOM'
    source = ctx.choice('map', SMALL)
    colors = COLORS[ctx.choice('colors', [1, 2, 3])]
    limit = ctx.choice('limit', [None, U.INFINITY, 2])
    solver = M.AsciiMapColoringSolver(source, colors, limit=limit, var_selection_policy=S.VarSelectionPolicy[policy],
                                      compile_constraints=ctx.choice('compile', [True, False]))
    found = list(solver)
    _check(ctx, source.split('\n'), colors, found)
    if limit != U.INFINITY:
        ctx.check(len(found) <= (limit or 1), "more maps than the limit", map=source, limit=limit)


def forms(ctx, form):
    """Kinds of inputs, other characters, odd lists of colours."""
    M = loader.load('satisfy.tool.ascii_map_coloring')
    a = ctx.choice('first', list(OTHER))
    b = ctx.choice('second', list(OTHER))
    lines = [[a + b + a, b + a], [a, b + b, a + 'z']][ctx.choice('map', [0, 1])]
    source = [lambda: '\n'.join(lines), lambda: list(lines), lambda: tuple(lines), lambda: (line for line in lines),
              lambda: [list(line) for line in lines], lambda: tuple(tuple(line) for line in lines),
              lambda: [(ch for ch in line) for line in lines], lambda: list(lines)][form]()
    colors = [('red', 'green', 'blue'), ['red', 'green', 'blue'], 'xyz', ('p', 'p', 'q', 'r', 'q'), ['p', 'q', 'p', 'q'],
              iter(['red', 'blue', 'on_red']), ('a', 'a'), []][(form + 3 * ctx.choice('colors', [0, 1])) % 8]
    names = ['red', 'blue', 'on_red'] if hasattr(colors, '__next__') else list(colors)
    found = list(M.AsciiMapColoringSolver(source, colors))
    _check(ctx, lines, names, found)
    ctx.reach('forms')
    if len(set(names)) < len(names):
        ctx.reach('duplicate colours')
