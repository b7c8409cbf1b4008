"""T02: tool commands print exactly the solver's answers."""
import ast
import contextlib
import io
import itertools
import json
import os
import re
import shutil
import sys
import tempfile

from symex import loader
from symex.runner import Job
from .T01 import NUMBER

BOUNDS = [
    "every command with: no input or one of the instances listed per command (file or standard input; nonogram: JSON or image), "
    "limits none, 0-3, -l without value; timeouts none, 0, a few clock readings, 10^9 s, -t without value, on a clock that "
    "advances with every reading; short and long option names; with and without --show-model",
    "graph_labeling: every graph of 3 nodes with 1-3 labels; ascii_map_coloring: every 2x2 map over two characters, blank and dot, "
    "with 1-3 colours; queens: boards of 0-6; cryptarithm: -z in every spelling; knapsack: 0-3 items",
]
OUTSIDE = ["other inputs: what the solvers deliver is decided by P01-P09, here only that it is printed in full; invalid options"]
WITNESSES = ['knapsack', 'sudoku', 'graph_labeling', 'ascii_map_coloring', 'nonogram', 'queens', 'einstein', 'cryptarithm',
             'example', 'limit reached', 'timeout reached', 'complete', 'no answer', 'standard input', 'model', 'image']

GRID = ["534678912", "672195348", "198342567", "859761423", "426853791", "713924856", "961537284", "287419635", "345286179"]


def _sudoku(pattern, blank=0):
    grid = [[int(ch) for ch in row] for row in GRID]
    for r, c in pattern:
        grid[r][c] = blank
    return grid


SUDOKUS = {
    'complete': _sudoku([]),
    'unique': _sudoku([(0, 0), (4, 4), (8, 8), (2, 7), (0, 8)]),
    'null': _sudoku([(0, 0), (5, 4), (7, 3)], blank=None),
    'two': _sudoku([(r, c) for r in range(9) for c in range(9) if GRID[r][c] in '12']),
    'many': _sudoku([(r, c) for r in range(9) for c in range(9) if GRID[r][c] in '127']),
    'none': _sudoku([(0, 0)])[:8] + [[3, 4, 5, 2, 8, 6, 1, 7, 7]],
}
NONOGRAMS = {
    'cross': dict(rows=[[1], [3], [1]], columns=[[1], [3], [1]]),
    'two': dict(rows=[[1], [1]], columns=[[1], [1]]),
    'six': dict(rows=[[1], [1], [1]], columns=[[1], [1], [1]]),
    'blank': dict(rows=[[], []], columns=[[], [], []]),
    'full': dict(rows=[[2], [2], [2]], columns=[[3], [3]]),
    'none': dict(rows=[[2], []], columns=[[2], []]),
    'wide': dict(rows=[[1, 1, 2]], columns=[[1], [], [1], [], [1], [1]]),
    'edge': dict(rows=[[], [1], []], columns=[[], [], [1]]),
}
IMAGES = ["# #\n # \n# #", "##\n#", "_#_\n###", "X", "", "  \n  ", "#__#\n_##\n\n ab", "#\n"]
KNAPSACKS = {
    'default like': dict(values=[10, 12, 20, 23], capacities=[8, 6], weights=[[1, 1], [2, 1], [5, 3], [4, 4]]),
    'one': dict(values=[4, 2, 1], capacities=[3], weights=[[12], [2], [1]]),
    'nothing fits': dict(values=[4, 2], capacities=[3], weights=[[5], [6]]),
    'infeasible': dict(values=[4, 2], capacities=[-3], weights=[[5], [6]]),
    'no items': dict(values=[], capacities=[2], weights=[]),
    'everything': dict(values=[1, 1, 1], capacities=[9], weights=[[1], [2], [3]]),
    'last': dict(values=[1, 1, 9], capacities=[3], weights=[[1], [2], [3]]),
}
CRYPTARITHMS = ['A+B==C', 'A==A', 'AB*BA==CDC', 'a+B==c', 'A!=A', 'A?=='.replace('?', '7') + '17', '(A*B==CD)&(A<B)', 'A<B', 'AA+B==BCC',
                'NO+NO==YES', 'I+BB==ILL', 'A*A<=B', 'BA>=97', 'A+A>B*9']
ZEROS = [([], True), (['-z'], True), (['-z', 'on'], True), (['-z', 'off'], False), (['-z', 'true'], True), (['-z', 'FALSE'], False),
         (['-z', '0'], False), (['--avoid-leading-zeros', '1'], True), (['--avoid-leading-zeros=off'], False), (['-z', 'On'], True)]
LIMITS = [([], None), (['-l'], 'infinite'), (['-l', '0'], 0), (['-l', '1'], 1), (['--limit', '2'], 2), (['--limit=3'], 3), (['-l1000000'], 1000000)]
TIMEOUTS = [([], None), (['-t'], 'infinite'), (['-t', '0'], 0), (['--timeout', '5'], 5), (['--timeout=1e9'], 1e9), (['-t', '0.5'], 0.5), (['-t', '40'], 40)]


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for what in ['limits', 'timeouts']:
        for name in SUDOKUS:
            out.append(Job('sudoku', name=name, what=what))
        for name in NONOGRAMS:
            out.append(Job('nonogram', name=name, what=what))
        for name in KNAPSACKS:
            out.append(Job('knapsack', name=name, what=what))
        for size in [None, 0, 1, 2, 3, 4, 5, 6] + ([7] if thorough else []):
            out.append(Job('queens', size=size, what=what, path_timeout=200))
        out.append(Job('einstein', what=what))
        for source in CRYPTARITHMS:
            out.append(Job('cryptarithm', source=source, what=what))
        out.append(Job('labeling', what=what))
        out.append(Job('maps', what=what))
    for command in ['knapsack', 'sudoku', 'graph_labeling', 'ascii_map_coloring', 'nonogram', 'cryptarithm']:
        out.append(Job('example', command=command, path_timeout=300, weight=50 if command == 'cryptarithm' else 1))
    out.append(Job('images'))
    out.append(Job('zeros'))
    for n in range(1, 4):
        out.append(Job('graphs', labels=n, weight=5))
        out.append(Job('small_maps', colors=n, weight=10))
    out.append(Job('shown_model'))
    return out


class _Terminal(io.StringIO):
    encoding = 'utf-8'


@contextlib.contextmanager
def _scratch():
    path = tempfile.mkdtemp(prefix='verif_t02_')
    try:
        yield path
    finally:
        shutil.rmtree(path)


def run(ctx, argv, text=None, option='-i', stdin=False):
    """Standard output of the tool; text: contents of its input file."""
    T = loader.load('satisfy.tool')
    out, old = _Terminal(), (sys.argv, sys.stdin)
    with _scratch() as scratch:
        argv = list(argv)
        if text is not None:
            if stdin:
                sys.stdin = io.StringIO(text)
                argv += [option, '-']
                ctx.reach('standard input')
            else:
                path = os.path.join(scratch, 'input')
                with open(path, 'w') as f:
                    f.write(text)
                argv += [option, path]
        sys.argv = ['satisfy'] + argv
        try:
            with contextlib.redirect_stdout(out):
                T.main()
        except SystemExit as exc:
            ctx.check(False, "the tool exits", argv=argv, code=exc.code)
        finally:
            sys.argv, sys.stdin = old
    return out.getvalue()


def settings(ctx, what):
    """(argv, solver arguments) for a limit or a timeout."""
    U = loader.load('satisfy.utils')
    if what == 'limits':
        argv, limit = ctx.choice('limit', LIMITS)
        args = dict(limit=U.INFINITY if limit == 'infinite' else limit)
    else:
        argv, timeout = ctx.choice('timeout', TIMEOUTS)
        args = dict(timeout=U.INFINITY if timeout == 'infinite' else timeout)
        if ctx.choice('unlimited', [False, True]):
            argv = argv + ['-l']
            args['limit'] = U.INFINITY
        ticks = itertools.count(1000)
        ctx.clock = lambda: next(ticks)
    return argv, args


def split(ctx, text):
    """(text before, [blocks of lines], summary line) of an output."""
    lines = text.split('\n')
    heads = [i for i, line in enumerate(lines) if re.match(r'=== solution \S+ ===$', line)]
    summaries = [i for i, line in enumerate(lines) if line.startswith('Found ')]
    ctx.check(len(summaries) == 1 and (not heads or heads[-1] < summaries[0]), "the output does not end with one summary", text=text)
    end = summaries[0]
    numbers = [lines[i].split()[2] for i in heads]
    ctx.check(numbers == [str(k + 1) for k in range(len(heads))], "the answers are not numbered from 1", numbers=numbers)
    ctx.check(not any(line.strip() for line in lines[end + 1:]), "something follows the summary", text=text)
    blocks = []
    for k, i in enumerate(heads):
        block = lines[i + 1:heads[k + 1] if k + 1 < len(heads) else end]
        ctx.check(block and block[-1] == '', "no empty line after an answer", text=text)
        blocks.append(block[:-1])
    return '\n'.join(lines[:heads[0] if heads else end]), blocks, lines[end]


def summary(ctx, line, printed, stats, timed):
    """The summary against the number of printed answers and the solver's own account."""
    words = line.split()
    numbers = [n for n in NUMBER.findall(line)]
    what = dict(summary=line, printed=printed)
    if 'unique' in words:
        ctx.check(printed == 1, "the summary has another count than answers were printed", **what)
    else:
        ctx.check(numbers and numbers[0] == str(printed), "the summary has another count than answers were printed", **what)
    ctx.check(('partial' in words) == (stats.interrupt is not None), "the summary is not that of the run", stats=stats, **what)
    if stats.interrupt is not None:
        ctx.check(stats.interrupt in line, "the summary has not the reason of the interrupt", stats=stats, **what)
        ctx.reach(stats.interrupt + ' reached')
    else:
        ctx.reach('complete')
    if not printed:
        ctx.reach('no answer')


def compare(ctx, text, parse, solver, timed=False):
    """The printed answers are those of the solver."""
    ticks = itertools.count(1000)
    if ctx.clock is not None:
        ctx.clock = lambda: next(ticks)
    expected = list(solver)
    stats = solver.get_stats()
    ctx.clock = None
    before, blocks, last = split(ctx, text)
    got = [parse(ctx, block) for block in blocks]
    ctx.check(len(got) == len(expected), "another number of answers than the solver delivers", printed=got, delivered=expected)
    for answer in got:
        ctx.check(answer in expected, "an answer is printed that the solver does not deliver", printed=answer, delivered=expected)
    for answer in expected:
        ctx.check(got.count(answer) == expected.count(answer), "an answer is not printed", printed=got, delivered=expected)
    summary(ctx, last, len(got), stats, timed)
    return before


# -- sudoku -------------------------------------------------------------------

def _box(ctx, lines):
    rows = []
    for line in lines:
        if line.startswith('│'):
            rows.append([None if cell == '.' else int(cell) for cell in line.replace('│', ' ').split()])
    ctx.check(len(lines) == 13 and len(rows) == 9 and all(len(row) == 9 for row in rows), "not a sudoku grid", lines=lines)
    return tuple(tuple(row) for row in rows)


def _check_sudoku(ctx, text, schema, args):
    S = loader.load('satisfy.sudoku')
    before = compare(ctx, text, _box, S.SudokuSolver(schema, **args))
    lines = [line for line in before.split('\n')]
    start = lines.index('=== sudoku schema ===') + 1
    shown = _box(ctx, lines[start:start + 13])
    ctx.check(shown == tuple(tuple(v or None for v in row) for row in schema), "another schema is printed than the given one", shown=shown)
    ctx.reach('sudoku')


def sudoku(ctx, name, what):
    argv, args = settings(ctx, what)
    schema = SUDOKUS[name]
    if name == 'many' and args.get('limit') not in (None, 0, 1, 2, 3):
        ctx.assume(what == 'limits')
    text = run(ctx, ['sudoku'] + argv, json.dumps(schema), option=ctx.choice('option', ['-i', '--input-file']),
               stdin=what == 'limits' and ctx.choice('stdin', [False, True]))
    _check_sudoku(ctx, text, schema, args)


# -- nonogram -----------------------------------------------------------------

def _picture(width):
    def parse(ctx, lines):
        ctx.check(all(len(line) == width and not set(line) - set(' #') for line in lines), "not a picture", lines=lines)
        return [[1 if ch == '#' else 0 for ch in line] for line in lines]
    return parse


def _check_nonogram(ctx, text, puzzle, args):
    N = loader.load('satisfy.nonogram')

    class Solver(N.NonogramSolver):
        def __iter__(self):
            return ([[1 if cell else 0 for cell in row] for row in pixmap] for pixmap in super().__iter__())

    compare(ctx, text, _picture(len(puzzle['columns'])), Solver(puzzle, **args))
    ctx.reach('nonogram')


def nonogram(ctx, name, what):
    argv, args = settings(ctx, what)
    text = run(ctx, ['nonogram'] + argv, json.dumps(NONOGRAMS[name]), option=ctx.choice('option', ['-i', '--input-file']),
               stdin=what == 'limits' and ctx.choice('stdin', [False, True]))
    _check_nonogram(ctx, text, NONOGRAMS[name], args)


def _runs(cells):
    return [len(part) for part in ''.join('#' if c else ' ' for c in cells).split()]


def images(ctx):
    """The picture of the image is among the printed ones, and all have its runs."""
    image = ctx.choice('image', IMAGES)
    argv, limit = ctx.choice('limit', LIMITS[:5])
    text = run(ctx, ['nonogram'] + argv, image, option=ctx.choice('option', ['-I', '--input-image']))
    lines = image.split('\n')
    width = max(len(line) for line in lines)
    picture = [[int(ch not in ' _') for ch in line.ljust(width)] for line in lines]
    puzzle = dict(rows=[_runs(row) for row in picture], columns=[_runs(column) for column in zip(*picture)])
    U = loader.load('satisfy.utils')
    _check_nonogram(ctx, text, puzzle, dict(limit=U.INFINITY if limit == 'infinite' else limit))
    if limit in (None, 'infinite'):
        got = [_picture(width)(ctx, block) for block in split(ctx, text)[1]]
        ctx.check(picture in got, "the picture of the image is not printed", image=image)
    ctx.reach('image')


# -- queens -------------------------------------------------------------------

def _board(ctx, lines):
    rows = [[1 if cell.strip() else 0 for cell in line.strip('│').split('│')] for line in lines if line.startswith('│')]
    rows = [row if line != '││' else [] for row, line in zip(rows, [line for line in lines if line.startswith('│')])]
    ctx.check(all(len(row) == len(rows) for row in rows), "not a square board", lines=lines)
    return rows


def _lists(solver):
    solver.__class__ = type('Solver', (solver.__class__,), dict(
        __iter__=lambda self, parent=solver.__class__: ([[1 if q else 0 for q in row] for row in board] for board in parent.__iter__(self))))
    return solver


def queens(ctx, size, what):
    Q = loader.load('satisfy.tool.queens')
    argv, args = settings(ctx, what)
    if size in (None, 6, 7) and what == 'timeouts':
        ctx.assume(args.get('timeout') in (0, 5, 0.5, 40))
    if size is None and what == 'limits':
        ctx.assume(args['limit'] in (None, 0, 1))
    options = [] if size is None else ctx.choice('option', [['-b', str(size)], ['--board-size={}'.format(size)]])
    text = run(ctx, ['queens'] + argv + options)
    compare(ctx, text, _board, _lists(Q.QueensSolver(8 if size is None else size, **args)))
    ctx.reach('queens')


# -- einstein -----------------------------------------------------------------

ORDINALS = ['first', 'second', 'third', 'fourth', 'fifth']
SENTENCE = re.compile(r'^(\[\*\]|   ) The (.+), who lives in the (\w+) (\w+) house, drinks (.+), smokes (.+) and has (.+)\.$')


def _houses(ctx, lines):
    out = {}
    for line in lines:
        m = SENTENCE.match(line)
        ctx.check(m is not None and m.group(3) in ORDINALS, "not a description of a house", line=line)
        mark, owner, ordinal, color, drink, smoke, animal = m.groups()
        ctx.check((mark == '[*]') == (animal == 'a zebra'), "the owner of the zebra is not the one marked", lines=lines)
        out[ORDINALS.index(ordinal) + 1] = dict(owner=owner, color=color, drink=drink, smoke=smoke, animal=animal)
    return out


def einstein(ctx, what):
    R = loader.load('satisfy.tool.einstein_riddle')
    argv, args = settings(ctx, what)
    text = run(ctx, ['einstein'] + argv)
    before = compare(ctx, text, _houses, R.EinsteinRiddleSolver(**args))
    for statement in R.EinsteinRiddleSolver.statements():
        ctx.check(statement in before, "a statement of the riddle is not printed", statement=statement)
    ctx.reach('einstein')


# -- cryptarithm --------------------------------------------------------------

def _digits(source):
    def parse(ctx, lines):
        out = {}
        for line in lines[:-1]:
            m = re.match(r'^([A-Z]) = (\d)$', line)
            ctx.check(m is not None, "not a letter with its digit", line=line)
            out[m.group(1)] = int(m.group(2))
        ctx.check(len(out) == len(lines) - 1, "a letter is printed twice", lines=lines)
        filled = ''.join(str(out.get(ch.upper(), ch)) for ch in source)
        ctx.check(lines[-1] == '==> ' + filled, "the puzzle is not printed with its digits", line=lines[-1], expected=filled)
        return out
    return parse


class _Mapped(object):
    def __init__(self, solver):
        self.solver = solver
        self.get_stats = solver.get_stats

    def __iter__(self):
        return (dict(s) for s in self.solver)


def _check_cryptarithm(ctx, text, source, args):
    C = loader.load('satisfy.cryptarithm')
    before = compare(ctx, text, _digits(source), _Mapped(C.CryptarithmSolver(source, **args)))
    ctx.check(source in before, "the puzzle is not printed", text=before)
    ctx.reach('cryptarithm')


def cryptarithm(ctx, source, what):
    argv, args = settings(ctx, what)
    if source in ('NO+NO==YES', 'AB*BA==CDC', 'AA+B==BCC', 'I+BB==ILL', '(A*B==CD)&(A<B)'):
        ctx.assume(args.get('limit') in (None, 1, 0) and args.get('timeout') in (None, 0, 5, 40))
    text = run(ctx, ['cryptarithm', source] + argv)
    _check_cryptarithm(ctx, text, source, args)


def zeros(ctx):
    argv, avoid = ctx.choice('zeros', ZEROS)
    source = ctx.choice('puzzle', ['A+B==C', 'AB==BC', 'A*B==CA', 'AB+C==CB'])
    text = run(ctx, ['cryptarithm', source] + argv)
    _check_cryptarithm(ctx, text, source, dict(avoid_leading_zeros=avoid))


# -- graph labeling -----------------------------------------------------------

def _labels(ctx, lines):
    ctx.check(len(lines) == 1, "not one labeling", lines=lines)
    return ast.literal_eval(lines[0])


def _graph(nodes, edges, directed=False):
    return dict(directed=directed, multigraph=False, graph={}, nodes=[dict(id=n) for n in nodes],
                links=[dict(source=a, target=b) for a, b in edges])


def _check_labeling(ctx, text, data, labels, args):
    import networkx
    G = loader.load('satisfy.graph_labeling')
    with contextlib.redirect_stderr(io.StringIO()):
        graph = networkx.node_link_graph(data)
    compare(ctx, text, _labels, G.GraphLabelingSolver(graph, labels, **args))
    ctx.reach('graph_labeling')


def labeling(ctx, what):
    argv, args = settings(ctx, what)
    data = ctx.choice('graph', [_graph(['a', 'b', 'c'], [('a', 'b'), ('b', 'c')]), _graph([3, 1], [(1, 3)], True), _graph([], []),
                                _graph(['x', 'y', 'z', 'w'], list(itertools.combinations('xyzw', 2)))])
    option, labels = ctx.choice('labels', [([], ['red', 'blue', 'green']), (['-L', 'p', 'q'], ['p', 'q']), (['--labels', '1'], ['1']),
                                           (['-L', 'd', 'c', 'b', 'a'], list('dcba'))])
    text = run(ctx, ['graph_labeling'] + option + argv, json.dumps(data), stdin=what == 'limits' and ctx.choice('stdin', [False, True]))
    _check_labeling(ctx, text, data, labels, args)


def graphs(ctx, labels):
    nodes = ['n', 'm', 'k']
    edges = [e for e in itertools.combinations(nodes, 2) if ctx.bool('edge {}'.format(e))]
    data = _graph(nodes, edges)
    names = ['red', 'Blue', 'a b'][:labels]
    text = run(ctx, ['graph_labeling'] + ['-L'] + names, json.dumps(data))
    _check_labeling(ctx, text, data, names, {})


# -- map coloring -------------------------------------------------------------

def _coloured(ctx, lines):
    return lines


def _check_map(ctx, text, source, colors, args):
    M = loader.load('satisfy.tool.ascii_map_coloring')

    class Solver(M.AsciiMapColoringSolver):
        def __iter__(self):
            return ([''.join(row) for row in image] for image in super().__iter__())

    compare(ctx, text, _coloured, Solver(source, colors, **args))
    ctx.reach('ascii_map_coloring')


def maps(ctx, what):
    argv, args = settings(ctx, what)
    source = ctx.choice('map', ['AB\n A', 'A', 'AB\nCD', 'ABA\n.C', 'AAB\nA\nCCC\n', ' \n '])
    option, colors = ctx.choice('colors', [([], ['red', 'blue', 'green', 'yellow']), (['-C', 'red', 'cyan'], ['red', 'cyan']),
                                           (['--colors', 'on_red'], ['on_red'])])
    text = run(ctx, ['ascii_map_coloring'] + option + argv, source, stdin=what == 'limits' and ctx.choice('stdin', [False, True]),
               option=ctx.choice('option', ['-i', '--input-file']))
    _check_map(ctx, text, source, colors, args)


def small_maps(ctx, colors):
    rows = []
    for r in range(2):
        rows.append(''.join(ctx.choice('cell{}{}'.format(r, c), list('AB .')) for c in range(2)))
    source = '\n'.join(rows)
    names = ['red', 'blue', 'green'][:colors]
    text = run(ctx, ['ascii_map_coloring', '-C'] + names + ['-l'], source)
    U = loader.load('satisfy.utils')
    _check_map(ctx, text, source, names, dict(limit=U.INFINITY))


# -- knapsack -----------------------------------------------------------------

def _check_knapsack(ctx, text, data, args):
    K = loader.load('satisfy.knapsack')
    ticks = itertools.count(1000)
    if ctx.clock is not None:
        ctx.clock = lambda: next(ticks)
    optimizer = K.KnapsackOptimizer(data['values'], data['capacities'], data['weights'], **args)
    result = optimizer()
    stats = optimizer.get_stats()
    ctx.clock = None
    lines = text.split('\n')
    fields = dict(line.split(': ', 1) for line in lines if re.match(r'^(is_optimal|solution|value|weights): ', line))
    what = dict(text=text, result=result)
    ctx.check(fields.get('is_optimal') == str(bool(result.is_optimal)), "another verdict than that of the optimizer", **what)
    if result.solution is None:
        ctx.check('no solution found' in lines and len(fields) == 1, "a solution is printed although there is none", **what)
        ctx.reach('no answer')
    else:
        ctx.check('no solution found' not in lines and len(fields) == 4, "the solution is not printed", **what)
        shown = ast.literal_eval(fields['solution']).split(' ') if data['values'] else []
        ctx.check([int(mark == 'X') for mark in shown] == [int(bool(v)) for v in result.solution] and set(shown) <= set('X_'),
                  "another selection than that of the optimizer", **what)
        ctx.check(ast.literal_eval(fields['value']) == result.value, "another value than that of the optimizer", **what)
        ctx.check(tuple(ast.literal_eval(fields['weights'])) == tuple(result.weights), "other weights than those of the optimizer", **what)
    last = [line for line in lines if line.startswith('Found ')]
    ctx.check(len(last) == 1 and lines[-2:] == [last[0], ''], "the output does not end with one summary", **what)
    ctx.check(('Found optimal' in last[0]) == bool(result.is_optimal), "the summary is not that of the run", **what)
    numbers = NUMBER.findall(last[0])
    ctx.check(len(numbers) == 2 and numbers[1] == str(stats.count), "the summary has another count than the run", **what)
    ctx.check((stats.interrupt or 'reached') in last[0] if stats.interrupt else 'reached' not in last[0],
              "the summary has not the reason of the interrupt", **what)
    if stats.interrupt:
        ctx.reach(stats.interrupt + ' reached')
    else:
        ctx.reach('complete')
    ctx.reach('knapsack')


def knapsack(ctx, name, what):
    argv, args = settings(ctx, what)
    data = KNAPSACKS[name]
    text = run(ctx, ['knapsack'] + argv, json.dumps(data), option=ctx.choice('option', ['-i', '--input-file']),
               stdin=what == 'limits' and ctx.choice('stdin', [False, True]))
    _check_knapsack(ctx, text, data, args)


# -- examples, models ---------------------------------------------------------

def example(ctx, command):
    """Without an input the built-in example is solved, and shown."""
    name = dict(ascii_map_coloring='ascii_map_coloring').get(command, command)
    D = loader.load('satisfy.tool.demo_' + name)
    source = getattr(D, 'default_{}_source'.format(command))()
    text = run(ctx, [command])
    ctx.check(source in text, "the example is not shown", command=command)
    if command == 'cryptarithm':
        _check_cryptarithm(ctx, text, source, {})
    elif command == 'sudoku':
        _check_sudoku(ctx, text, json.loads(source), {})
    elif command == 'nonogram':
        _check_nonogram(ctx, text, json.loads(source), {})
    elif command == 'knapsack':
        _check_knapsack(ctx, text, json.loads(source), {})
    elif command == 'graph_labeling':
        _check_labeling(ctx, text, json.loads(source), ['red', 'blue', 'green'], {})
    else:
        _check_map(ctx, text, source, ['red', 'blue', 'green', 'yellow'], {})
    ctx.reach('example')


def shown_model(ctx):
    """--show-model lists every variable and constraint; the answers stay the same."""
    option = ctx.choice('option', ['-s', '--show-model'])
    command, argv, text, solver = ctx.choice('command', [
        ('sudoku', [], json.dumps(SUDOKUS['two']), lambda: loader.load('satisfy.sudoku').SudokuSolver(SUDOKUS['two'])),
        ('nonogram', [], json.dumps(NONOGRAMS['cross']), lambda: loader.load('satisfy.nonogram').NonogramSolver(NONOGRAMS['cross'])),
        ('queens', ['-b', '4'], None, lambda: loader.load('satisfy.tool.queens').QueensSolver(4)),
        ('einstein', [], None, lambda: loader.load('satisfy.tool.einstein_riddle').EinsteinRiddleSolver()),
        ('cryptarithm', ['A+B==C', '-l', '2'], None, lambda: loader.load('satisfy.cryptarithm').CryptarithmSolver('A+B==C')),
        ('ascii_map_coloring', [], 'AB\nC', lambda: loader.load('satisfy.tool.ascii_map_coloring').AsciiMapColoringSolver('AB\nC')),
        ('knapsack', [], json.dumps(KNAPSACKS['one']), lambda: loader.load('satisfy.knapsack').KnapsackOptimizer(**KNAPSACKS['one'])),
    ])
    plain = run(ctx, [command] + argv, text)
    shown = run(ctx, [command, option] + argv, text)
    model = solver().model

    def parts(output):
        lines = output.split('\n')
        marks = [i for i, line in enumerate(lines) if line.startswith('=== model ')]
        return lines, marks

    lines, marks = parts(shown)
    ctx.check(len(marks) == 2 and not parts(plain)[1], "the model is not shown exactly on request", command=command)
    constraints = list(model.constraints())
    listed = [line for line in lines[marks[0] + 1:marks[1]] if line.strip()]
    ctx.check(len(listed) == len(model.variables()), "another number of variables is listed", listed=listed)
    for line, (name, info) in zip(listed, model.variables().items()):
        ctx.check(repr(name) in line and str(info.domain) in line, "a variable is not listed with its domain", line=line, name=name)
    listed = [line for line in lines[marks[1] + 1:marks[1] + 1 + len(constraints)] if line.strip()]
    ctx.check(len(listed) == len(constraints), "another number of constraints is listed", listed=listed)
    for line, constraint in zip(listed, constraints):
        ctx.check(line.split(') ', 1)[1].strip() != '', "a constraint is not listed", line=line)
    rest = lines[:marks[0]] + lines[marks[1] + 1 + len(constraints):]
    strip = [re.sub(r'in \S+ seconds', '', line) for line in rest if line]
    ctx.check(strip == [re.sub(r'in \S+ seconds', '', line) for line in plain.split('\n') if line],
              "showing the model changes the rest of the output", command=command, rest=rest)
    ctx.reach('model')
