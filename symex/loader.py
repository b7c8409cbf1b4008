"""Access to the code under test.

instrumented=True: modules of the package are compiled from /repo's current
source with two rewrites, `a is b` -> __sym_is__(a, b) (identity of small
integers) and int(x) -> __sym_int__(x) (CPython insists on a machine integer
there), so that symbolic integers behave as integers there too.
instrumented=False: plain import of the real files.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.util
import logging
import os
import random
import sys
import time
import types

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'

FUNCTIONS = set()     # functions of the code under test that were executed


class _IsRewriter(ast.NodeTransformer):
    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) != 1 or not isinstance(node.ops[0], (ast.Is, ast.IsNot)):
            return node
        for side in (node.left, node.comparators[0]):
            if isinstance(side, ast.Constant) and not isinstance(side.value, int):
                return node
            if isinstance(side, ast.Constant) and isinstance(side.value, bool):
                return node
        call = ast.Call(func=ast.Name(id='__sym_is__', ctx=ast.Load()),
                        args=[node.left, node.comparators[0]], keywords=[])
        if isinstance(node.ops[0], ast.IsNot):
            call = ast.UnaryOp(op=ast.Not(), operand=call)
        return ast.copy_location(call, node)

    def visit_Call(self, node):
        # int(x) must return a plain int, whatever x.__int__ is
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id == 'int' and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            node.func = ast.copy_location(ast.Name(id='__sym_int__', ctx=ast.Load()), node.func)
        return node


class _SetRewriter(ast.NodeTransformer):
    """Sets whose iteration order is an input (see order.py)."""

    def _wrap(self, node, name='__sym_wrap__'):
        return ast.copy_location(ast.Call(func=ast.Name(id=name, ctx=ast.Load()), args=[node], keywords=[]), node)

    def visit_Name(self, node):
        if isinstance(node.ctx, ast.Load) and node.id in ('set', 'frozenset', 'hash'):
            node.id = '__sym_{}__'.format(node.id)
        return node

    def visit_Set(self, node):
        return self._wrap(self.generic_visit(node))

    def visit_SetComp(self, node):
        return self._wrap(self.generic_visit(node))

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.Sub)):
            return self._wrap(node)
        return node


HASH_ORDER = False     # set by the checks for which the order of sets is an input
_CODE = {}


class _Loader(importlib.abc.SourceLoader):
    def __init__(self, path):
        self.path = path

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as f:
            return f.read()

    def path_stats(self, path):
        raise OSError("no byte code cache")

    def set_data(self, *a, **k):
        pass

    def source_to_code(self, data, path, *, _optimize=-1):
        code = _CODE.get((path, data))
        if code is None:
            tree = ast.parse(data, path)
            tree = _IsRewriter().visit(tree)
            if HASH_ORDER:
                tree = _SetRewriter().visit(tree)
            tree = ast.fix_missing_locations(tree)
            code = _CODE[(path, data)] = compile(tree, path, 'exec', dont_inherit=True)
        return code


class _Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, fullname, path, target=None):
        if fullname != 'satisfy' and not fullname.startswith('satisfy.'):
            return None
        rel = os.path.join(SRC, *fullname.split('.'))
        init = os.path.join(rel, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                fullname, init, loader=_Loader(init), submodule_search_locations=[rel])
        if os.path.isfile(rel + '.py'):
            return importlib.util.spec_from_file_location(fullname, rel + '.py', loader=_Loader(rel + '.py'))
        return None


# -- environment stand-ins ----------------------------------------------------

CONTEXT = None       # the active context (for the clock and the random source)
CANDIDATES = False   # a counterexample is replayed (not a sampled path)


def set_context(ctx):
    global CONTEXT
    CONTEXT = ctx


def _clock(real, scale=1):
    def now():
        ctx = CONTEXT
        if ctx is not None and ctx.clock is not None:
            value = ctx.clock()
            return value * scale if scale != 1 else value
        return real()
    now.real = real
    return now


def _install_environment():
    for name in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, name, _clock(getattr(time, name)))
        setattr(time, name + '_ns', _clock(getattr(time, name + '_ns'), 10 ** 9))

    real_below = random.Random._randbelow

    def below(self, n):
        ctx = CONTEXT
        if ctx is not None and getattr(ctx, 'control_random', False):
            return ctx.index('random', n)
        return real_below(self, n)

    random.Random._randbelow = below
    real_random = random.random

    def rnd():
        ctx = CONTEXT
        if ctx is not None and getattr(ctx, 'control_random', False):
            return ctx.index('random', 4) / 4
        return real_random()

    random.random = rnd
    # termcolor decides by the terminal whether to colour; here it always marks
    fake = types.ModuleType('termcolor')

    def colored(text, color=None, *args, **kwargs):
        return "\x01{}\x02{}\x03".format(color, text)

    fake.colored = colored
    fake.cprint = lambda text, color=None, *a, **k: print(colored(text, color))
    sys.modules['termcolor'] = fake
    logging.disable(logging.CRITICAL)


def _monitor():
    mon = getattr(sys, 'monitoring', None)
    if mon is None:
        return
    tool = 3
    try:
        mon.use_tool_id(tool, 'verif')
    except ValueError:
        return
    prefix = SRC + os.sep

    def start(code, offset):
        if code.co_filename.startswith(prefix):
            FUNCTIONS.add(code.co_filename[len(prefix):] + ':' + code.co_qualname)
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


_installed = False


def install(instrumented):
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    sys.path.insert(0, SRC)
    if os.path.isdir(VENV_SITE):
        sys.path.insert(1, VENV_SITE)
    _install_environment()
    _monitor()
    if instrumented:
        from . import engine
        builtins.__sym_is__ = engine.sym_is
        builtins.__sym_int__ = engine.sym_int
        sys.meta_path.insert(0, _Finder())


def refresh():
    """The next load() imports the code again: no state is left in its modules."""
    for name in list(sys.modules):
        if name == 'satisfy' or name.startswith('satisfy.'):
            del sys.modules[name]


def load(name):
    return importlib.import_module(name)
