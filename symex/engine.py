"""Symbolic execution of Python code through value proxies, decided by z3.

The code under test runs unchanged (its real byte code); inputs are SymInt /
SymBool objects that carry z3 terms.  Wherever the code needs a concrete truth
value, the engine asks z3 which outcomes are possible under the path condition
and explores all of them (depth first, by re-execution).  An assertion holds on
a path iff z3 finds "path condition and not assertion" unsatisfiable.
"""
import builtins
import signal
import time as _time
import traceback

import z3

from .api import Context, Discard, Sym

_real_time = getattr(_time.perf_counter, 'real', _time.perf_counter)     # never the simulated clock


class EngineError(BaseException):
    """Internal problem of the engine (never a statement about the code)."""


class Budget(BaseException):
    """The time or path budget of the job is used up."""


class PathTimeout(BaseException):
    """One path runs for too long (a loop that does not end?)."""


def _on_alarm(signum, frame):
    raise PathTimeout()


class Unsupported(Exception):
    pass


ENGINE = None     # the active Engine, if any


def _e(x):
    """int-sorted z3 term of a value, or None."""
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float) and x.is_integer():
        return z3.IntVal(int(x))
    return None


def _b(x):
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


_TRUE = z3.BoolVal(True)
_FALSE = z3.BoolVal(False)


def mkint(e):
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class _SymNum(Sym):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # logic for harnesses
    def sym_not(self):
        return SymBool(z3.Not(_b(self)))

    def sym_and(self, others):
        return SymBool(z3.And([_b(self)] + [_b(o) for o in others])) if others else SymBool(_b(self))

    def sym_or(self, others):
        return SymBool(z3.Or([_b(self)] + [_b(o) for o in others])) if others else SymBool(_b(self))

    def sym_truth(self):
        return SymBool(_b(self))

    def sym_ite(self, a, b):
        if isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool)):
            return SymBool(z3.If(_b(self), _b(a), _b(b)))
        return SymInt(z3.If(_b(self), _e(a), _e(b)))

    # numbers
    def __add__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() + o if type(o) is float else NotImplemented
        return mkint(_e(self) + t)

    def __radd__(self, o):
        t = _e(o)
        if t is None:
            return o + self.__index__() if type(o) is float else NotImplemented
        return mkint(t + _e(self))

    def __sub__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() - o if type(o) is float else NotImplemented
        return mkint(_e(self) - t)

    def __rsub__(self, o):
        t = _e(o)
        if t is None:
            return o - self.__index__() if type(o) is float else NotImplemented
        return mkint(t - _e(self))

    def __mul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        t = _e(o)
        if t is None:
            return self.__index__() * o if type(o) is float else NotImplemented
        return mkint(_e(self) * t)

    def __rmul__(self, o):
        if isinstance(o, (str, bytes, list, tuple)):
            return o * self.__index__()
        t = _e(o)
        if t is None:
            return o * self.__index__() if type(o) is float else NotImplemented
        return mkint(t * _e(self))

    @staticmethod
    def _div(a, b):
        if ENGINE.branch(b == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
        if ENGINE.branch(b > 0):
            return a / b          # z3 integer division; floor for b > 0
        return (-a) / (-b)

    @staticmethod
    def _mod(a, b):
        if ENGINE.branch(b == 0):
            raise ZeroDivisionError("integer modulo by zero")
        if ENGINE.branch(b > 0):
            return a % b
        return -((-a) % (-b))

    def __floordiv__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() // o if type(o) is float else NotImplemented
        return mkint(self._div(_e(self), t))

    def __rfloordiv__(self, o):
        t = _e(o)
        if t is None:
            return o // self.__index__() if type(o) is float else NotImplemented
        return mkint(self._div(t, _e(self)))

    def __mod__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() % o if type(o) is float else NotImplemented
        return mkint(self._mod(_e(self), t))

    def __rmod__(self, o):
        if isinstance(o, str):
            return NotImplemented
        t = _e(o)
        if t is None:
            return o % self.__index__() if type(o) is float else NotImplemented
        return mkint(self._mod(t, _e(self)))

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __truediv__(self, o):
        # only exact quotients have an integer term
        if _e(o) is None:
            return self.__index__() / o if type(o) is float else NotImplemented
        return self.__index__() / (o.__index__() if isinstance(o, Sym) else o)

    def __rtruediv__(self, o):
        return o / self.__index__()

    @staticmethod
    def _pow(a, n):
        if n < 0:
            return (a.__index__() if isinstance(a, Sym) else a) ** n
        if not isinstance(a, Sym):
            return a ** n
        r = z3.IntVal(1)
        e = _e(a)
        for _ in range(n):
            r = r * e
        return mkint(r) if n != 1 else SymInt(e)

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(self.__index__(), int(o), int(mod))
        if isinstance(o, Sym):
            o = o.__index__()
        if type(o) is float:
            return self.__index__() ** o
        if not isinstance(o, int):
            return NotImplemented
        return self._pow(self, o)

    def __rpow__(self, o):
        if not isinstance(o, (int, float)):
            return NotImplemented
        return self._pow(o, self.__index__())

    def __neg__(self):
        return mkint(-_e(self))

    def __pos__(self):
        return mkint(_e(self))

    def __abs__(self):
        e = _e(self)
        return mkint(z3.If(e >= 0, e, -e))

    def __round__(self, n=None):
        return mkint(_e(self))

    def __trunc__(self):
        return mkint(_e(self))

    __floor__ = __ceil__ = __trunc__

    def __lt__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() < o if type(o) is float else NotImplemented
        return mkbool(_e(self) < t)

    def __le__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() <= o if type(o) is float else NotImplemented
        return mkbool(_e(self) <= t)

    def __gt__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() > o if type(o) is float else NotImplemented
        return mkbool(_e(self) > t)

    def __ge__(self, o):
        t = _e(o)
        if t is None:
            return self.__index__() >= o if type(o) is float else NotImplemented
        return mkbool(_e(self) >= t)

    def __eq__(self, o):
        if isinstance(self, SymBool) and isinstance(o, (SymBool, bool)):
            return mkbool(z3.simplify(self.e == _b(o)))
        oe = _e(o)
        if oe is None:
            return False if type(o) is float else NotImplemented
        return mkbool(_e(self) == oe)

    def __ne__(self, o):
        if isinstance(self, SymBool) and isinstance(o, (SymBool, bool)):
            return mkbool(z3.simplify(self.e != _b(o)))
        oe = _e(o)
        if oe is None:
            return True if type(o) is float else NotImplemented
        return mkbool(_e(self) != oe)

    def __bool__(self):
        return ENGINE.branch(_b(self))

    def __index__(self):
        return ENGINE.realize(_e(self))

    def __int__(self):
        return ENGINE.realize(_e(self))

    def __float__(self):
        return float(ENGINE.realize(_e(self)))

    def __hash__(self):
        if ENGINE.const_hash:
            return 0
        return hash(ENGINE.realize(_e(self)))

    def _bitop(self, o, f):
        if isinstance(o, Sym):
            o = o.__index__()
        if not isinstance(o, int):
            return NotImplemented
        return f(self.__index__(), o)

    def __xor__(self, o):
        return self._bitop(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __lshift__(self, o):
        return self._bitop(o, lambda a, b: a << b)

    def __rshift__(self, o):
        return self._bitop(o, lambda a, b: a >> b)

    def __rlshift__(self, o):
        return o << self.__index__()

    def __rrshift__(self, o):
        return o >> self.__index__()

    def __invert__(self):
        return mkint(-_e(self) - 1)

    def bit_length(self):
        return self.__index__().bit_length()

    def is_integer(self):
        return True

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported("pickling a symbolic value")


class SymInt(_SymNum):
    __slots__ = ()

    # isinstance(x, int) looks at __class__ when type(x) is not a match
    __class__ = property(lambda self: int)

    def __and__(self, o):
        return self._bitop(o, lambda a, b: a & b)

    def __or__(self, o):
        return self._bitop(o, lambda a, b: a | b)

    __rand__ = __and__
    __ror__ = __or__

    def __repr__(self):
        """Decimal syntax: an optional minus sign and an atom, as for an int.
        The atom is a name bound in builtins, so generated code can use it."""
        return ENGINE.render(self.e)

    __str__ = __repr__

    def __format__(self, spec):
        if spec in ('', 'd', 'n', 's'):
            return ENGINE.render(self.e)
        if spec.endswith('f'):
            return ENGINE.render(self.e)
        return format(self.__index__(), spec)


class SymBool(_SymNum):
    __slots__ = ()

    __class__ = property(lambda self: bool)

    def _logic(self, o, f, g):
        if isinstance(o, (SymBool, bool)):
            return mkbool(f(self.e, _b(o)))
        return self._bitop(o, g)

    def __and__(self, o):
        return self._logic(o, z3.And, lambda a, b: a & b)

    def __or__(self, o):
        return self._logic(o, z3.Or, lambda a, b: a | b)

    __rand__ = __and__
    __ror__ = __or__

    def __xor__(self, o):
        return self._logic(o, z3.Xor, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __repr__(self):
        return "True" if self else "False"

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def sym_is(a, b):
    """Replacement for `a is b` in instrumented code.  CPython keeps one object
    per small integer, so `is` on small integers is equality."""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is SymInt or tb is SymInt:
        x = a if ta is SymInt else a if type(a) is int else None
        y = b if tb is SymInt else b if type(b) is int else None
        if x is None or y is None:
            return False
        ex, ey = _e(x), _e(y)
        return ENGINE.branch(z3.And(ex == ey, ex >= -5, ex <= 256))
    if ta is SymBool or tb is SymBool:
        if (ta is SymBool or ta is bool) and (tb is SymBool or tb is bool):
            return ENGINE.branch(_b(a) == _b(b))
        return False
    return False


def sym_int(x):
    if isinstance(x, _SymNum):
        return mkint(_e(x))
    return int(x)


class SymContext(Context):
    symbolic = True

    def __init__(self, engine):
        self.engine = engine
        self.reached = engine.reached
        self.clock = None
        self.counter = {}

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else "{}#{}".format(name, n)

    def int(self, name, lo, hi):
        name = self.fresh(name)
        if lo == hi:
            self.engine.inputs[name] = z3.IntVal(lo)
            return lo
        v = z3.Int(name)
        self.engine.inputs[name] = v
        self.engine.assume(z3.And(v >= lo, v <= hi))
        if self.engine.realize_all:
            return self.engine.realize(v)
        return SymInt(v)

    def bool(self, name):
        name = self.fresh(name)
        v = z3.Bool(name)
        self.engine.inputs[name] = v
        if self.engine.realize_all:
            return self.engine.branch(v)
        return SymBool(v)

    def index(self, name, n):
        name = self.fresh(name)
        v = z3.Int(name)
        self.engine.inputs[name] = v
        self.engine.assume(z3.And(v >= 0, v < n))
        return self.engine.realize(v)

    def assume(self, cond):
        if isinstance(cond, Sym):
            self.engine.assume(_b(cond))
        elif not cond:
            raise Discard()

    def check(self, cond, message, **detail):
        self.engine.check(cond, message, detail)

    def never(self, build, message):
        e = self.engine
        if e.in_prefix():
            return
        u = Unknowns()
        try:
            bad = build(u)
        except Discard:
            return
        term = z3.And(u.bounds + [_b(bad)])
        e.check_term(z3.Not(term), message, {}, extra=u.vars)


class Unknowns(object):
    """Universally quantified unknowns of an assertion."""

    def __init__(self):
        self.vars = {}
        self.bounds = []

    def int(self, name, lo, hi):
        v = z3.Int('?' + name)
        if '?' + name not in self.vars:
            self.vars['?' + name] = v
            self.bounds.append(z3.And(v >= lo, v <= hi))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool('?' + name)
        self.vars['?' + name] = v
        return SymBool(v)


class Stats(object):
    FIELDS = ('paths', 'branches', 'forks', 'queries', 'unknown', 'assertions',
              'vacuous', 'discarded', 'realized')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['solver_s'] = self.solver_s
        return d


class CounterExample(BaseException):
    def __init__(self, message, inputs):
        self.message = message
        self.inputs = inputs


class Engine(object):
    def __init__(self, const_hash=True, realize_all=False, query_timeout_ms=20000,
                 max_paths=None, deadline=None, path_timeout=40):
        self.const_hash = const_hash
        self.realize_all = realize_all
        self.max_paths = max_paths
        self.deadline = deadline
        self.path_timeout = path_timeout
        self.solver = z3.Solver()
        self.solver.set('timeout', query_timeout_ms)
        self.stats = Stats()
        self.reached = {}
        self.samples = []          # input assignments of some explored paths
        self.inconclusive = []
        self.sstack = []           # terms pushed on the solver
        self.tokens = {}
        self.token_terms = {}

    # -- exploration ---------------------------------------------------------
    def explore(self, fn, sample_every=None, max_samples=3):
        """Runs fn(ctx) on every feasible path.  Returns None, or the
        CounterExample found first."""
        global ENGINE
        work = [([], None)]
        self.complete = True
        self.solver.reset()
        self.sstack = []
        paths = 0
        while work:
            if self.max_paths is not None and paths >= self.max_paths:
                self.complete = False
                break
            if self.deadline is not None and _real_time() > self.deadline:
                self.complete = False
                break
            prefix, model = work.pop()
            self.log = list(prefix)
            self.prefix_len = len(prefix)
            self.depth = 0
            self.model = model
            self.known = {}
            self.values = {}
            self.inputs = {}
            self.work = work
            self.nassert = 0
            previous, ENGINE = ENGINE, self
            try:
                try:
                    ctx = SymContext(self)
                    self.ctx = ctx
                    signal.signal(signal.SIGALRM, _on_alarm)
                    signal.setitimer(signal.ITIMER_REAL, self.path_timeout)
                    fn(ctx)
                finally:
                    signal.setitimer(signal.ITIMER_REAL, 0)
                    ENGINE = previous
                paths += 1
                self.stats.paths += 1
                if self.nassert == 0:
                    self.stats.vacuous += 1
                if len(self.samples) < max_samples and (self.stats.paths & (self.stats.paths - 1)) == 0:
                    self.samples.append(self.input_values(self.current_model()))
            except Discard:
                self.stats.discarded += 1
            except CounterExample as ce:
                return ce
            except Budget:
                self.complete = False
                break
            except PathTimeout:
                self.complete = False
                self.inconclusive.append("a path took more than {} s".format(self.path_timeout))
                if self.model is None or self.depth < self.prefix_len:
                    continue
                return CounterExample("does not terminate", self.input_values(self.model))
            except EngineError:
                raise
            except Exception as exc:
                self.last_traceback = traceback.format_exc()
                return CounterExample("unexpected {}: {}".format(type(exc).__name__, str(exc)[:300]),
                                      self.input_values(self.current_model()))
        return None

    def current_model(self):
        if self.model is None:
            self.sync()
            self._query()
            self.model = self.solver.model()
        return self.model

    def input_values(self, model, extra=None):
        out = {}
        terms = dict(self.inputs)
        if extra:
            terms.update(extra)
        for name, v in terms.items():
            r = model.eval(v, model_completion=True)
            if z3.is_int_value(r):
                out[name] = r.as_long()
            else:
                out[name] = z3.is_true(r)
        return out

    # -- solver --------------------------------------------------------------
    def _query(self, *extra):
        t = _real_time()
        r = self.solver.check(*extra)
        self.stats.solver_s += _real_time() - t
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def sync(self):
        """Makes the solver hold exactly the terms of log[:depth]."""
        log, st = self.log, self.sstack
        n = self.depth
        i = 0
        m = min(len(st), n)
        while i < m and st[i] is log[i][0]:
            i += 1
        # entries are shared objects between a path and its descendants
        if len(st) > i:
            self.solver.pop(len(st) - i)
            del st[i:]
        for j in range(i, n):
            self.solver.push()
            self.solver.add(log[j][0])
            st.append(log[j][0])

    def in_prefix(self):
        return self.depth < self.prefix_len

    def _time_check(self):
        if self.deadline is not None and _real_time() > self.deadline:
            raise Budget()

    def branch(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        key = e.get_id()
        k = self.known.get(key)
        if k is not None:
            return k[0] != neg
        self.stats.branches += 1
        i = self.depth
        if i < len(self.log):
            term, taken, orig = self.log[i]
            if type(orig) is tuple or not orig.eq(e):
                raise EngineError("non-deterministic execution: {} instead of {}".format(e, orig))
            self.depth += 1
        else:
            self._time_check()
            self.sync()
            model = self.current_model()
            taken = z3.is_true(model.eval(e, model_completion=True))
            pos = e
            no = z3.Not(e)
            self._fork(no if taken else pos, not taken, e)
            self.log.append((pos if taken else no, taken, e))
            self.depth += 1
        self.known[key] = (taken, e)
        return taken != neg

    def realize(self, e):
        """A concrete value of e; the other values are explored as well."""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        done = self.values.get(e.get_id())
        if done is not None:
            return done[0]
        self.stats.realized += 1
        while True:
            self.stats.branches += 1
            if self.depth < len(self.log):
                _, taken, note = self.log[self.depth]
                if not (type(note) is tuple and note[0].eq(e)):
                    raise EngineError("non-deterministic execution at a realization: {} / {}".format(e, note))
                v = note[1]
                term = (e == z3.IntVal(v))
                self.depth += 1
            else:
                self._time_check()
                self.sync()
                v = self.current_model().eval(e, model_completion=True).as_long()
                term = (e == z3.IntVal(v))
                taken = True
                other = z3.Not(term)
                self._fork(other, False, (e, v))
                self.log.append((term, True, (e, v)))
                self.depth += 1
            simple = z3.simplify(term)
            self.known[simple.get_id()] = (taken, simple)
            if taken:
                self.values[e.get_id()] = (v, e)
                return v

    def _fork(self, other, taken, term):
        """Queues the path on which `other` holds, if it is feasible."""
        self.solver.push()
        self.solver.add(other)
        r = self._query()
        if r == z3.sat:
            self.work.append((self.log + [(other, taken, term)], self.solver.model()))
            self.stats.forks += 1
        elif r == z3.unknown:
            self.complete = False
            self.inconclusive.append("branch: " + str(term)[:200])
        self.solver.pop()

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if z3.is_false(e):
            raise Discard()
        if self.depth < len(self.log):
            if type(self.log[self.depth][2]) is tuple or not self.log[self.depth][2].eq(e):
                raise EngineError("non-deterministic execution at an assumption: {} instead of {}".format(
                    e, self.log[self.depth][2]))
            self.depth += 1
            return
        self.log.append((e, True, e))
        self.depth += 1
        if self.model is not None and z3.is_true(self.model.eval(e, model_completion=True)):
            return
        self._time_check()
        self.sync()
        r = self._query()
        if r == z3.sat:
            self.model = self.solver.model()
        elif r == z3.unsat:
            raise Discard()
        else:
            self.complete = False
            self.inconclusive.append("assume: " + str(e)[:200])
            raise Discard()

    def check(self, cond, message, detail):
        self.nassert += 1
        if isinstance(cond, Sym):
            if self.in_prefix():
                return
            self.check_term(_b(cond), message, detail)
        elif not cond:
            if self.in_prefix():
                return
            self.stats.assertions += 1
            raise CounterExample(self._msg(message, detail), self.input_values(self.current_model()))
        elif not self.in_prefix():
            self.stats.assertions += 1

    def _msg(self, message, detail):
        return message

    def check_term(self, e, message, detail, extra=None):
        self.nassert += 1
        e = z3.simplify(e)
        self.stats.assertions += 1
        if z3.is_true(e):
            return
        self._time_check()
        self.sync()
        self.solver.push()
        self.solver.add(z3.Not(e))
        r = self._query()
        model = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.sat:
            raise CounterExample(self._msg(message, detail), self.input_values(model, extra))
        if r == z3.unknown:
            self.complete = False
            self.inconclusive.append("assertion: " + message)

    # -- text ----------------------------------------------------------------
    def render(self, e):
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return str(e.as_long())
        if self.branch(e < 0):
            return "-" + self._token(z3.simplify(-e))
        return self._token(e)

    def _token(self, e):
        key = e.get_id()
        name = self.tokens.get(key)
        if name is None:
            name = "__sym_{}__".format(len(self.tokens))
            self.tokens[key] = name
            self.token_terms[name] = e
            setattr(builtins, name, SymInt(e))
        return name

    def parse(self, text):
        """The value of a rendered number."""
        text = text.strip()
        if text.startswith('-'):
            return -self.parse(text[1:])
        if text in self.token_terms:
            return SymInt(self.token_terms[text])
        return int(text)
