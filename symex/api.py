"""The part of the framework the harnesses see.

It has no dependency on z3, so that a counterexample (or a sampled path) can be
replayed by a plain interpreter on the unmodified code: every function below
works both on ordinary values and on the symbolic values of symex.engine.
"""


class Violation(Exception):
    """A property assertion failed (concrete mode)."""


class Discard(BaseException):
    """The inputs are outside the stated preconditions (concrete mode), or the
    current path became infeasible (symbolic mode)."""


class Sym(object):
    """Base class of the symbolic values."""
    __slots__ = ()


def is_sym(x):
    return isinstance(x, Sym)


def NOT(x):
    return x.sym_not() if isinstance(x, Sym) else (not x)


def _flat(xs):
    for x in xs:
        if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
            yield from _flat(x)
        else:
            yield x


def AND(*xs):
    syms = []
    for x in _flat(xs):
        if isinstance(x, Sym):
            syms.append(x)
        elif not x:
            return False
    if not syms:
        return True
    return syms[0].sym_and(syms[1:])


def OR(*xs):
    syms = []
    for x in _flat(xs):
        if isinstance(x, Sym):
            syms.append(x)
        elif x:
            return True
    if not syms:
        return False
    return syms[0].sym_or(syms[1:])


def IMPLIES(a, b):
    return OR(NOT(a), b)


def IFF(a, b):
    return OR(AND(a, b), AND(NOT(a), NOT(b)))


def ITE(c, a, b):
    if isinstance(c, Sym):
        return c.sym_ite(a, b)
    return a if c else b


def EQ(a, b):
    """Equality without branching; a Python bool if both are concrete."""
    return a == b


def SUM(xs):
    total = 0
    for x in xs:
        total = total + x
    return total


def TRUTH(x):
    """The truth value of x as a condition, without branching."""
    if isinstance(x, Sym):
        return x.sym_truth()
    return bool(x)


def DISTINCT(xs):
    xs = list(xs)
    return AND(*[NOT(EQ(xs[i], xs[j])) for i in range(len(xs)) for j in range(i)])


class Context(object):
    """Source of inputs and sink of assertions of one harness execution."""
    symbolic = False

    def int(self, name, lo, hi):
        raise NotImplementedError

    def bool(self, name):
        raise NotImplementedError

    def choice(self, name, options):
        """One element of options, chosen by a symbolic index (concretised)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self.index(name, len(options))]

    def index(self, name, n):
        raise NotImplementedError

    def assume(self, cond):
        raise NotImplementedError

    def check(self, cond, message, **detail):
        raise NotImplementedError

    def never(self, build, message):
        """build(v) -> condition over fresh unknowns v.int(name, lo, hi) ...:
        asserts that no values of the unknowns satisfy it."""
        raise NotImplementedError

    # environment stand-ins
    clock = None

    def reach(self, label):
        """Reachability witness: this point of the harness was reached."""
        self.reached[label] = self.reached.get(label, 0) + 1


class ConcreteContext(Context):
    """Replays one assignment of the inputs on plain values."""

    def __init__(self, inputs):
        self.inputs = dict(inputs)
        self.reached = {}
        self.checks = 0
        self.clock = None
        self.counter = {}

    def fresh(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else "{}#{}".format(name, n)

    def _get(self, name, default):
        return self.inputs.get(self.fresh(name), default)

    def int(self, name, lo, hi):
        value = self._get(name, lo)
        if not lo <= value <= hi:
            raise Discard()
        return int(value)

    def bool(self, name):
        return bool(self._get(name, False))

    def index(self, name, n):
        return int(self._get(name, 0))

    def assume(self, cond):
        if not cond:
            raise Discard()

    def check(self, cond, message, **detail):
        self.checks += 1
        if not cond:
            raise Violation(message + "".join("; {}={}".format(k, v) for k, v in detail.items()))

    def never(self, build, message):
        self.checks += 1
        u = ConcreteUnknowns(self.inputs)
        try:
            bad = build(u)
        except Discard:
            return
        if u.known and bad:
            raise Violation(message + "; unknowns={}".format(u.used))


class ConcreteUnknowns(object):
    def __init__(self, inputs):
        self.inputs = inputs
        self.used = {}
        self.known = True

    def _get(self, name, default):
        if '?' + name not in self.inputs:
            self.known = False
            return default
        self.used[name] = self.inputs['?' + name]
        return self.used[name]

    def int(self, name, lo, hi):
        value = int(self._get(name, lo))
        if not lo <= value <= hi:
            raise Discard()
        return value

    def bool(self, name):
        return bool(self._get(name, False))
