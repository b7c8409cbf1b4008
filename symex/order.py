"""Sets whose iteration order is an input.

The order in which a set (or frozenset) of strings is iterated depends on the
hash seed of the process. In a check that sets HASH_ORDER, the loader replaces
the sets of the code under test by the classes below: sets of numbers keep the
order that CPython gives them, for the others (those with a string in them) the
order is given by ORDER, an object that maps an element to an integer key.
hash() of a string is that key.
"""
import builtins

ORDER = None


class Natural(object):
    """Increasing order; objects other than strings: by first use."""

    def __init__(self):
        self.seen = {}

    def key(self, e):
        if isinstance(e, str):
            return int.from_bytes(e.encode('utf-8')[:24].ljust(24, b'\0'), 'big')
        return self.other(e)

    def other(self, e):
        # (the element is kept, so that its id is not used again)
        k = repr(e) if isinstance(e, tuple) else id(e)
        return self.seen.setdefault(k, (len(self.seen), e))[0]


class Chosen(Natural):
    """Any order of the first `exact` strings, with the others by one of four ways."""

    TOP = 1 << 800

    def __init__(self, ctx, exact):
        super().__init__()
        self.ctx = ctx
        self.exact = exact
        self.way = None
        self.keys = {}
        self.sorted = []

    def key(self, e):
        if not isinstance(e, str):
            return self.other(e)
        if e not in self.keys:
            n = len(self.sorted)
            if n < self.exact:
                position = self.ctx.index('order {}'.format(n), n + 1) if n else 0
            else:
                if self.way is None:
                    self.way = self.ctx.index('order of the others', 4)
                position = (n, 0, n if n % 2 else 0, (n * 2654435761 >> 7) % (n + 1))[self.way]
            low = self.sorted[position - 1] if position else 0
            high = self.sorted[position] if position < n else self.TOP
            self.keys[e] = (low + high) // 2
            self.sorted.insert(position, self.keys[e])
        return self.keys[e]


def _arbitrary(e):
    if isinstance(e, (str, bytes)):
        return True
    if isinstance(e, frozenset):
        return any(_arbitrary(i) for i in frozenset.__iter__(e))
    if isinstance(e, tuple):
        return any(_arbitrary(i) for i in e)
    return not (e is None or isinstance(e, (int, float, complex)))


def ordered(elements):
    elements = list(elements)
    if ORDER is None or len(elements) < 2 or not any(_arbitrary(e) for e in elements):
        return elements
    # the keys are given in an order that does not depend on the hash seed
    for e in sorted((e for e in elements if isinstance(e, str))):
        ORDER.key(e)
    return sorted(elements, key=ORDER.key)


class _Meta(type):
    def __instancecheck__(cls, obj):
        return isinstance(obj, cls.__mro__[1])

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__mro__[1])


def _wrap(x):
    if type(x) is set:
        return Set(x)
    if type(x) is frozenset:
        return FrozenSet(x)
    return x


def _wrapped(base, name):
    method = getattr(base, name)

    def call(self, *args):
        return _wrap(method(self, *args))
    call.__name__ = name
    return call


_RESULTS = ['copy', 'union', 'intersection', 'difference', 'symmetric_difference', '__or__', '__and__', '__sub__', '__xor__',
            '__ror__', '__rand__', '__rsub__', '__rxor__']


class Set(set, metaclass=_Meta):
    def __iter__(self):
        return iter(ordered(set.__iter__(self)))

    def pop(self):
        for e in self:
            self.remove(e)
            return e
        raise KeyError('pop from an empty set')

    def __repr__(self):
        return '{' + ', '.join(repr(e) for e in self) + '}' if self else 'set()'

    def __reduce__(self):
        return (Set, (list(self),))


class FrozenSet(frozenset, metaclass=_Meta):
    def __iter__(self):
        return iter(ordered(frozenset.__iter__(self)))

    def __repr__(self):
        return 'frozenset({' + ', '.join(repr(e) for e in self) + '})' if self else 'frozenset()'

    def __reduce__(self):
        return (FrozenSet, (list(self),))


for _name in _RESULTS:
    setattr(Set, _name, _wrapped(set, _name))
    setattr(FrozenSet, _name, _wrapped(frozenset, _name))


class use(object):
    """with use(order): sets are iterated in that order."""

    def __init__(self, order):
        self.order = order

    def __enter__(self):
        global ORDER
        self.old, ORDER = ORDER, self.order

    def __exit__(self, *_):
        global ORDER
        ORDER = self.old


def sym_hash(x):
    if ORDER is not None and isinstance(x, str):
        return ORDER.key(x)
    return hash(x)


def install():
    builtins.__sym_set__ = Set
    builtins.__sym_frozenset__ = FrozenSet
    builtins.__sym_wrap__ = _wrap
    builtins.__sym_hash__ = sym_hash
