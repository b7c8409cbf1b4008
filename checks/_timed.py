"""A problem whose constraint evaluations take (symbolic) time."""
import itertools

from symex import loader
from symex.api import SUM
from . import _search as P

# (name, domains, constraints): no single-variable constraints, whose evaluation
# belongs to the preparation of a run rather than to the search
PROBLEMS = {
    'pair': ([[0, 1], [1, 0]], [['T', [0, 1]]]),
    'pair+ad': ([[0, 1], [1, 0], [0]], [['T', [0, 1]], ['AD', [0, 2]]]),
    'fails': ([[0, 1, 2], [0, 1, 2], [0, 1]], [['F', [0, 1, 2], []]]),
    'long': ([[0, 1, 2], [0, 1, 2], [2, 1, 0]], [['F', [0, 1, 2], []], ['F', [0, 1], [[1, 1], [2, 0], [2, 2], [0, 1]]]]),
    'one at the end': ([[0, 1, 2], [0, 1], [0, 1]], [['F', [0, 1, 2], [[2, 1, 0]]]]),
    'two': ([[0, 1, 2], [0, 1]], [['F', [0, 1], [[0, 1], [2, 0]]]]),
    'all': ([[0, 1], [0, 1]], [['F', [0, 1], [[0, 0], [0, 1], [1, 0], [1, 1]]]]),
    'deep': ([[0], [1, 0], [0], [0, 1, 2]], [['F', [2, 3], [[0, 0], [0, 1], [0, 2]]], ['F', [0, 1], [[0, 0], [0, 1]]]]),
    'empty': ([], []),
    'wide': ([[0, 1], [0, 1], [0, 1]], [['T', [0, 1]], ['F', [0, 1, 2], [[0, 0, 1], [1, 1, 0], [1, 0, 0], [0, 1, 1]]]]),
}


class Timed(object):
    """Clock, model and bookkeeping of the real search time.

    The clock advances by a fresh symbolic amount in every constraint
    evaluation (search) and whenever the harness calls hold() (consumer)."""

    def __init__(self, ctx, problem, max_tick=4, reads=False):
        C = loader.load('satisfy.constraint')
        M = loader.load('satisfy.model')
        self.ctx = ctx
        self.now = 0
        self.max_tick = max_tick
        self.ticking = False
        self.reads = reads
        self.log = []             # amounts of search time, in order
        self.evaluations = 0
        domains, constraints = PROBLEMS[problem]
        self.names = P.NAMES[:len(domains)]
        self.model = M.Model()
        for name, d in zip(self.names, domains):
            self.model.add_int_variable(d, name=name)
        self.size = max([len(d) for d in domains] + [1]) * max(1, len(constraints))
        for k, spec in enumerate(constraints):
            names = [self.names[i] for i in spec[1]]
            if spec[0] == 'AD':
                self.model.add_constraint(C.AllDifferentConstraint(names))
                continue
            if spec[0] == 'T':
                table = {t: ctx.bool('r{}{}'.format(k, list(t)))
                         for t in itertools.product(*[domains[i] for i in spec[1]])}
            else:
                true = set(map(tuple, spec[2]))
                table = {t: t in true for t in itertools.product(*[domains[i] for i in spec[1]])}
            self.model.add_constraint(self._constraint(C, names, table))

    def _constraint(self, C, names, table):
        timed = self

        class Slow(C.Constraint):
            def evaluate(self, substitution):
                timed.evaluations += 1
                if timed.ticking:
                    timed.advance()
                return table[tuple(substitution[v] for v in names)]
        return Slow(names)

    def advance(self):
        d = self.ctx.int('d{}'.format(len(self.log)), 0, self.max_tick)
        self.log.append(d)
        self.now = self.now + d

    def hold(self):
        self.now = self.now + self.ctx.int('h', 0, self.max_tick)

    def clock(self):
        if self.reads and self.ticking:
            self.advance()
        return 1000 + self.now

    def start(self):
        self.ctx.clock = self.clock
        self.ticking = True

    def spent(self, since=0):
        return SUM(self.log[since:])
