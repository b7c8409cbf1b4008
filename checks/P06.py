"""P06: cryptarithm answers are exactly the valid digit assignments."""
import itertools
import re

from symex import loader
from symex.api import AND, DISTINCT, EQ, NOT, OR, TRUTH
from symex.runner import Job
from . import _search as P

BOUNDS = [
    "the puzzles of PUZZLES (1-8 letters; + - * %, parentheses, all comparisons, statements joined by & and |, numbers mixing "
    "letters and digits, repeated letters, either case), with symbolic digits in the places marked ?",
    "leading zeros avoided (default, True) or allowed (False), all policies on the short puzzles, limits 0-2",
    "for each of them z3 decides over all 10^letters mappings whether a valid one was left out",
]
OUTSIDE = ["puzzles with 9 or 10 letters (10 letters: a few minutes each), division"]
WITNESSES = ['several', 'unique', 'none', 'leading zeros', 'lower case', 'mixed', 'limit', 'again', 'digits']

SHORT = [
    'A==B', 'A+B==C', 'A*B==CD', 'AB+BC==CDE', 'AB*BA==CDC', 'A==A', 'A!=A', 'AA==BB', 'A<B', 'AB>=BA', 'A*A==BA', 'AB-BA==C',
    '(A+B)*C==D', 'A%B==C', 'A+B+C==D', 'AB==A*A', 'a+B==c', 'ab+Ab==bc', 'A<=B', 'A>B', 'AB!=BA', 'A*(B-C)==DA', '-A+B==C',
    'A==7', '7==A', 'A+1==B', 'ABA==AB*B', 'A**B==CD',
    'A**2==BC', '(AB%C==D)', 'A+BB==CA',
]
JOINED = ['(A+B==C)&(B*B==D)', '(A*B==CD)&(A<B)', '(AB==BA+9)|(A*B==14)', '(A<B)&(B<C)&(C<D)&(A+D==7)', '(A+A==B)&(B+B==C)&(C!=7)',
          '(A==3)|(B==4)']
MIXED = ['A?+B==3C', '1A*?==B4', 'A?A==B?', '?A+A?==BB', '2A+?B==C7', 'A0B==?0?', 'A?==B?', 'AA?*5==6CAB', '1?A==B', 'A1B-B?A==C', '?==A',
         'ABABAB==1010?0', 'AABBAA*2==CCDDCC', 'AABB==CC*CC', 'AAAABBBB-11110?00==BBBBAAAA', 'ABBBBBA<100?002', '12345A==A2345?', 'AAAA==?*BBBB',
         'AABA+BBAB==?333', '1234567A==B234567C', 'AAAAAAAA==?*11111111', 'AAB*AAB==1?3AB', 'ABBA==CA*11', 'AABC+CBAA==?AAA',
         '0A+?==B', 'A?B<BA?', '10A==?B*B', '1A?==10B', '1A2B?==2C1', 'A?B1+?==B?A1']
LONG = ['TWO+TWO==FOUR', 'AA3*55==6CAB', 'NO+NO==YES', 'ABC+ACB==CBA', 'AB*C==DE', 'US*US==ALL', 'I+BB==ILL', 'GO+TO==OUT',
        'no+GUN==hunt', 'ABCD*4==DCBA', 'AN*AN==MAN', 'DOS*DOS==CUATRO']
VERY = ['SEND+MORE==MONEY', 'CROSS+ROADS==DANGER', 'ODD+ODD==EVEN', 'BASE+BALL==GAMES']


def jobs(tier):
    out = []
    thorough = tier == 'thorough'
    for puzzle in SHORT + JOINED + MIXED:
        for zeros in ['default', True, False]:
            out.append(Job('puzzle', source=puzzle, zeros=zeros, policy=None, weight=4, path_timeout=200))
    for puzzle in LONG + (VERY if thorough else []):
        for zeros in ['default', False] if not thorough else ['default', True, False]:
            if puzzle in ('DOS*DOS==CUATRO', 'no+GUN==hunt', 'GO+TO==OUT') and not thorough:
                continue
            out.append(Job('puzzle', source=puzzle, zeros=zeros, policy=None, weight=15, path_timeout=900))
    if not thorough:
        out.append(Job('puzzle', source=VERY[0], zeros='default', policy=None, weight=25, path_timeout=200))
    for puzzle in ['A+B==C', 'AB+BC==CDE', 'A?+B==3C', 'a+B==c'] + (['A*B==CD', '(A+A==B)&(B+B==C)&(C!=7)'] if thorough else []):
        for policy in P.POLICIES:
            if policy == 'RANDOM' and puzzle == 'AB+BC==CDE':
                continue
            out.append(Job('puzzle', source=puzzle, zeros=True, policy=policy, weight=6, path_timeout=100))
    out.append(Job('limits'))
    return out


TOKEN = re.compile(r'[A-Za-z0-9]+|\*\*|[=!<>]=|[-+*%<>()&|]')


class _Reader(object):
    """Value of a puzzle under a mapping (letters to possibly symbolic digits)."""
    LEVELS = [['|'], ['&'], ['==', '!=', '<', '<=', '>', '>='], ['+', '-'], ['*', '%']]

    def __init__(self, text, digits):
        self.tokens = TOKEN.findall(text)
        assert ''.join(self.tokens) == text, text
        self.digits = digits
        self.at = 0

    def peek(self):
        return self.tokens[self.at] if self.at < len(self.tokens) else None

    def take(self):
        self.at += 1
        return self.tokens[self.at - 1]

    def read(self, level=0):
        if level == len(self.LEVELS):
            return self.unary()
        value = self.read(level + 1)
        while self.peek() in self.LEVELS[level]:
            op = self.take()
            other = self.read(level + 1)
            value = self.apply(op, value, other)
        return value

    def unary(self):
        token = self.take()
        if token == '-':
            return 0 - self.unary()
        if token == '(':
            value = self.read()
            assert self.take() == ')'
        else:
            value = 0
            for ch in token:
                value = value * 10 + (int(ch) if ch.isdigit() else self.digits[ch.upper()])
        if self.peek() == '**':
            self.take()
            value = self.power(value, self.unary())
        return value

    def power(self, a, b):
        from symex.api import ITE, is_sym
        if not is_sym(b):
            return a ** b
        total = 0
        power = 1
        for k in range(10):
            total = total + ITE(EQ(b, k), power, 0)
            power = power * a
        return total

    def apply(self, op, a, b):
        if op == '|':
            return OR(TRUTH(a), TRUTH(b))
        if op == '&':
            return AND(TRUTH(a), TRUTH(b))
        if op == '%':
            # not defined for a zero divisor: such a mapping is never valid
            from symex.api import ITE
            safe = ITE(EQ(b, 0), 1, b)
            self.undefined = OR(getattr(self, 'undefined', False), EQ(b, 0))
            return a % safe
        return {'==': lambda: EQ(a, b), '!=': lambda: NOT(EQ(a, b)), '<': lambda: a < b, '<=': lambda: a <= b,
                '>': lambda: a > b, '>=': lambda: a >= b, '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[op]()


def valid(text, digits, avoid):
    """The mapping is an answer (a condition)."""
    reader = _Reader(text, digits)
    value = TRUTH(reader.read())
    out = [value, NOT(getattr(reader, 'undefined', False)), DISTINCT([digits[c] for c in sorted(digits)])]
    if avoid:
        for number in re.findall('[A-Za-z0-9]+', text):
            if number[0].isalpha():
                out.append(NOT(EQ(digits[number[0].upper()], 0)))
    return AND(*out)


def _fill(ctx, source):
    out, k = '', 0
    for ch in source:
        if ch == '?':
            ch = str(ctx.choice('digit{}'.format(k), list(range(10))))
            k += 1
            ctx.reach('digits')
        out += ch
    return out


def puzzle(ctx, source, zeros, policy):
    C = loader.load('satisfy.cryptarithm')
    S = loader.load('satisfy.solver')
    text = _fill(ctx, source)
    numbers = re.findall('[A-Za-z0-9]+', text)
    if '%' in text:
        # a divisor that can be zero makes the calculation undefined
        ctx.assume(zeros is not False)
    letters = sorted(set(ch.upper() for ch in text if ch.isalpha()))
    args = {} if zeros == 'default' else {'avoid_leading_zeros': zeros}
    avoid = zeros is not False
    if policy:
        ctx.control_random = policy == 'RANDOM'
        args['var_selection_policy'] = S.VarSelectionPolicy[policy]
    solver = C.CryptarithmSolver(text, **args)
    found = [dict(s) for s in solver]
    what = dict(puzzle=text, zeros=zeros)
    for s in found:
        ctx.check(sorted(s) == letters, "an answer does not map exactly the letters", answer=s, **what)
        ctx.check(all(isinstance(v, int) and 0 <= v <= 9 for v in s.values()), "a letter is not mapped to a digit", answer=s, **what)
        ctx.check(valid(text, s, avoid), "an answer is not valid", answer=s, **what)
    ctx.check(len({tuple(s[c] for c in letters) for s in found}) == len(found), "an answer was delivered twice", **what)

    def missing(u):
        digits = {c: u.int(c, 0, 9) for c in letters}
        return AND(valid(text, digits, avoid), *[NOT(AND(*[EQ(digits[c], s[c]) for c in letters])) for s in found])

    ctx.never(missing, "a valid mapping was not delivered")
    ctx.reach('none' if not found else 'unique' if len(found) == 1 else 'several')
    if not avoid and any(s[n[0].upper()] == 0 for s in found for n in numbers if n[0].isalpha()):
        ctx.reach('leading zeros')
    if text != text.upper():
        ctx.reach('lower case')
    if any(ch.isdigit() for ch in text):
        ctx.reach('mixed')
    if len(letters) < 4 and policy is None:
        ctx.check([dict(s) for s in solver] == found, "solving again gives other answers", **what)
        ctx.reach('again')


def limits(ctx):
    C = loader.load('satisfy.cryptarithm')
    U = loader.load('satisfy.utils')
    text = ctx.choice('puzzle', ['A+B==C', 'A==A', 'AB*BA==CDC', 'a+B==c'])
    # answers of separate solvers may come in another order: only the number is compared
    full = list(C.CryptarithmSolver(text))
    limit = ctx.choice('limit', [None, U.INFINITY, 0, 1, 2])
    solver = C.CryptarithmSolver(text, limit=limit)
    got = [dict(s) for s in solver]
    expected = len(full) if limit in (None, U.INFINITY) else min(limit, len(full))
    ctx.check(len(got) == expected, "a limited run delivers another number of answers", got=got, limit=limit)
    ctx.check(all(s in full for s in got), "a limited run delivers something else", got=got)
    ctx.reach('limit')
