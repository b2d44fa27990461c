"""C19: the built-in validators, against an independent reading of the documentation."""
import datetime
import logging
import re
import warnings
from fractions import Fraction

from records import (AssertCallValidation, AssertValidation, Clamp, Cyclic, FullMatch, Truth, Within)
from .common import *


class Ordered:
    """totally ordered, with equal but distinct instances"""
    def __init__(self, k): self.k = k
    def __repr__(self): return f'Ordered({self.k})'
    def __eq__(self, o): return isinstance(o, Ordered) and self.k == o.k
    def __hash__(self): return hash(self.k)
    def __lt__(self, o): return self.k < o.k if isinstance(o, Ordered) else NotImplemented
    def __le__(self, o): return self.k <= o.k if isinstance(o, Ordered) else NotImplemented
    def __gt__(self, o): return self.k > o.k if isinstance(o, Ordered) else NotImplemented
    def __ge__(self, o): return self.k >= o.k if isinstance(o, Ordered) else NotImplemented


def scale(name):
    day = datetime.date(2020, 1, 1)
    return {'int': lambda k: k, 'float': lambda k: k / 2, 'fraction': lambda k: Fraction(k, 3),
            'str': lambda k: chr(ord('m') + k), 'date': lambda k: day + datetime.timedelta(days=k),
            'ordered': lambda k: Ordered(k), 'tuple': lambda k: (k, 'x'), 'big': lambda k: 10 ** 30 + k,
            'bytes': lambda k: bytes([100 + k]),
            'mixed': lambda k: float(k) if k % 2 else k}[name]


SCALES = ['int', 'float', 'fraction', 'str', 'date', 'ordered', 'tuple', 'big', 'bytes', 'mixed']


def through_field(tokens):
    """a function that puts a value through a field with the tokens"""
    cls = make_class('R', {'x': annotated(object, *tokens)}, unary_parse=False)

    def f(v):
        try:
            return cls(x=v).x
        except Exception as e:
            raise (e if e.__cause__ is None else e.__cause__)
    return f


def through_token(tokens):
    """a function that puts a value through the callback of the token"""
    cb = tokens[0](object, None)
    return cb


ROUTES = [('field', through_field), ('callback', through_token)]


def clamp_case(route, sc, lo, hi, style):
    mk = scale(sc)
    desc = f'Clamp via {route[0]}, {sc}, ge={lo}, le={hi}, {style}'

    def fn():
        kw = {}
        a, b = (None if lo is None else mk(lo)), (None if hi is None else mk(hi))
        if lo is not None:
            kw['ge'] = a
        if hi is not None:
            kw['le'] = b
        pos = ()
        if style == 'positional' and lo is not None:
            pos = (kw.pop('ge'),) + ((kw.pop('le'),) if hi is not None else ())
        o = outcome(Clamp, *pos, **kw)
        if lo is not None and hi is not None and lo > hi:
            require(not o.ok and isinstance(o.exc, ValueError), 'contradictory bounds: {}', o)
            return
        require(o.ok, 'bounds rejected: {}', o)
        f = route[1]([o.value])
        for k in [*range(-4, 5), *reversed(range(-4, 5))]:
            v = mk(k)
            r = f(v)
            if lo is not None and k < lo:
                require(r == a and (r is a or r == b), '{} became {} instead of the lower bound', v, show(r))
            elif hi is not None and k > hi:
                require(r == b, '{} became {} instead of the upper bound', v, show(r))
            else:
                require(r is v, '{} is within the bounds but became {} (not that object)', v, show(r))
    return Case(desc, fn)


class Told(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, r): self.records.append(r)


class Boom(Exception):
    pass


MODES = ['default', 'message', 'error', 'error class message', 'warn', 'warn message', 'warn error', 'logger',
         'logger message', 'logger error', 'warn false']


def in_mode(mode, build, route, run):
    """run(f) with f a function of a value giving (passed, value); checks how failures are reported"""
    given = None
    kw = {}
    told = Told()
    if 'message' in mode:
        kw['err'] = given = 'it went wrong'
    if mode.endswith('error'):
        kw['err'] = given = UserWarning('mine') if mode == 'warn error' else Boom('mine')
    if mode.startswith('warn'):
        kw['warn'] = mode != 'warn false'
    if mode.startswith('logger'):
        lg = logging.Logger('told')
        lg.addHandler(told)
        lg.propagate = False
        kw['warn'] = lg
    fs = route[1]([build(**kw)])
    warns = mode.startswith('warn') and mode != 'warn false' or mode.startswith('logger')

    def f(v, expected):
        told.records.clear()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            o = outcome(fs, v)
        notices = [w.message for w in ws] + [r.msg for r in told.records]
        if expected:
            require(o.ok and o.value is v, '{} should pass (with that very object): {}', show(v), o)
            require(not notices, '{} passes but warned of {}', show(v), notices)
            return
        if not warns:
            require(not o.ok, '{} should fail: {}', show(v), o)
            require(not notices, 'warned of {}', notices)
            exc = o.exc
        else:
            require(o.ok and o.value is v, '{} should only warn: {}', show(v), o)
            require(len(notices) == 1, '{} should warn once: {}', show(v), notices)
            require(bool(told.records) == mode.startswith('logger'), 'warned through the wrong channel')
            exc = notices[0]
        if isinstance(given, Exception):
            require(exc is given, 'reported {!r} instead of {!r}', exc, given)
        else:
            require(isinstance(exc, UserWarning if warns else ValueError), 'reported {!r}', exc)
            require(given is None or given in str(exc), 'reported {!r} instead of {!r}', exc, given)
    run(f)


def within_case(route, sc, lo, hi, g_eq, l_eq, mode):
    mk = scale(sc)
    desc = f'Within via {route[0]}, {sc}, ge={lo}, lt={hi}, g_eq={g_eq}, l_eq={l_eq}, {mode}'

    def fn():
        kw = {}
        if lo is not None:
            kw['ge'] = mk(lo)
        if hi is not None:
            kw['lt'] = mk(hi)
        if g_eq is not None:
            kw['g_eq'] = g_eq
        if l_eq is not None:
            kw['l_eq'] = l_eq
        ge, le = g_eq is None or g_eq, bool(l_eq)
        if lo is not None and hi is not None and (lo > hi or lo == hi and not (ge and le)):
            o = outcome(Within, **kw)
            require(not o.ok and isinstance(o.exc, ValueError), 'contradictory bounds: {}', o)
            return

        def run(f):
            for k in range(-4, 5):
                f(mk(k), (lo is None or k > lo or ge and k == lo) and (hi is None or k < hi or le and k == hi))
            if sc in ('int', 'float', 'fraction', 'big'):
                # on neither side of a bound
                f(float('nan'), lo is None and hi is None)
        in_mode(mode, lambda **m: Within(**kw, **m), route, run)
    return Case(desc, fn)


def partial_case(route, lo, hi, g_eq, l_eq, mode):
    desc = f'Within via {route[0]}, sets, ge={lo}, lt={hi}, g_eq={g_eq}, l_eq={l_eq}, {mode}'

    def fn():
        kw = {k: set(x) for k, x in (('ge', lo), ('lt', hi)) if x is not None}

        def run(f):
            for t in ('', 'a', 'b', 'ab', 'abc', 'bc', 'd'):
                v = set(t)
                f(v, (lo is None or v > set(lo) or g_eq and v == set(lo)) and (
                    hi is None or v < set(hi) or l_eq and v == set(hi)))
        in_mode(mode, lambda **m: Within(g_eq=g_eq, l_eq=l_eq, **kw, **m), route, run)
    return Case(desc, fn)


def cyclic_case(route, lo, hi, vs):
    desc = f'Cyclic via {route[0]}, [{lo!r}, {hi!r})'

    def fn():
        f = route[1]([Cyclic(lo, hi)])
        for v in vs:
            r = f(v)
            if lo <= v < hi:
                require(r is v, '{!r} is inside but became {!r}', v, r)
                continue
            require(lo <= r < hi, '{!r} became {!r}, outside', v, r)
            n = (Fraction(v) - Fraction(r)) / (Fraction(hi) - Fraction(lo))
            if any(isinstance(x, float) for x in (v, lo, hi)):
                # up to rounding
                slack = Fraction(max(abs(v), abs(lo), abs(hi))) * Fraction(1, 2 ** 50) / (Fraction(hi) - Fraction(lo))
                require(abs(n - round(n)) <= slack, '{!r} became {!r}, {} periods away', v, r, float(n))
            else:
                require(n.denominator == 1, '{!r} became {!r}, {} periods away', v, r, n)
    return Case(desc, fn)


class Falsy:
    def __bool__(self): return False
    def __repr__(self): return 'Falsy()'


class Strings(str):
    pass


VALUES = [None, 0, 1, '', 'a', [], [0], {}, (), False, True, 0.0, -1, float('nan'), Falsy(), object(), b'', b'x']
FIXED = [logging.NullHandler(), ValueError('x')]


def truth_case(route, mode):
    def run(f):
        for v in VALUES + FIXED:
            f(v, bool(v))
    return Case(f'Truth via {route[0]}, {mode}', lambda: in_mode(mode, Truth, route, run))


PATTERNS = ['a', 'a*', 'a|ab', '', 'a.c', '[ab]+', '(?i)ab', '^a', 'a$', '(a)(b)?', 'a|b', 'x*?', '(?s)a.']
TEXTS = ['', 'a', 'aa', 'ab', 'abc', 'b', 'ba', 'AB', 'a\n', 'a\nc', 'axc', 'aaab', 'x', 'xx', ' a']


def match_case(route, mode, pat, how):
    def fn():
        src = pat
        flags = 0
        if how == 'compiled':
            src = re.compile(pat)
        elif how == 'flags':
            flags = re.I
            src = re.compile(pat, flags)
        elif how == 'bytes':
            src = pat.encode()
        full = re.compile(f'(?:{pat})\\Z' if not pat.startswith('(?') else pat, flags)

        def run(f):
            for t in TEXTS:
                m = full.match(t)
                holds = m is not None and m.end() == len(t) if not pat.startswith('(?') else \
                    re.fullmatch(pat, t, flags) is not None
                f(t.encode() if how == 'bytes' else Strings(t), holds)
        in_mode(mode, lambda **m: FullMatch(src, **m), route, run)
    return Case(f'FullMatch via {route[0]}, {mode}, {pat!r} {how}', fn)


def call_case(route, mode, cls):
    def fn():
        seen = []
        answers = {}

        def func(v):
            seen.append(v)
            return answers['x']
        if cls == 'call':
            def build(**m): return AssertCallValidation(func, **m)
        else:
            class Mine(AssertValidation):
                def assert_(self, v): return func(v)
            build = Mine

        def run(f):
            for v in VALUES:
                for ans in (True, False, 1, 0, None, [], 'no', Falsy()):
                    answers['x'] = ans
                    seen.clear()
                    f(v, bool(ans))
                    require(len(seen) == 1 and seen[0] is v, 'the function was given {}', seen)
        in_mode(mode, build, route, run)
    return Case(f'{cls} assertion via {route[0]}, {mode}', fn)


def cases(tier, rng):
    thorough = tier == 'thorough'
    span = [None, *range(-3, 4)]
    for route in ROUTES:
        for mode in MODES:
            yield truth_case(route, mode)
            yield call_case(route, mode, 'call')
            yield call_case(route, mode, 'subclass')
            for pat in PATTERNS if thorough else PATTERNS[:4]:
                for how in ('str', 'compiled', 'flags', 'bytes'):
                    yield match_case(route, mode, pat, how)
        for pat in PATTERNS:
            for how in ('str', 'compiled', 'flags', 'bytes'):
                yield match_case(route, 'default', pat, how)
    numbers = [0, 1, 2, 7, -1, -5, 360, 10 ** 20, -10 ** 20, 0.5, -0.5, 1e-20, -1e-20, 359.99999999999994, 1e17,
               -1e17, 5e-324, -5e-324, Fraction(1, 3), Fraction(-22, 7), 24, 23.999999999999996, -0.0, True]
    for route in ROUTES:
        for lo, hi in [(0, 360), (-180, 180), (0, 24), (0.0, 360.0), (-1, 1), (3, 5), (-5, -3), (0, 1), (0.0, 1e-3),
                       (0, 0.1), (Fraction(1, 3), Fraction(5, 3)), (-0.5, 0.5), (1e10, 2e10), (0, 2 ** 60),
                       (-3.3, 7.7)]:
            vs = numbers + [lo, hi, hi + 1, lo - 1, lo - (hi - lo), hi + (hi - lo), lo + 3 * (hi - lo), (lo + hi) / 2]
            if not isinstance(lo, float) and not isinstance(hi, float):
                vs = vs + [rng.randrange(-10 ** 6, 10 ** 6) for _ in range(40)]
            vs = vs + [rng.uniform(-1000, 1000) for _ in range(40)]
            if isinstance(lo, Fraction):
                vs = [v for v in vs if not isinstance(v, float)]
            elif isinstance(lo, float) or isinstance(hi, float):
                vs = [v for v in vs if not isinstance(v, Fraction) and abs(v) < 1e18]
            yield cyclic_case(route, lo, hi, vs)
    for sc in SCALES:
        for route in ROUTES:
            for lo in span:
                for hi in span:
                    for style in ('keywords', 'positional'):
                        yield clamp_case(route, sc, lo, hi, style)
    modes = MODES if thorough else [None]
    for lo in (None, '', 'a', 'ab'):
        for hi in (None, 'ab', 'abc', 'bcd'):
            for g in (True, False):
                for l in (True, False):
                    if lo is not None and lo == hi and not (g and l):
                        continue
                    for m in modes:
                        for route in ROUTES if thorough else [None]:
                            yield partial_case(route or rng.choice(ROUTES), lo, hi, g, l, m or rng.choice(MODES))
    for sc in SCALES:
        for lo in span:
            for hi in span:
                for g in (None, True, False):
                    for l in (None, True, False):
                        for m in modes:
                            for route in ROUTES if thorough else [None]:
                                yield within_case(route or rng.choice(ROUTES), sc, lo, hi, g, l, m or rng.choice(MODES))
