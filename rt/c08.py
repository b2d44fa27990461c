"""C08: parsing."""
import io
import itertools
import pickle

from records import RecordBase, CallValidation, SelectableFactory, parser
import records.extras as extras
from records.record import ParseFailure
from .common import *
from . import reentry


class Boom(Exception):
    pass


class Shut(Token):
    """the built-in parsers make nothing of it"""
    def __getattr__(self, n): raise Boom(n)


WHAT = ['raise', 'ParseFailure', 'TypeError', 'token', 'None', 'falsy', 'instance', 'Stop']
BAD = ('raise', 'ParseFailure', 'TypeError', 'Stop')
KINDS = ['classmethod', 'staticmethod', 'SelectableFactory']


def make_parser(n, what, kind, log, results, arg):
    def go(cls, v):
        log.append((n, v))
        if what == 'raise':
            raise Boom
        if what == 'Stop':
            raise StopIteration
        if what == 'ParseFailure':
            raise ParseFailure('inner')
        if what == 'TypeError':
            raise TypeError('inner')
        r = {'token': lambda: Token('parsed'), 'None': lambda: None, 'falsy': list, 'instance': lambda: object.__new__(cls or RecordBase)}[what]()
        results[n] = r
        return r
    if kind == 'staticmethod':
        return parser(staticmethod(lambda v: go(None, v)))
    if kind == 'SelectableFactory':
        # the factory makes a mapping, from which the class makes an instance
        def mapping(cls, v):
            log.append((n, v))
            if what in BAD:
                raise Boom
            results[n] = {'x': 1, 'y': 2}
            return results[n]
        return parser(SelectableFactory(classmethod(mapping)))
    return parser(classmethod(lambda cls, v: go(cls, v)))


def case(levels, overrides):
    """levels: per class of a chain, its parsers (what, kind); overrides: names shadowed at a level: (level, n, how)"""
    desc = f'parsers by class {levels}, shadowed {overrides}'

    def fn():
        arg, log, results = Shut('arg'), [], {}
        live = {}
        base, n = RecordBase, 0
        chain = []
        for k, ps in enumerate(levels):
            body = {}
            for what, kind in ps:
                body[f'p{n}'] = make_parser(n, what, kind, log, results, arg)
                live[f'p{n}'] = (n, what, kind)
                n += 1
            for level, m, how in overrides:
                if level == k and f'p{m}' in live and f'p{m}' not in body:
                    if how == 'unmarked':
                        body[f'p{m}'] = classmethod(lambda cls, v: log.append(('shadow', v)) or 'shadow')
                        del live[f'p{m}']
                    else:
                        body[f'p{m}'] = make_parser(100 + m, how, 'classmethod', log, results, arg)
                        live[f'p{m}'] = (100 + m, how, 'classmethod')
            base = make_class(f'L{k}', {'wuvst'[k]: int} if k != 0 else {'x': int, 'y': int}, (base,), body)
            chain.append((base, dict(live)))
        for cls, parsers in [chain[-1], *chain]:
            del log[:]
            results.clear()
            got = outcome(cls.parse, arg)
            require(all(v is arg for _, v in log), 'parsers were given {}', log)
            require(sorted(i for i, _ in log) == sorted(i for i, _, _ in parsers.values()), '{}: the parsers run were {}, and should be {}', cls.__name__,
                    [i for i, _ in log], [i for i, _, _ in parsers.values()])
            depth = len(cls._fields)
            good = [(i, w, k) for i, w, k in parsers.values() if w not in BAD and not (k == 'SelectableFactory' and depth > 2)]
            if not good:
                require(not got.ok and isinstance(got.exc, ParseFailure), '{}: no parser succeeds, and parse {}', cls.__name__, got)
            elif len(good) > 1:
                require(not got.ok and isinstance(got.exc, TypeError) and not isinstance(got.exc, ParseFailure), 'several parsers succeed, and parse {}', got)
            elif good[0][2] == 'SelectableFactory':
                require(got.ok and type(got.value) is cls and (got.value.x, got.value.y) == (1, 2), 'parse {}', got)
            else:
                require(got.ok and got.value is results[good[0][0]], 'parse {}, and should give {}', got, results[good[0][0]])
    return Case(desc, fn)


class P(RecordBase):
    x: int
    y: int


class PSub(P):
    z: int = 0


class Other(RecordBase):
    x: int
    y: int


class Namespace:
    def __init__(self, x, y): self.x, self.y = x, y


class FalsyP(P):
    w: int = 0
    def __bool__(self): return False


def builtin():
    def fn():
        m = {'x': 1, 'y': 2}
        for v in (m, '{"x": 1, "y": 2}', b'{"x": 1, "y": 2}', Namespace(1, 2), P(x=1, y=2), Other(x=1, y=2)):
            r = outcome(P.parse, v)
            require(r.ok and type(r.value) is P and attrs(r.value) == m, 'parse({}) {}', v, r)
        for v in ({}, {'x': 1}, '{"x": 1}', '{', 'x', 3, None, [], {'x': 1, 'y': 2, 'z': 3}, Namespace, object()):
            r = outcome(P.parse, v)
            require(not r.ok and isinstance(r.exc, ParseFailure), 'parse({}) {}', v, r)
    return Case('the built-in parsers', fn)


def two(v, desc):
    def fn():
        r = outcome(P.parse, v)
        require(not r.ok and isinstance(r.exc, TypeError) and not isinstance(r.exc, ParseFailure), 'parse {}', r)
    return Case(desc, fn)


class DictNs(dict):
    """both a mapping and an object"""
    x = 1
    y = 2


def pickles(v, want, how):
    def fn():
        data = pickle.dumps(v)
        for turn in range(2):
            if how == 'bytes':
                r = outcome(P.from_pickle, data)
            elif how == 'io':
                r = outcome(P.from_pickle_io, io.BytesIO(data))
            else:
                calls = []

                class Mod:
                    @staticmethod
                    def loads(*a, **k): calls.append((a, k)); return v
                    @staticmethod
                    def load(*a, **k): calls.append((a, k)); return v
                old = extras.pickle
                extras.pickle = Mod
                try:
                    r = outcome(P.from_pickle if how == 'stub' else P.from_pickle_io, data, 1, a=2)
                finally:
                    extras.pickle = old
                require(calls == [((data, 1), {'a': 2})], 'calls {}', calls)
                if want == 'same':
                    require(r.ok and r.value is v, 'from_pickle {}', r)
            if want == 'same':
                require(r.ok and type(r.value) is type(v) and attrs(r.value) == attrs(v), 'from_pickle {}', r)
            elif want == 'parsed':
                require(r.ok and type(r.value) is P and attrs(r.value) == {'x': 1, 'y': 2}, 'from_pickle {}', r)
            else:
                require(not r.ok and isinstance(r.exc, ParseFailure), 'from_pickle {}', r)
    return Case(f'from_pickle ({how}) of {show(v)}', fn)


def cases(tier, rng):
    yield Case('parsing within parsing', reentry.parsing)
    yield builtin()
    yield two(DictNs(x=1, y=2), 'a mapping that is also a namespace')
    for how in ('bytes', 'io', 'stub', 'stub io'):
        for v, w in ((P(x=1, y=2), 'same'), (PSub(x=1, y=2), 'same'), (FalsyP(x=1, y=2), 'same'), (Other(x=1, y=2), 'parsed'), ({'x': 1, 'y': 2}, 'parsed'),
                     ('{"x": 1, "y": 2}', 'parsed'), (Namespace(1, 2), 'parsed'), (None, 'fails'), ({}, 'fails'), (5, 'fails')):
            yield pickles(v, w, how)
    for k in range(3):
        for ws in itertools.product(WHAT, repeat=k):
            yield case([[(w, rng.choice(KINDS) if w != 'instance' else 'classmethod') for w in ws]], [])
    for w in WHAT:
        for k in KINDS:
            yield case([[(w, k)]], [])
            yield case([[(w, k)], []], [])
            yield case([[(w, k)], [('raise', 'classmethod')]], [])
            yield case([[(w, k)], []], [(1, 0, 'unmarked')])
            yield case([[(w, k)], [], []], [(1, 0, 'token')])
            yield case([[(w, k)], [], []], [(1, 0, 'raise')])
    for _ in range(1500 if tier == 'quick' else 30000):
        levels, ov, n = [], [], 0
        weights = ['raise'] * 6 + WHAT
        for k in range(rng.randrange(1, 4)):
            levels.append([(rng.choice(weights), rng.choice(KINDS)) for _ in range(rng.randrange(4))])
            for m in range(n):
                if rng.random() < .15:
                    ov.append((k, m, rng.choice(['unmarked', 'raise', 'token'])))
            n += len(levels[-1])
        yield case(levels, ov)
