"""C09: frozen records."""
import copy
import itertools
import os
import pickle
import subprocess
import sys
from fractions import Fraction

from records import RecordBase, Factory
from .common import *
from . import reentry


class F(RecordBase, frozen=True):
    x: object
    y: object = 1
    z: object = Factory(lambda: ())


class FSub(F, frozen=True):
    w: object = 'w'


class NSub(F):
    """not frozen"""
    v: object = 0


class FF(NSub, frozen=True):
    """frozen again"""
    u: object = None


class N(RecordBase):
    n: object


class FofN(N, frozen=True):
    m: object = 5


class Mixed(N, F, frozen=True):
    o: object = 0


class MixedN(F, N):
    o: object = 0


class Overrides(RecordBase, frozen=True):
    x: object
    def __setattr__(self, a, v): object.__setattr__(self, a, v)
    def __hash__(self): return 7


class Plain:
    """an ordinary base class"""
    cls_attr = 1


class WithPlain(Plain, RecordBase, frozen=True):
    x: object


class Named(RecordBase, frozen=True):
    _hash2: object = 0
    _hash_: object = 0
    _hashes: object = 0
    hash: object = 0
    _has: object = 0
    h: object = 0
    _: object = 0
    _a: object = 0
    __d__: object = 0
    value: object = 0
    name: object = 0
    é: object = 0


FROZEN = {Named: ['_hash2', '_a'], F: 'x', FSub: 'x', FF: 'x', FofN: 'n', Mixed: 'xn', Overrides: 'x', WithPlain: 'x'}
LIVE = {NSub: 'x', N: 'n', MixedN: 'xn'}
VALUES = [0, 1, True, 1.0, Fraction(1), 'a', '', None, (), (1, 2), frozenset([1]), -1, 2 ** 61 - 2, b'', 0.0, False, -0.0, 1 + 0j, F(x=1), F(x=True)]


def immutable(cls, warm):
    def fn():
        r = cls(**{k: Token(k) for k in FROZEN[cls]})
        if warm:
            hash(r)
        h = hash(r) if warm else None
        before = dict(vars(r))
        names = list(cls._fields) + ['new', 'to_dict', '__dict__', '_fields', '__class__', 'post_new', '_new', 'cls_attr', '_frozen', '_hash2', '_hash_', 'hash', '_has', '',
                                     '_', 'a', '_HASH', '_hash ', '__hash', '__slots__', '__weakref__', 'é']
        for a in names:
            for op, f in (('setting', lambda: setattr(r, a, 5)), ('deleting', lambda: delattr(r, a)), ('setting None on', lambda: setattr(r, a, None)),
                          ('setting the same', lambda: setattr(r, a, getattr(r, a, None)))):
                o = outcome(f)
                require(isinstance(o.exc, TypeError), '{} {} of {} {}', op, a, cls.__name__, o)
                require(list(vars(r).items()) == list(before.items()) and all(vars(r)[k] is before[k] for k in before) and type(r) is cls,
                        '{} {} changed the record', op, a)

        def aug():
            r.x += 1 if 'x' in vars(r) else r.missing
        require('x' not in vars(r) or isinstance(outcome(aug).exc, TypeError), 'augmented assignment')
        require(h is None or hash(r) == h, 'the hash changed')
    return Case(f'{cls.__name__} (hash {"" if warm else "not "}computed): setting and deleting', fn)


def mutable(cls):
    def fn():
        r = cls(**{k: Token(k) for k in LIVE[cls]})
        for a in [*cls._fields, 'new']:
            t = Token('t')
            setattr(r, a, t)
            require(getattr(r, a) is t and vars(r)[a] is t, '{} is not set', a)
        for a in [*cls._fields, 'new']:
            delattr(r, a)
            require(a not in vars(r), '{} is not deleted', a)
        require(isinstance(outcome(hash, r).exc, TypeError), 'hash {}', outcome(hash, r))
        require(isinstance(outcome(lambda: {r}).exc, TypeError), 'hashed')
    return Case(f'{cls.__name__} is mutable and unhashable', fn)


def equal_hashes(cls, keys, vs, ws, order):
    desc = f'{cls.__name__} with {keys} = {vs} and {ws}, hash {order}'

    def fn():
        a, b = cls(**dict(zip(keys, vs))), cls(**dict(zip(keys, ws)))
        if order == 'first':
            h = hash(a), hash(a), hash(a)
            require(h[0] == h[1] == h[2], 'the hash changed')
            require(type(h[0]) is int, 'hash {}', h)
        if all(getattr(a, k) == getattr(b, k) for k in cls._fields):
            require(a == b, 'equal fields but unequal records')
            require(hash(a) == hash(b), 'equal records have hashes {} and {}', hash(a), hash(b))
            require(len({a, b}) == 1 and {a: 1}[b] == 1, 'a set holds both')
        else:
            require(len({a, b}) == 2, 'a set holds one of them')
        h = hash(a)
        a == b, repr(a), a.to_dict(), copy.copy(a)
        require(hash(a) == h, 'the hash changed')
        for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
            require(hash(pickle.loads(pickle.dumps(a, p))) == h, 'the hash changed by pickling, protocol {}', p)
        require(hash(copy.deepcopy(a)) == h and hash(cls.from_mapping(a.to_dict(include_defaults=True))) == h, 'a copy has another hash')
    return Case(desc, fn)


def depends(cls):
    def fn():
        for k in cls._fields:
            base = {f: 0 for f in cls._fields}
            hs = {hash(cls(**{**base, k: v})) for v in range(1, 20)}
            require(len(hs) > 1, 'the hash does not depend on {}', k)
        r = cls(**{k: [] for k in FROZEN[cls]})
        for _ in range(2):
            require(isinstance(outcome(hash, r).exc, TypeError), 'hash of an unhashable value {}', outcome(hash, r))
    return Case(f'{cls.__name__}: the hash is computed from the values', fn)


class Count:
    """its hash is whatever it is told"""
    def __init__(self, h): self.h = h
    def __hash__(self): return self.h
    def __eq__(self, o): return isinstance(o, Count)


def stable():
    def fn():
        for h in (-1, 0, 5):
            c = Count(h)
            r = F(x=c)
            first = hash(r)
            c.h = 99
            require(hash(r) == first, 'the hash changed from {} to {}', first, hash(r))
    return Case('a value whose hash changes', fn)


CHILD = '''
import sys, pickle
sys.path[:0] = {path!r}
from rt.c09 import *
import rt.c09
step, p = sys.argv[1], int(sys.argv[2])
make = lambda: [F(x='abc', y='d'), FSub(x='q'), FF(x=('s',), u='t'), Mixed(x='x', n='n'), F(x=F(x='in')), WithPlain(x='w')]
if step == 'dump':
    rs = make()
    for r in rs[:-1]: hash(r)
    [r == s for r in rs for s in rs]
    sys.stdout.buffer.write(pickle.dumps(rs, p))
else:
    rs = pickle.load(sys.stdin.buffer)
    for r, s in zip(rs, make()):
        assert r == s, (r, s)
        assert hash(r) == hash(s), ('hash', r)
        assert hash(r) == hash(s), ('hash', r)
        assert len({{r, s}}) == 1
    assert len(rs) == 6
'''


def across(p):
    def fn():
        code = CHILD.format(path=sys.path[:3])
        env = dict(os.environ, PYTHONHASHSEED='1')
        a = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code, 'dump', str(p)], env=env, capture_output=True)
        require(a.returncode == 0, 'pickling: {}', a.stderr.decode()[-500:])
        b = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code, 'load', str(p)], env=dict(env, PYTHONHASHSEED='2'), input=a.stdout,
                           capture_output=True)
        require(b.returncode == 0, 'in the other process: {}', b.stderr.decode()[-700:])
    return Case(f'pickled (protocol {p}) into a process with other hashes', fn)


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    for cls in FROZEN:
        yield immutable(cls, False)
        yield immutable(cls, True)
        if cls is not Overrides:
            yield depends(cls)
    for cls in LIVE:
        yield mutable(cls)
    yield stable()
    for p in (2, 4) if tier == 'quick' else range(2, 6):
        yield across(p)
    for v, w in itertools.product(VALUES, VALUES):
        yield equal_hashes(F, 'x', [v], [w], 'later')
        yield equal_hashes(F, 'xy', [v, w], [w, v], 'first')
        yield equal_hashes(F, 'xz', [0, v], [0, w], 'later')
    for _ in range(500 if tier == 'quick' else 20000):
        cls = rng.choice(list(FROZEN))
        req = FROZEN[cls]
        ks = list(req) + [k for k in cls._fields if k not in req and rng.random() < .7]
        vs = [rng.choice(VALUES) for _ in ks]
        ws = [v if rng.random() < .6 else rng.choice(VALUES) for v in vs]
        yield equal_hashes(cls, ks, vs, ws, rng.choice(('first', 'later')))
