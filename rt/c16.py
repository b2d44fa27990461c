"""C16: copies, pickles and exports."""
import array
import collections
import copy
import io
import pickle
from fractions import Fraction
from typing import List, Dict, Optional

from records import RecordBase, Factory, check, check_strict, Annotated, Tag, Clamp, CallValidation, Loose, parser
from .common import *
from . import reentry


class N(RecordBase):
    a: object
    b: object = 1
    c: object = Factory(list)
    d: object = None


class F(RecordBase, frozen=True):
    a: object
    b: object = 1
    c: object = Factory(list)
    d: object = None


class NSub(N):
    e: object = ()


class FSub(F, frozen=True):
    e: object = ()


class Thaw(F):
    e: object = ()


class Freeze(N, frozen=True):
    e: object = ()


class One(RecordBase):
    a: object


class OneF(RecordBase, frozen=True, unary_parse=True):
    a: object


class NoReq(RecordBase):
    a: object = 5
    b: object = Factory(dict)


class Checked(RecordBase, default_type_check=check):
    a: List[int]
    b: int = 3
    c: Optional[Dict[str, Annotated[int, Clamp(0, 10)]]] = None
    d: Annotated[object, check, Tag(1)] = 0


class Ordered(RecordBase, ordered=True, frozen=True):
    a: object
    b: object = 2


class Post(RecordBase):
    a: object
    b: object = 0
    log = []

    def post_new(self): self.log.append(1)


class OwnParser(RecordBase):
    a: object
    b: object = 0

    @parser
    @classmethod
    def from_str(cls, s: str): return cls(a=s.upper())


class Unhashable(RecordBase, frozen=True):
    a: object
    b: object = []


class Node(RecordBase):
    a: object = None
    b: object = None


CLASSES = dict(N=N, F=F, NSub=NSub, FSub=FSub, Thaw=Thaw, Freeze=Freeze, One=One, OneF=OneF, NoReq=NoReq, Checked=Checked, Ordered=Ordered,
               Post=Post, OwnParser=OwnParser, Unhashable=Unhashable)


class Alike:
    """equal to any of its kind, and identical to none"""
    def __eq__(self, o): return isinstance(o, Alike)
    def __hash__(self): return 3
    def __repr__(self): return 'Alike'


class Holder:
    def __init__(self, x): self.x = x
    def __eq__(self, o): return type(o) is Holder and o.x == self.x
    def __hash__(self): return 4
    def __repr__(self): return f'Holder({self.x})'


class Big(RecordBase):
    a: object = Alike()
    b: object = Holder([1])


CLASSES['Big'] = Big
VALUES = [lambda: 0, lambda: True, lambda: 1.0, lambda: 1, lambda: None, lambda: [], lambda: [1, [2]], lambda: {}, lambda: {'k': [1]}, lambda: 'x',
          lambda: (), lambda: ([],), lambda: {1, 2}, lambda: Alike(), lambda: Holder([1]), lambda: Fraction(1), lambda: collections.deque([1], 3),
          lambda: N(a=[1]), lambda: F(a=1), lambda: F(a=[1]), lambda: 5, lambda: {'a': 1}, lambda: bytearray(b'q'), lambda: '', lambda: b'',
          lambda: One(a=One(a=[])), lambda: NotImplemented, lambda: ..., lambda: int, lambda: array.array('i', [1])]
CHECKED = {'a': [lambda: [1, 2], lambda: [], lambda: [True]], 'b': [lambda: 3, lambda: True, lambda: 10 ** 9],
           'c': [lambda: None, lambda: {'x': 3}, lambda: {}], 'd': [lambda: 0, lambda: [], lambda: 0.0]}
ATOMIC = (int, float, str, bytes, type(None), bool, type, Fraction, type(NotImplemented), type(...), Alike)


def fields(r): return {k: getattr(r, k) for k in type(r)._fields}


def mutables(x, out):
    """the mutable objects within"""
    if isinstance(x, RecordBase):
        if not type(x).is_frozen():
            out[id(x)] = x
        for v in fields(x).values():
            mutables(v, out)
    elif isinstance(x, (list, set, dict, bytearray, collections.deque, array.array, Holder)):
        out[id(x)] = x
        for v in x.values() if isinstance(x, dict) else [x.x] if isinstance(x, Holder) else () if isinstance(x, (bytearray, array.array)) else x:
            mutables(v, out)
    elif isinstance(x, tuple):
        for v in x:
            mutables(v, out)
    return out


def make(c, given): return CLASSES[c](**given)


def equal_to(r, s, what):
    require(type(s) is type(r), '{} is a {}', what, type(s).__name__)
    require(s == r and r == s and not s != r, '{} is not equal: {} and {}', what, s, r)
    require(set(attrs(s)) - {'_hash'} == set(attrs(r)) - {'_hash'}, '{} has other attributes', what)
    for k in type(r)._fields:
        require(type(getattr(s, k)) is type(getattr(r, k)), '{}: {} is {} and not {}', what, k, getattr(s, k), getattr(r, k))
    if type(r).is_frozen():
        h = outcome(hash, r)
        g = outcome(hash, s)
        require(h.ok == g.ok and (not h.ok or h.value == g.value), '{}: hashes {} and {}', what, h, g)


def case(c, makers, hashed=False):
    desc = f'{c}({ {k: show(m()) for k, m in makers.items()} }){" hashed" if hashed else ""}'

    def fn():
        cls = CLASSES[c]
        r = cls(**{k: m() for k, m in makers.items()})
        if hashed:
            outcome(hash, r)
        before = fields(r)

        def unchanged():
            now = fields(r)
            require(all(now[k] is before[k] for k in before), 'the record changed')
        s = copy.copy(r)
        equal_to(r, s, 'a copy')
        require((s is r) == cls.is_frozen(), 'a copy of a {}frozen record is {}the record', '' if cls.is_frozen() else 'non-', '' if s is r else 'not ')
        for k in before:
            require(getattr(s, k) is before[k], 'a copy: {} is not the identical value', k)
        unchanged()
        s = copy.deepcopy(r)
        equal_to(r, s, 'a deep copy')
        require(s is not r, 'a deep copy is the record itself')
        shared = set(mutables(tuple(fields(s).values()), {})) & set(mutables(tuple(before.values()), {}))
        require(not shared, 'a deep copy shares mutable values')
        unchanged()
        for proto in range(2, pickle.HIGHEST_PROTOCOL + 1):
            s = pickle.loads(pickle.dumps(r, proto))
            equal_to(r, s, f'a pickle round trip (protocol {proto})')
            require(s is not r, 'unpickling gives the record itself')
        for args in ((), (2,), (pickle.HIGHEST_PROTOCOL,)):
            s = cls.from_pickle(r.to_pickle(*args))
            equal_to(r, s, 'to_pickle and from_pickle')
            f = io.BytesIO()
            require(r.to_pickle(*args, io=f) is None, 'to_pickle to a file returned something')
            f.seek(0)
            s = cls.from_pickle_io(f)
            equal_to(r, s, 'to_pickle to a file and from_pickle_io')
        unchanged()
        s = cls.from_mapping(r.to_dict())
        if c != 'Big' and not (c == 'Unhashable'):
            require(type(s) is cls and s == r, 'its dict export gives {}', s)
        s = cls.from_mapping(r.to_dict(include_defaults=True))
        equal_to(r, s, 'its full dict export')
        if required_of(cls):
            s = outcome(cls.parse, r.to_dict())
            require(s.ok and type(s.value) is cls and s.value == r, 'parsing its dict export {}', s)
        unchanged()
        if not cls.is_frozen():
            # later changes of either do not reach the other
            s = copy.copy(r)
            d = copy.deepcopy(r)
            for k in before:
                setattr(s, k, 'changed')
                setattr(d, k, 'changed')
            unchanged()
    return Case(desc, fn)


def sharing():
    x = [1]
    for cls in (N, F, Thaw, Freeze):
        rs = [cls(a=x, b=x), cls(a=x, b=N(a=x), d=F(a=x))]
        for memo in (None, {}):
            ts = copy.deepcopy(rs) if memo is None else [copy.deepcopy(r, memo) for r in rs]
            y = ts[0].a
            require(y is not x and y == x, 'the shared value is {}', y)
            require(ts[0].b is y and ts[1].a is y and ts[1].b.a is y and ts[1].d.a is y, 'values shared between records deep-copied together are not shared any more')
        r = cls(a=x)
        ts = copy.deepcopy([r, r, {'k': r}])
        require(ts[0] is ts[1] and ts[2]['k'] is ts[0] and ts[0] is not r, 'a record that occurs twice is not shared any more')
        # two deep copies are independent
        a, b = copy.deepcopy(r), copy.deepcopy(r)
        require(a.a is not b.a, 'two deep copies share a value')
        memo = {}
        a = copy.deepcopy(r, memo)
        require(memo and copy.deepcopy(x, memo) is a.a, 'the memo given is not used')
        a = r.__deepcopy__()
        require(a == r and a is not r and a.a is not x, '__deepcopy__ without a memo')
        rs2 = pickle.loads(pickle.dumps([rs[0], rs[1]]))
        require(rs2[0].a is rs2[1].a is rs2[0].b, 'values shared between records pickled together')


def factory():
    n = []
    K = make_class('K', {'a': object, 'b': D(object, Factory(lambda: n.append(1) or len(n)))})
    r = K(a=1)
    s, t = copy.copy(r), copy.deepcopy(r)
    require(r.b == s.b == t.b == 1, 'a copy made the default anew')
    r.b = 1
    require(copy.copy(r).b == 1, 'a copy made the default anew')


def after_change():
    """records changed after they were created"""
    r = N(a=1)
    r.b, r.c, r.d = 1.0, (), 0
    s = copy.copy(r)
    require(type(s.b) is float and s.c == () and s.d == 0, 'a copy {}', s)
    r.b = Holder(2)
    s = copy.copy(r)
    require(s.b is r.b, 'a copy {}', s)
    s = pickle.loads(pickle.dumps(r))
    require(s == r, 'a pickle {}', s)
    r = Thaw(a=1)
    r.e = [3]
    s = copy.copy(r)
    require(s is not r and s.e is r.e, 'a copy of a thawed record {}', s)


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    yield Case('sharing', sharing)
    yield Case('factories', factory)
    yield Case('changed records', after_change)

    def values(c, k):
        if c == 'Checked':
            return CHECKED[k]
        return VALUES
    for c, cls in CLASSES.items():
        req = [k for k in cls._fields if k in required_of(cls)]
        for k in cls._fields:
            for m in values(c, k):
                base = {q: values(c, q)[0] for q in req}
                yield case(c, {**base, k: m}, hashed=k == 'a')
    for _ in range(1500 if tier == 'quick' else 20000):
        c = rng.choice(list(CLASSES))
        cls = CLASSES[c]
        yield case(c, {k: rng.choice(values(c, k)) for k in cls._fields if k in required_of(cls) or rng.random() < .7}, rng.random() < .5)
