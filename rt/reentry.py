"""Records that hold records of their own class: every operation is under way several times at once, failures included."""
import collections
import copy
from typing import Deque, Dict, FrozenSet, List, Optional, Tuple, Union

from records import (Annotated, CallCoercion, CallValidation, RecordBase, check, parser)
from .common import *

HOLDERS = {
    'List': (lambda n: List[n], list),
    'Tuple with ...': (lambda n: Tuple[n, ...], tuple),
    'Deque': (lambda n: Deque[n], collections.deque),
    'FrozenSet': (lambda n: FrozenSet[n], frozenset),
    'Dict values': (lambda n: Dict[str, n], dict),
    'Tuple of three': (lambda n: Tuple[n, n, n], tuple),
}


class Bad(Exception):
    pass


def node_class(holder, around):
    """a class whose field kids holds records of the class; coercers make them of data, and give up on bad data"""
    wrap, make = HOLDERS[holder]

    def build(d):
        if isinstance(d, int):
            return cls(v=d, kids=hold([]))
        if isinstance(d, Data):
            try:
                return cls(v=d.v, kids=hold(d.kids))
            except Exception:
                if d.v == 13:
                    raise
                return cls(v=-1, kids=hold([]))
        raise Bad

    def hold(kids):
        kids = [kept() if k is KEPT else k for k in kids]
        if holder == 'Dict values':
            return {str(i): k for i, k in enumerate(kids)}
        if holder == 'Tuple of three':
            return tuple([*kids, 0, 0, 0][:3]) if kids else ()
        return make(kids)
    hint = Annotated['Node', check, CallCoercion(build)]
    if around == 'optional':
        hint = Optional[hint]
    elif around == 'union':
        hint = Union[hint, Annotated[str, check]]
    field = wrap(hint)
    field = Annotated[field, check]
    if holder == 'Tuple of three':
        field = Annotated[Union[Annotated[Tuple[()], check], field], check]

    def kept():
        if not made:
            made.append(cls(v=42, kids=hold([])))
        return made[0]
    made = []
    cls = make_class('Node', {'v': annotated(int, check), 'kids': field}, frozen=True, unary_parse=False, default_type_check=check)
    return cls, hold


KEPT = Token('a record made before')


class Data:
    def __init__(self, v, *kids): self.v, self.kids = v, kids
    def __repr__(self): return f'Data{(self.v, *self.kids)}'


def expected(d, three):
    """(v, kids) of the record made of data, or None"""
    if isinstance(d, int):
        return d, ()
    if d is KEPT:
        return 42, ()
    if isinstance(d, Data):
        kids = [expected(k, three) for k in d.kids]
        if three and kids:
            kids = [*kids, (0, ()), (0, ()), (0, ())][:3]
        if None in kids or not isinstance(d.v, int):
            return None if d.v == 13 else (-1, ())
        return d.v, tuple(kids)
    return None


def shape(r, holder):
    kids = r.kids
    if holder == 'Dict values':
        kids = kids.values()
    s = [shape(k, holder) for k in kids]
    return r.v, tuple(sorted(s) if holder in ('FrozenSet',) else s)


def settle(e, holder):
    """sets hold equal records once, in no order"""
    if e is None or holder != 'FrozenSet':
        return e
    return e[0], tuple(sorted({settle(k, holder) for k in e[1]}))


def trees(depth):
    yield 5
    yield Data(1)
    if not depth:
        yield Data('no int')
        yield 2.5
        return
    subs = list(trees(depth - 1))
    yield Data(2, *subs[:3])
    yield Data(3, subs[0], subs[-1])
    yield Data(4, *[s for s in subs if expected(s, False)][-3:])
    yield Data(6, *[s for s in subs if expected(s, False)][:3], 8, 9)
    yield Data(13, subs[-1])
    yield Data(7, Data(13, 'x'), 1)
    yield Data(7, 1, Data(13, 'x'))
    yield Data(9, Data(8, 1, 'x', 2), Data(2, 3, 4), 5)
    yield Data(9, 5, Data(2, 3, Data(1, 'x')), Data(2, 3, 4))
    yield 'text'
    yield Data(11, KEPT, Data(12, KEPT, KEPT), 5)
    yield Data(11, Data(12, KEPT, Data(14, KEPT)), Data(15, KEPT, 5), KEPT)
    yield Data(11, KEPT, Data(12, KEPT, 'x'), Data(16, KEPT))


def containers(holder, around):
    def fn():
        cls, hold = node_class(holder, around)
        three = holder == 'Tuple of three'
        for depth in range(4):
            for t in trees(depth):
                if not isinstance(t, Data) or three and len(t.kids) > 3:
                    continue
                want = expected(t, three)
                if any(isinstance(k, str) for k in walk(t)) and around == 'union':
                    continue
                before = list(t.kids)
                if t.v == 13 or not isinstance(t.v, int):
                    continue
                kids = hold(t.kids)
                o = outcome(lambda: cls(v=t.v, kids=kids))
                ok = all(expected(k, three) is not None for k in t.kids)
                require(o.ok == ok, '{} {}', t, o)
                if ok:
                    require(shape(o.value, holder) == settle(want, holder), '{} became {}', t, shape(o.value, holder))
                    again = cls(v=0, kids=o.value.kids)
                    require(again.kids is o.value.kids, 'the container {} did not stay', t)
                    mixed = [*(o.value.kids.values() if holder == 'Dict values' else o.value.kids)]
                    if mixed:
                        kept = cls(v=0, kids=hold([mixed[0], 77, *mixed[1:]][:3 if three else None]))
                        ks = list(kept.kids.values() if holder == 'Dict values' else kept.kids)
                        require(holder == 'FrozenSet' and any(k is mixed[0] for k in ks) or ks[0] is mixed[0], 'an element did not stay')
                require(list(t.kids) == before, 'the data changed')
    return Case(f'records in {holder} of records ({around})', fn)


def walk(t):
    yield t
    for k in getattr(t, 'kids', ()):
        yield from walk(k)


class Pair(RecordBase, ordered=True):
    """made of one list, or of text; parsing goes on within parsing"""
    l: object
    r: object = None

    @parser
    @classmethod
    def of_list(cls, v):
        if type(v) is not list:
            raise Bad
        return cls(l=part(v[0]), r=part(v[1]))

    @parser
    @classmethod
    def of_short(cls, v):
        if type(v) is not list or len(v) > 2 or v and v[0] == 'long':
            raise Bad
        return cls(l=[part(x) for x in v])

    @parser
    @classmethod
    def of_text(cls, v):
        if type(v) is not str:
            raise Bad
        return cls(l=v)


def part(v):
    """parses lists; what cannot be parsed stands for itself"""
    if type(v) is not list:
        return v
    try:
        return Pair.parse(v)
    except TypeError as e:
        return type(e).__name__


def part_expected(v):
    if type(v) is not list:
        return v
    r = parse_expected(v)
    return r if r in ('TypeError', 'ParseFailure') else r


def parse_expected(v):
    results = []
    if type(v) is list:
        if len(v) >= 2:
            results.append((part_expected(v[0]), part_expected(v[1])))
        if len(v) <= 2 and not (v and v[0] == 'long'):
            results.append(([part_expected(x) for x in v], None))
    elif type(v) is str:
        results.append((v, None))
    if len(results) == 1:
        return results[0]
    return 'TypeError' if results else 'ParseFailure'


def pair_shape(p):
    if isinstance(p, Pair):
        return pair_shape(p.l), pair_shape(p.r)
    return [pair_shape(x) for x in p] if type(p) is list else p


def parsing():
    for v in ['a', [], [1], [1, 2], ['long', 2], ['long', 2, 3], [1, 2, 3], [[1], 2, 3], ['long', [1, 2, 3]], [[1, 2], [1], 3],
              [[], [], []], [[[[5]]]], [[['long', 'x'], [1, 2]]], ['long', ['long', ['long', [0, [1]]]]], [['long', []]], 'b', [['long'], 1, 1],
              ['long'], [['long'], ['long', 1], 0], [[['long']], 1, 1]]:
        want = parse_expected(v)
        for fn in (Pair.parse, lambda x: Pair.parse(x)):
            o = outcome(fn, v)
            if isinstance(want, str):
                require(not o.ok and type(o.exc).__name__ == want, '{}: {} and not {}', v, o, want)
            else:
                require(o.ok and pair_shape(o.value) == want, '{}: {} and not {}', v, o, want)


def processing():
    """coercers, validators, default factories and hooks that make records of the class"""
    from records import Factory
    log = []

    def co(v):
        log.append(('co', v))
        if isinstance(v, str):
            inner = cls(x=v[1:] or 0) if v != 'bad' else cls(x=Bad)
            return 1 + inner.x
        raise Bad

    def val(v):
        log.append(('val', v))
        if v == 2:
            cls(x=7)
        return v * 10

    def later(v):
        log.append(('later', v))
        return v + 1

    def default():
        defaults.append(1)
        if len(defaults) % 3:
            n = len(log)
            y = cls(x=0).y
            del log[n:]
            return y
        return 5
    defaults = []
    cls = make_class('R', {'x': annotated(int, check, CallCoercion(co), CallValidation(val), CallValidation(later)),
                           'y': D(object, Factory(default))}, unary_parse=False)

    def expect(v, out):
        if type(v) is not int:
            out.append(('co', v))
            if not isinstance(v, str) or v == 'bad':
                if v == 'bad':
                    out.append(('co', Bad))
                return None
            inner = expect(v[1:] or 0, out)
            if inner is None:
                return None
            v = 1 + inner
        out.append(('val', v))
        if v == 2:
            expect(7, out)
        out.append(('later', v * 10))
        return v * 10 + 1
    for v in (0, 2, 1, 'a', 'aa', 'aaaa', 'bad', 'abad', 'a', None, 'aabad', 3):
        del log[:]
        o = outcome(lambda: cls(x=v))
        want = []
        r = expect(v, want)
        require(o.ok == (r is not None) and (not o.ok or o.value.x == r), '{} {} and not {}', v, o, r)
        require(log == want, '{} was processed in {} and not {}', v, log, want)
        require(not o.ok or o.value.y == 5, 'the default is {}', o.value.y if o.ok else None)

    made = []

    class H(RecordBase):
        n: int
        sub: object = None

        def post_new(self):
            made.append(self.n)
            if self.n > 0:
                self.sub = H(n=self.n - 1)
            if self.n == 2:
                return H(n=-2, sub=self)
            if self.n == -5:
                raise Bad
            if self.n == -3:
                self.sub = outcome(lambda: H(n=-5)).ok
    h = H(n=3)
    require(made == [3, 2, 1, 0, -2] and h.n == 3 and h.sub.n == -2 and h.sub.sub.n == 2 and h.sub.sub.sub.sub.n == 0, 'hooks {}', made)
    require(H(n=-3).sub is False, 'a hook that fails within a hook')


def operations():
    """hash, comparison, export and copies of records of records of the class"""
    F = make_class('F', {'a': object, 'b': D(object, None)}, frozen=True, ordered=True, unary_parse=False)
    N = make_class('N', {'a': object, 'b': D(object, None)}, ordered=True, unary_parse=False)
    for cls in (F, N):
        def make(d): return cls(a=make(d[0]), b=make(d[1])) if isinstance(d, tuple) else d
        datas = [(1, 2), ((1, 2), 2), ((1, 2), 3), ((1, 3), 2), (((0, 0), 1), (1, 0)), (((0, 0), 1), (1, 1)), (((0, 1), 1), (1, 0)),
                 (1, (0, 0)), (1, (0, 1)), ((1, (2, 3)), (4, (5, 6))), ((1, (2, 3)), (4, (5, 7)))]
        for x in datas:
            for y in datas:
                p, q = make(x), make(y)
                require((p == q) == (x == y) and (p != q) == (x != y), '{} == {}', x, y)
                want = outcome(lambda: x < y)
                got = outcome(lambda: p < q)
                require(got.ok == want.ok and got.value == want.value, '{} < {}: {}', x, y, got)
                got = outcome(lambda: p >= q)
                require(got.ok == want.ok and (not got.ok or got.value != want.value), '{} >= {}: {}', x, y, got)
                if cls is F and x == y:
                    hash(q.a)
                    require(hash(p) == hash(q), 'hashes of {}', x)
            p = make(x)
            for c in (copy.deepcopy(p), copy.copy(p)):
                require(c == p and type(c) is cls, 'a copy of {} is {}', x, c)
            d = p.to_dict(include_defaults=True)
            require(list(d) == ['a', 'b'] and d['a'] is p.a and d['b'] is p.b, 'the export of {} is {}', x, d)

    class Lazy(RecordBase):
        a: int
        b: int = 0
        c: int = 0

    class View:
        """its attributes export records as they are read"""
        def __getattr__(self, n):
            if n in 'abc':
                return dict(Lazy(a=1, b=2).to_dict(), **{'from': n})
            raise AttributeError(n)
    d = Lazy.to_dict(View())
    require(d == {n: {'a': 1, 'b': 2, 'from': n} for n in 'abc'}, 'an export within an export {}', d)
    r = Lazy.from_instance(View())
    require((r.a['from'], r.b['from'], r.c['from']) == tuple('abc'), 'an export within an export {}', r)


def container_cases(holders, arounds):
    for h in holders:
        for around in arounds:
            yield containers(h, around)
