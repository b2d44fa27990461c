"""C18: every declared constraint is enforced, or the definition raises."""
import collections
import itertools
import typing
from typing import (Any, Callable, Deque, DefaultDict, Dict, Final, FrozenSet, Generic, Iterable, List, Literal, Mapping, NewType, Optional,
                    Sequence, Set, Tuple, Type, TypeVar, Union, Collection, Counter, OrderedDict, Awaitable)

from records import (RecordBase, Annotated, check, check_strict, hollow, CallValidation, CallCoercion, Tag, Clamp, Loose, Falsish, Within, Truth,
                     ComposeCoercer, FromInteger, LooseUnpack)
from records.fillers.validators import ValidationToken, GlobalValidationToken
from records.fillers.coercers import GlobalCoercionToken
from .common import *

LOG = []


class A:
    pass


class B(A):
    pass


class MyInt(int):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class MyTuple(tuple):
    pass


class MySet(set):
    pass


class Probe:
    """a validator or coercer that is recorded"""
    def __init__(self, name, fn): self.name, self.fn = name, fn

    def __call__(self, v):
        LOG.append((self.name, v))
        return self.fn(v)


class VClass(GlobalValidationToken):
    """given as a class"""
    def __call__(self, *_): return self.inner

    def inner(self, v):
        LOG.append(('VClass', v))
        return v


def never(*a, **kw): raise AssertionError('an annotation was called')


class Inert:
    def __call__(self, *a): never()
    def __repr__(self): return 'Inert'


class InertClass:
    def __init__(self, *a): never()


class T:
    """a token: what it is to the model, and what is put into the hint"""
    def __init__(self, kind, what, obj, show): self.kind, self.what, self.obj, self.show = kind, what, obj, show
    def __repr__(self): return self.show


STYLES = {'check': check, 'strict': check_strict, 'hollow': hollow}


def style(s): return T('style', s, STYLES[s], s)


def val(name):
    return T('val', lambda v: (name, v), CallValidation(Probe(name, lambda v: v)), name)


def vraise(name, bad):
    """a validator that rejects a value"""
    def f(v):
        if type(v) is type(bad) and v == bad:
            raise ValueError(name)
        return v
    return T('vraise', (name, f), CallValidation(Probe(name, f)), name)


def coe(name, good):
    def f(v):
        return good
    return T('coe', (name, f), CallCoercion(Probe(name, f)), name)


def vclass(): return T('val', lambda v: ('VClass', v), VClass, 'VClass')


def inert(x): return T('inert', None, x, f'<{show(x)[:20]}>')


class Reject(Exception):
    pass


class Leaf:
    def __init__(self, hint, exact, cls, good, bads, name): self.base, self.exact, self.cls, self.good, self.bads, self.name = hint, exact, cls, good, bads, name
    kids = ()


class Node:
    """kind: leaf, seq, map, tuple, vartuple, union, opaque"""
    def __init__(self, kind, shape, kids, tokens, via=None):
        self.kind, self.shape, self.kids, self.tokens, self.via, self.pre = kind, shape, list(kids), list(tokens), via, []

    def __repr__(self):
        n = self.shape.name if self.kind == 'leaf' else self.shape[2]
        s = n + (f'[{", ".join(map(repr, self.kids))}]' if self.kids else '')
        if self.via:
            s = f'NewType({s})'
        if self.pre:
            s += f' <pre_bind {self.pre}>'
        return f'Annotated[{s}, {", ".join(map(repr, self.tokens))}]' if self.tokens else s

    def hint(self):
        if self.kind == 'leaf':
            h = self.shape.base
        else:
            ks = tuple(k.hint() for k in self.kids)
            h = self.shape[0](ks)
        inner, outer = self.tokens, []
        if self.via:
            cut = self.via - 1
            inner, outer = self.tokens[:cut], self.tokens[cut:]
        if inner:
            h = Annotated[(h, *(t.obj for t in inner))]
        if self.via:
            h = NewType('NT', h)
        if outer:
            h = Annotated[(h, *(t.obj for t in outer))]
        return h

    def toks(self, extra=()): return self.pre + self.tokens + list(extra)


SEQS = {'List': (lambda k: List[k[0]], list, MyList), 'list': (lambda k: list[k[0]], list, MyList), 'Sequence': (lambda k: Sequence[k[0]], None, list),
        'Deque': (lambda k: Deque[k[0]], collections.deque, None), 'tuple': (lambda k: Tuple[k[0], ...], tuple, MyTuple)}


def bind(n, default, extra=()):
    """the model of a bound filler, or Reject"""
    if n.kind == 'union':
        return ('union', [bind(k, default, list(extra) + n.tokens + n.pre) for k in n.kids])
    toks = n.pre + list(n.up) + list(n.tokens) if hasattr(n, 'up') else n.pre + list(extra) + n.tokens
    # tokens of an enclosing union are applied before the hint's own
    st = default
    for t in toks:
        if t.kind == 'style':
            st = t.what
    vals = [t for t in toks if t.kind in ('val', 'vraise')]
    coes = [t for t in toks if t.kind == 'coe']
    if st == 'hollow' and coes:
        raise Reject
    kids = [bind(k, default) for k in n.kids]
    busy = any(not passthrough(k) for k in kids)
    if st == 'strict' and n.kind != 'leaf' and n.shape[1] is None:
        raise Reject
    if busy and (st == 'hollow' or n.kind == 'opaque'):
        raise Reject
    return (n, st, vals, coes, kids)


def is_hollow(b): return all(map(is_hollow, b[1])) if b[0] == 'union' else b[1] == 'hollow'


def passthrough(b):
    if b[0] == 'union':
        return all(map(passthrough, b[1]))
    return b[1] == 'hollow' and not b[2]


def accept(b, v):
    n, st = b[0], b[1]
    if n.kind == 'leaf':
        if n.shape.cls is None:
            exact = inexact = v is None
        else:
            exact, inexact = type(v) is n.shape.cls, isinstance(v, n.shape.cls)
    else:
        c = n.shape[1]
        exact, inexact = (type(v) is c, isinstance(v, c)) if c else (False, isinstance(v, n.shape[3]))
    return 0 if exact else 1 if inexact and st == 'check' else None


def fill(b, v, log):
    """(value, kind of match), or Reject"""
    if b[0] == 'union':
        if passthrough(b):
            return v, 3
        best = []
        for m in b[1]:
            try:
                best.append(fill(m, v, log))
            except Reject:
                pass
        if not best:
            raise Reject
        k = min(x[1] for x in best)
        rs = [x[0] for x in best if x[1] == k]
        if any(r is not rs[0] for r in rs):
            raise Reject
        return rs[0], k
    n, st, vals, coes, kids = b
    kind = 3
    if st != 'hollow':
        kind = accept(b, v)
        if kind is None:
            for c in coes:
                log.append((c.what[0], v))
                w = c.what[1](v)
                if accept(b, w) is not None:
                    v = w
                    break
            else:
                raise Reject
            kind = 2
    for t in vals:
        if t.kind == 'val':
            log.append(t.what(v))
        else:
            log.append((t.what[0], v))
            try:
                v = t.what[1](v)
            except ValueError:
                raise Reject
    if n.kind in ('seq', 'vartuple', 'set'):
        if any(not passthrough(k) for k in kids):
            new = [call(kids[0], e, log) for e in v]
            if any(x is not y for x, y in zip(v, new)):
                if isinstance(v, str):
                    if not all(isinstance(x, str) for x in new):
                        raise Reject  # no string holds them
                    new = ''.join(new)
                v = type(v)(new)
    elif n.kind == 'tuple':
        if st != 'hollow' and len(v) != len(kids):
            raise Reject
        if any(not passthrough(k) for k in kids):
            new = [call(k, e, log) for k, e in zip(kids, v)]
            if any(x is not y for x, y in zip(v, new)):
                v = type(v)(new)
    elif n.kind == 'map':
        if any(not passthrough(k) for k in kids):
            new = [(call(kids[0], k, log), call(kids[1], x, log)) for k, x in v.items()]
            if any(a is not c or b_ is not d for (a, b_), (c, d) in zip(v.items(), new)):
                v = type(v)(new) if not isinstance(v, collections.defaultdict) else type(v)(v.default_factory, new)
    return v, kind


def call(b, v, log):
    if passthrough(b):
        return v
    return fill(b, v, log)[0]


INT = Leaf(int, True, int, [5, 0], ['x', MyInt(7), True, None], 'int')
STR = Leaf(str, True, str, ['s', ''], [5, None], 'str')
CLS = Leaf(A, True, A, [A()], [B(), 5], 'A')
OBJ = Leaf(object, True, object, [5], ['x', None], 'object')
NON = Leaf(None, True, None, [None], [5, 'x'], 'None')
ANY = Leaf(Any, True, object, ['q'], [5], 'Any')
LEAVES = [INT, STR, CLS, OBJ, NON, ANY]
CONT = [('seq', (lambda k: List[k[0]], list, 'List', list), 1), ('seq', (lambda k: list[k[0]], list, 'list', list), 1),
        ('seq', (lambda k: Sequence[k[0]], None, 'Sequence', collections.abc.Sequence), 1),
        ('seq', (lambda k: Deque[k[0]], collections.deque, 'Deque', collections.deque), 1),
        ('vartuple', (lambda k: Tuple[k[0], ...], tuple, 'vartuple', tuple), 1), ('tuple', (lambda k: Tuple[k[0], k[1]], tuple, 'tuple', tuple), 2),
        ('tuple', (lambda k: tuple[k[0]], tuple, 'tuple1', tuple), 1),
        ('map', (lambda k: Dict[k[0], k[1]], dict, 'Dict', dict), 2),
        ('map', (lambda k: Mapping[k[0], k[1]], None, 'Mapping', collections.abc.Mapping), 2),
        ('map', (lambda k: DefaultDict[k[0], k[1]], collections.defaultdict, 'DefaultDict', collections.defaultdict), 2),
        ('set', (lambda k: Set[k[0]], set, 'Set', set), 1),
        ('opaque', (lambda k: Iterable[k[0]], None, 'Iterable', collections.abc.Iterable), 1),
        ('opaque', (lambda k: Collection[k[0]], None, 'Collection', collections.abc.Collection), 1),
        ('union', (lambda k: Optional[k[0]], None, 'Optional', None), 1), ('union', (lambda k: Union[k[0], k[1]], None, 'Union', None), 2)]


def good(n, rng):
    if n.kind == 'leaf':
        return rng.choice(n.shape.good)
    if n.kind == 'union':
        return good(rng.choice(n.kids), rng)
    if n.kind in ('tuple',):
        return tuple(good(k, rng) for k in n.kids)
    ln = rng.choice((0, 1, 2, 3))
    if n.kind == 'map':
        d = {}
        for _ in range(ln):
            k = good(n.kids[0], rng)
            d[k if hashable(k) else 'k'] = good(n.kids[1], rng)
        return collections.defaultdict(list, d) if n.shape[2] == 'DefaultDict' else d
    xs = [good(n.kids[0], rng) for _ in range(ln)]
    if n.kind == 'vartuple':
        return tuple(xs)
    if n.kind == 'set':
        return {x for x in xs if hashable(x)}
    return collections.deque(xs) if n.shape[2] == 'Deque' else xs


def hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def bad(n, rng):
    """a value that is wrong somewhere"""
    if n.kind == 'leaf':
        return rng.choice(n.shape.bads)
    if n.kind == 'union':
        return bad(rng.choice(n.kids), rng)
    if rng.random() < .3:
        return rng.choice([5, 'xy', MyList([5]), MyDict(a=1), MyTuple((5, 5)), None, [5], (5,), {5: 5}, {5}])
    if n.kind == 'tuple':
        if rng.random() < .2:
            return tuple(good(k, rng) for k in n.kids) + (5,)
        j = rng.randrange(len(n.kids))
        return tuple(bad(k, rng) if i == j else good(k, rng) for i, k in enumerate(n.kids))
    if n.kind == 'map':
        d = good(n, rng)
        k = bad(n.kids[0], rng) if rng.random() < .5 else good(n.kids[0], rng)
        if hashable(k):
            d[k] = bad(n.kids[1], rng) if rng.random() < .5 else good(n.kids[1], rng)
        return d
    xs = list(good(n, rng))
    b = bad(n.kids[0], rng)
    xs.insert(rng.randrange(len(xs) + 1), b)
    if n.kind == 'vartuple':
        return tuple(xs)
    if n.kind == 'set':
        return {x for x in xs if hashable(x)}
    return collections.deque(xs) if n.shape[2] == 'Deque' else xs


def walk(n, path=()):
    yield path, n
    for i, k in enumerate(n.kids):
        yield from walk(k, path + (i,))


counter = itertools.count()


def random_node(rng, depth, p_tok):
    if depth == 0 or rng.random() < .25:
        n = Node('leaf', rng.choice(LEAVES), (), ())
    else:
        kind, shape, k = rng.choice(CONT)
        kids = [random_node(rng, depth - 1, p_tok) for _ in range(k)]
        if kind == 'union':
            if k == 1:
                kids.append(Node('leaf', NON, (), ()))
            # typing flattens nested unions and merges equal members
            if any(x.kind == 'union' or x.kind == 'leaf' and x.shape is NON for x in kids[:k]) or k == 2 and repr(kids[0]) == repr(kids[1]):
                return random_node(rng, depth, p_tok)
        if kind == 'map':
            kids[0] = Node('leaf', rng.choice([INT, STR, OBJ]), (), ())
        n = Node(kind, shape, kids, ())
        for x in n.kids[:1] if kind == 'map' else ():
            x.tokens = random_tokens(rng, x, p_tok)
    n.tokens = random_tokens(rng, n, p_tok)
    if rng.random() < .15:
        n.via = 1 + rng.randrange(len(n.tokens) + 1)
        if n.kind == 'union':
            n.via = None
    return n


def random_tokens(rng, n, p_tok):
    out = []
    while rng.random() < p_tok and len(out) < 4:
        r = rng.random()
        if r < .5:
            out.append(style(rng.choice(('check', 'check', 'strict', 'strict', 'hollow'))))
        elif r < .65:
            out.append(val(f'v{next(counter)}'))
        elif r < .7:
            out.append(vclass())
        elif r < .85 and n.kind != 'union':
            g = rng.choice(n.shape.good + n.shape.bads) if n.kind == 'leaf' else good(n, rng)
            out.append(coe(f'c{next(counter)}', g))
        else:
            out.append(inert(rng.choice(['doc', never, Inert(), InertClass, Tag(3), 5, None, int, Inert, {'a': 1}, lambda *a: never()])))
    return out


def push_unions(n, up=()):
    """tokens of a union are applied to its members after ... the model applies them in the order of the code's documentation: pre-bind tokens,
    tokens of the union, own tokens"""
    return n


def freeze(log): return [(k, type(v), v if not isinstance(v, list) else list(v)) for k, v in log]


def case(n, default, values, frozen, final):
    desc = f'class default {default}; field x: {"Final of " if final else ""}{n!r}; values {show(values)}'

    def fn():
        for forget in typing._cleanups:
            forget()  # or else Union[A, B] within a hint may come back as an equal Union[B, A] seen before
        h = n.hint()
        if final:
            toks = []
            h = Final[h] if final == 1 else Annotated[Final[h], 'outside']
        pre = [(p, t) for p, m in walk(n) for t in m.pre]

        def pre_bind(cls):
            for p, t in pre:
                key = p[0] if p else None
                if t.kind == 'coe':
                    cls.x.add_coercer(t.obj.func, sub_key=key) if key is not None else cls.x.add_coercer(t.obj.func)
                else:
                    cls.x.add_validator(t.obj.func, sub_key=key) if key is not None else cls.x.add_validator(t.obj.func)
        body = {'pre_bind': classmethod(pre_bind)} if pre else {}
        try:
            b = bind(n, default)
        except Reject:
            b = None
        del LOG[:]
        made = outcome(lambda: make_class('R', {'x': h, 'y': D(annotated(object, hollow), 0)}, body=body, frozen=frozen, default_type_check=STYLES[default]))
        require(not LOG, 'a token ran while the class was defined')
        if b is None:
            require(not made.ok, 'the definition is accepted, and its constraints cannot be enforced')
            return
        require(made.ok, 'the definition {}', made)
        cls = made.value
        tags = {t.obj for t in n.tokens if isinstance(t.obj, Tag)}
        require(cls._fields['x'].tags == tags and not cls._fields['y'].tags, 'the tags are {}', cls._fields['x'].tags)

        def run():
            out = []
            for v in values:
                log = []
                try:
                    want = Outcome(value=call(b, v, log))
                except Reject:
                    want = Outcome(exc=Reject())
                except Exception as e:  # this value makes the containers themselves fail
                    want = None
                del LOG[:]
                got = outcome(lambda: cls(x=v).x)
                if want is None:
                    continue
                require(got.ok == want.ok, 'x = {}: {}, expected {}', show(v), got, want)
                if got.ok:
                    require(type(got.value) is type(want.value) and got.value == want.value and (got.value is v) == (want.value is v),
                            'x = {} gives {}, expected {}', show(v), got, want)
                require(freeze(LOG) == freeze(log), 'x = {}: the tokens ran as {} and not as {}', show(v), LOG, log)
                del LOG[:]
                require(cls(x=values[0], y=v).y is v if outcome(lambda: cls(x=values[0])).ok else True, 'another field')
        run()
        # no token can be added any more
        f = cls._fields['x'].filler
        for key in (None, 0, 1):
            sub = outcome(f.sub_filler, key)
            if not sub.ok:
                continue
            for t in (check, check_strict, hollow, CallValidation(never), CallCoercion(never)):
                require(not outcome(sub.value.apply, t).ok, 'a token was added after the definition (sub filler {})', key)
        require(not outcome(cls._fields['x'].add_validator, never).ok, 'a validator was added after the definition')
        require(not outcome(cls._fields['x'].add_coercer, never).ok, 'a coercer was added after the definition')
        require(not outcome(cls._fields['x'].add_assert_validator, never).ok, 'an assertion was added after the definition')
        run()
    return Case(desc, fn)


X = TypeVar('X')


class Box(Generic[X]):
    pass


def dropped():
    """hints whose arguments are not filled"""
    I = Annotated[int, check]
    V = Annotated[int, CallValidation(never)]
    for inner in (I, V, List[I], Annotated[int, 'doc', check_strict], Annotated[int, Truth], NewType('N', I), Optional[V], Annotated[int, check, Loose],
                  Annotated[int, check, Loose.constrain(str)]):
        for mk in (lambda i: OrderedDict[str, i], lambda i: collections.OrderedDict[str, i], lambda i: Counter[i], lambda i: Box[i], lambda i: Box[List[i]],
                   lambda i: Callable[[i], str], lambda i: Callable[..., i], lambda i: Type[i], lambda i: Awaitable[i], lambda i: Iterable[i],
                   lambda i: Iterable[List[i]], lambda i: type[i], lambda i: List[Box[i]], lambda i: Optional[Box[i]], lambda i: list[i] | None,
                   lambda i: collections.abc.KeysView[i], lambda i: Tuple[int, Box[i]], lambda i: Dict[str, Callable[[i], int]],
                   lambda i: Collection[i]):
            got = outcome(lambda: make_class('R', {'x': mk(inner)}))
            require(not got.ok, 'tokens are dropped: {}', mk(inner))
    for plain in (Box[int], Callable[[int], str], OrderedDict[str, int], Type[int], Box[Annotated[int, 'doc']], Iterable[int], Box[Annotated[int, hollow]],
                  Iterable[Annotated[int, Tag(1)]], Callable[[Annotated[int, never]], int]):
        got = outcome(lambda: make_class('R', {'x': plain}))
        require(got.ok, 'the definition with {} {}', plain, got)
        require(got.value(x=never).x is never, 'hollow')
    for h in (Box[int], 5, 'undefined_name', X):
        got = outcome(lambda: make_class('R', {'x': h}, default_type_check=check))
        require(not got.ok, 'a check cannot be made: {}', h)
        for t in (check, CallValidation(never), hollow, Truth):
            if not isinstance(h, (int, str)):
                got = outcome(lambda: make_class('R', {'x': Annotated[h, t]}))
                require(not got.ok, 'tokens are dropped: {}, {}', h, t)
    # Type, Literal and Callable in a container
    got = outcome(lambda: make_class('R', {'x': List[Type[int]]}, default_type_check=check).x)
    K = make_class('R', {'x': List[Type[int]], 'y': D(Dict[str, Literal[1, 2]], {}), 'z': D(Optional[Callable], None)}, default_type_check=check)
    require(not outcome(lambda: K(x=[str])).ok and not outcome(lambda: K(x=[bool], y={'a': 3})).ok and not outcome(lambda: K(x=[], z=5)).ok, 'inner constraints are dropped')
    require(outcome(lambda: K(x=[int, bool], y={'a': 1}, z=len)).ok, 'inner constraints')


def unions_with_bar():
    K = make_class('R', {'x': int | None, 'y': D(int | str | list[int], 0)}, default_type_check=check)
    require(K(x=None).x is None and K(x=5).x == 5, 'int | None')
    require(not outcome(lambda: K(x='a')).ok and not outcome(lambda: K(x=1, y=b'')).ok and not outcome(lambda: K(x=1, y=['a'])).ok, 'int | None')
    require(K(x=1, y=[1]).y == [1] and K(x=1, y='q').y == 'q', 'int | str | list[int]')


def tags():
    t = [Tag(i) for i in range(5)]
    N = NewType('N', Annotated[int, t[0]])
    K = make_class('R', {'a': N, 'b': Annotated[N, t[1]], 'c': Final[Annotated[int, t[2]]], 'd': Annotated[Final[Annotated[int, t[3]]], t[4]],
                         'e': int, 'f': Annotated[Optional[int], t[1], t[2]]}, frozen=True)
    want = {'a': {0}, 'b': {0, 1}, 'c': {2}, 'd': {3, 4}, 'e': set(), 'f': {1, 2}}
    for k, w in want.items():
        require(K._fields[k].tags == {t[i] for i in w}, 'the tags of {} are {}', k, K._fields[k].tags)
    for i in range(6):
        f = K._fields.filter_by_tag(Tag(i))
        require(list(f.items()) == [(k, K._fields[k]) for k in want if i in want[k]], 'the fields by tag {} are {}', i, list(f))
        require(type(f) is type(K._fields) and list(K._fields) == list(want), 'filtering by tag changes the fields')
    require(not list(K._fields.filter_by_tag(Tag('0'))) and list(K._fields.filter_by_tag(Tag(1)).filter_by_tag(Tag(2))) == ['f'], 'filters by tag')


def final_tokens():
    log = []

    def v(n): return CallValidation(lambda x: log.append(n) or x)
    for h in (Final[Annotated[int, check, v('in')]], Annotated[Final[Annotated[int, v('in')]], check, v('out')], Annotated[Final[int], v('out'), check],
              Final[Optional[Annotated[int, check]]], Annotated[Final[NewType('N', Annotated[int, v('in')])], check]):
        K = make_class('R', {'x': h}, frozen=True)
        del log[:]
        K(x=5)
        n = (['in'] if "'in'" in repr(h) else []) + (['out'] if "'out'" in repr(h) else [])
        if not str(h).startswith('typing.Final[typing.Optional'):
            require(not outcome(lambda: K(x='a')).ok, 'the check of {} is dropped', h)
    K = make_class('R', {'x': Annotated[Final[Annotated[int, v('in')]], check, v('out')]}, frozen=True)
    del log[:]
    K(x=5)
    require(log == ['in', 'out'], 'the validators around and inside Final ran as {}', log)


def classes_as_tokens():
    from records import Truth, FromInteger
    K = make_class('R', {'x': Annotated[bool, check, FromInteger], 'y': D(Annotated[object, Truth], 1), 'z': D(Annotated[str, check, Loose], ''),
                         'w': D(Annotated[tuple, check, LooseUnpack.constrain(int)], ()), 'u': D(Annotated[list, check, Falsish], [])})
    require(K(x=1).x is True and not outcome(lambda: K(x=2)).ok and not outcome(lambda: K(x=1, y=0)).ok and K(x=0, z=5).z == '5', 'tokens given as classes')
    require(K(x=1, u=None).u == [] and not outcome(lambda: K(x=1, u=5)).ok, 'tokens given as classes')

    class NeedsArg(ValidationToken):
        def __init__(self, a): pass
    require(not outcome(lambda: make_class('R', {'x': Annotated[int, NeedsArg]})).ok, 'a token that cannot be instantiated')


def one_field_only():
    """tokens shared between fields, and hooks, reach only their fields"""
    log = []
    tok = CallValidation(lambda v: log.append(v) or v)
    N = NewType('N', Annotated[int, tok])

    class R(RecordBase, default_type_check=check):
        a: N
        b: N = 0
        c: int = 0
        d: List[int] = ()
        e: List[int] = ()

        @classmethod
        def pre_bind(cls):
            if cls.__name__ != 'R':
                return  # the hook runs for each class that inherits it
            cls.c.add_validator(lambda v: v + 1)
            cls.d.add_validator(lambda v: v * 2, sub_key=0)
    r = R(a=1, b=2, c=3, d=[4], e=[5])
    require(log == [1, 2] and (r.c, r.d, r.e) == (4, [8], [5]), 'tokens of other fields: {} {}', log, r)

    class S(R):
        f: int = 0
    r = S(a=1, c=3, f=3)
    require(r.c == 4 and r.f == 3, 'tokens of other fields {}', r)


def repeated_tokens():
    """the same token, applied twice, takes effect twice"""
    tok = CallValidation(lambda v: v + v)
    for h in (int, Optional[int], Union[int, str], Union[str, Optional[int]], Annotated[Union[int, str], tok, tok]):
        for times in range(4):
            class R(RecordBase, default_type_check=check):
                x: h

                @classmethod
                def pre_bind(cls):
                    for _ in range(times):
                        cls.x.filler.apply(tok)
            n = times + (2 if hasattr(h, '__metadata__') else 0)
            require(R(x=1).x == 2 ** n, '{} validators made 1 to {}', n, R(x=1).x)
            o = outcome(R.x.filler.apply, tok)
            require(type(o.exc) is RuntimeError and R(x=1).x == 2 ** n, 'a token after the class was defined: {}', o)


class EqualWhatever:
    """a coercer or validator that equals all others"""
    def __init__(self, kind, n): self.kind, self.n = kind, n
    def __eq__(self, o): return isinstance(o, EqualWhatever)
    def __hash__(self): return 0

    def __call__(self, v):
        if self.kind == 'validator':
            return v + self.n
        if v != str(self.n):
            raise TypeError
        return self.n


def equal_tokens():
    """tokens that are equal all take effect"""
    from records.fillers.coercers import CoercionToken
    from records.fillers.validators import ValidationToken

    class Eq:
        def __init__(self, n): self.n = n
        def __eq__(self, o): return isinstance(o, Eq)
        def __hash__(self): return 0

    class C(Eq, CoercionToken):
        def __call__(self, origin, filler): return EqualWhatever('coercer', self.n)

    class V(Eq, ValidationToken):
        def __call__(self, origin, filler): return EqualWhatever('validator', self.n)
    for h in (int, Optional[int], Final[int], Annotated[int, C(1), V(10)]):
        extra = 10 if hasattr(h, '__metadata__') else 0

        class R(RecordBase, default_type_check=check, frozen=True):
            x: Annotated[h, C(1), C(2), V(100), C(3), V(1000)]
        for i in (1, 2, 3):
            o = outcome(lambda: R(x=str(i)).x)
            require(o.ok and o.value == i + 1100 + extra, 'equal tokens of {}: {}', h, o)


def cases(tier, rng):
    yield Case('equal tokens', equal_tokens)
    yield Case('repeated tokens', repeated_tokens)
    yield Case('hints whose arguments are not filled', dropped)
    yield Case('unions with |', unions_with_bar)
    yield Case('tags', tags)
    yield Case('tokens around and inside Final', final_tokens)
    yield Case('tokens given as classes', classes_as_tokens)
    yield Case('tokens of one field', one_field_only)
    for _ in range(5000 if tier == 'quick' else 60000):
        depth = rng.choice((0, 1, 1, 2, 2, 3))
        n = random_node(rng, depth, rng.choice((.2, .4, .6)))
        default = rng.choice(('hollow', 'hollow', 'check', 'check', 'strict'))
        if n.kind == 'union':
            pass
        final = rng.choice((0, 0, 0, 1, 2))
        if rng.random() < .2 and n.kind != 'leaf' and n.kind not in ('opaque',):
            k = rng.randrange(len(n.kids))
            n.kids[k].pre = [val(f'p{next(counter)}')]
        elif rng.random() < .1:
            n.pre = [val(f'p{next(counter)}')]
        vals = [good(n, rng) for _ in range(3)] + [bad(n, rng) for _ in range(5)]
        yield case(n, default, vals, bool(final) or rng.random() < .3, final)
