"""C03: sequence, set and tuple hints."""
import collections
import collections.abc as cabc
from collections import deque
from typing import AbstractSet, Deque, FrozenSet, List, MutableSequence, MutableSet, Sequence, Set, Tuple, Any, Iterable

from records import CallCoercion, CallValidation, check, check_strict, hollow
from .common import *
from . import reentry


class E:
    """an element that is accepted as it is, and stays as it is"""
    def __init__(self, n): self.n = n
    def __repr__(self): return f'E{self.n}'


class Swap(E):
    """an accepted element that a validator replaces"""


class Conv:
    """an element that a coercer replaces"""
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Conv{self.n}'


class Bad:
    """an element that fails"""
    def __init__(self, n): self.n = n
    def __repr__(self): return f'Bad{self.n}'


class Eq(E):
    """replaced by an equal object"""
    def __eq__(self, o): return isinstance(o, E)
    def __hash__(self): return hash(self.n)


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDeque(deque):
    pass


class MySet(set):
    pass


class MyFrozen(frozenset):
    pass


class Seq(cabc.Sequence):
    """a sequence without slices"""
    def __init__(self, it): self.items = list(it)
    def __getitem__(self, i):
        if isinstance(i, slice):
            raise TypeError('no slices')
        return self.items[i]
    def __len__(self): return len(self.items)


class ASet(cabc.MutableSet):
    """a set that keeps the order"""
    def __init__(self, it): self.items = list(dict.fromkeys(it))
    def __contains__(self, x): return x in self.items
    def __iter__(self): return iter(self.items)
    def __len__(self): return len(self.items)
    def add(self, x): raise AssertionError('modified')
    def discard(self, x): raise AssertionError('modified')


class Falsy(list):
    def __bool__(self): return False


HINTS = {
    'List': (lambda t: List[t], [list, MyList, Falsy]), 'list': (lambda t: list[t], [list, MyList]),
    'Sequence': (lambda t: Sequence[t], [list, tuple, MyTuple, deque, 'maxlen', 'maxlen+', Seq]),
    'MutableSequence': (lambda t: MutableSequence[t], [list, deque, MyList]),
    'Set': (lambda t: Set[t], [set, MySet]), 'FrozenSet': (lambda t: FrozenSet[t], [frozenset, MyFrozen]),
    'AbstractSet': (lambda t: AbstractSet[t], [set, frozenset, ASet]), 'MutableSet': (lambda t: MutableSet[t], [set, ASet]),
    'Deque': (lambda t: Deque[t], [deque, MyDeque, 'maxlen', 'maxlen+']), 'deque': (lambda t: deque[t], [deque]),
    'Tuple...': (lambda t: Tuple[t, ...], [tuple, MyTuple]), 'tuple...': (lambda t: tuple[t, ...], [tuple]),
}
SETS = (set, frozenset, cabc.Set)


def build(kind, items):
    if kind == 'maxlen':
        return deque(items, len(items) or 1)
    if kind == 'maxlen+':
        return deque(items, len(items) + 2)
    return kind(items)


class Filling:
    """an element hint, with a log and an oracle"""
    def __init__(self, tag=''):
        self.log, self.made, self.tag = [], {}, tag

    def hint(self):
        def coerce(v):
            self.log.append(v)
            if isinstance(v, Conv):
                r = self.made[id(v)] = E((self.tag, v.n))
                return r
            raise KeyError('bad element')

        def validate(v):
            if any(v is m for m in self.made.values()):
                return v
            self.log.append(v)
            if isinstance(v, (Swap, Eq)):
                r = self.made[id(v)] = E((self.tag, v.n))
                return r
            return v
        return annotated(E, check, CallCoercion(coerce), CallValidation(validate))

    def expect(self, items):
        """(whether all are filled, the filled ones, what the hint was given)"""
        out, seen = [], []
        for x in items:
            seen.append(x)
            if isinstance(x, Bad):
                return False, out, seen
            out.append(self.made.get(id(x), x))
        return True, out, seen


def contents(c):
    return list(c)


ABSTRACT = ('Sequence', 'MutableSequence', 'AbstractSet', 'MutableSet')
ELEMENTS = {'e': E, 's': Swap, 'c': Conv, 'b': Bad, 'q': Eq}


def case(hint_name, kind, style, word, outer_validator=False, nested=False):
    desc = f'x: {hint_name}[E], {style}, {"nested, " if nested else ""}given a {kind if isinstance(kind, str) else kind.__name__} of {word!r}'

    def fn():
        f = Filling()
        outer_log = []
        tokens = [{'check': check, 'check_strict': check_strict}[style]]
        if outer_validator:
            def outer(v):
                outer_log.append((v, len(f.log)))
                return v
            tokens.append(CallValidation(outer))
        h = annotated(HINTS[hint_name][0](f.hint()), *tokens)
        if nested:
            h = annotated(List[h], check)
        R = make_class('R', {'x': h})
        for turn in range(2):
            items = [ELEMENTS[w](n) for n, w in enumerate(word)]
            v = build(kind, items)
            items = contents(v)
            del f.log[:], outer_log[:]
            f.made.clear()
            src = [v] if nested else v
            got = outcome(R, x=src)
            require(same(contents(v), items), 'the container was modified to {}', contents(v))
            exact_type = HINTS[hint_name][1][0]
            if style == 'check_strict' and type(v) is not exact_type:
                require(not got.ok, 'strictly checked, but construction {}', got)
                require(not f.log, 'elements were filled')
                continue
            good, out, seen = f.expect(items)
            require(same(f.log, seen), 'the element hint was given {} and not {}', f.log, seen)
            if not good:
                require(not got.ok and isinstance(got.exc, KeyError), 'construction {}', got)
                continue
            require(got.ok, 'construction {}', got)
            r = got.value.x
            if nested:
                require((r is src) == same(out, items), 'the outer list is{} kept', '' if r is src else ' not')
                require(type(r) is list and len(r) == 1, 'outer {}', r)
                r = r[0]
            if same(out, items):
                require(r is v, 'every element is identical, but the container is another: {}', r)
            else:
                require(r is not v and type(r) is type(v), 'stored {} of {}', r, type(r))
                rc = contents(r)
                if isinstance(v, (set, frozenset)):
                    require(len(rc) == len(out) and all(any(a is b for b in rc) for a in out), 'stored {} and not {}', rc, out)
                else:
                    require(same(rc, out), 'stored {} and not {}', rc, out)
                if isinstance(v, deque):
                    require(r.maxlen == v.maxlen, 'maxlen {} became {}', v.maxlen, r.maxlen)
            if outer_validator:
                require(len(outer_log) == 1, 'the outer validator ran {} times', len(outer_log))
    return Case(desc, fn)


def hollow_elements(hint_name, kind, n, style):
    desc = f'x: {hint_name}[object], {style}, given a {kind if isinstance(kind, str) else kind.__name__} of {n}'

    def fn():
        R = make_class('R', {'x': annotated(HINTS[hint_name][0](Any), {'check': check, 'hollow': hollow}[style])})
        v = build(kind, [Token(str(i)) for i in range(n)])
        items = contents(v)
        r = outcome(R, x=v)
        require(r.ok and r.value.x is v and same(contents(v), items), 'construction {}', r)
        if style == 'hollow':
            y = Token('y')
            require(R(x=y).x is y, 'a hollow field stored another object')
    return Case(desc, fn)


def tuple_case(kinds, word, cls, style):
    """kinds: per position, an element hint (e) or a hollow one (h)"""
    desc = f'x: Tuple of {kinds!r}, {style}, given a {cls.__name__} of {word!r}'

    def fn():
        fs = [Filling(n) for n in range(len(kinds))]
        order = []
        for n, f in enumerate(fs):
            class Log(list):
                def __init__(self, n): super().__init__(); self.n = n
                def append(self, x): super().append(x); order.append((self.n, x))
            f.log = Log(n)
        hints = tuple(f.hint() if k == 'e' else Any for k, f in zip(kinds, fs))
        R = make_class('R', {'x': annotated(Tuple[hints] if hints else Tuple[()], {'check': check, 'check_strict': check_strict}[style])})
        items = [ELEMENTS[w](n) for n, w in enumerate(word)]
        v = cls(items)
        got = outcome(R, x=v)
        require(same(v, items), 'the tuple was modified')
        if style == 'check_strict' and cls is not tuple:
            require(not got.ok, 'construction {}', got)
            return
        if len(word) != len(kinds):
            require(not got.ok, 'a tuple of {} was accepted for {}', len(word), len(kinds))
            return
        out, want, good = [], [], True
        for n, (x, k, f) in enumerate(zip(items, kinds, fs)):
            if k == 'h':
                out.append(x)
                continue
            want.append((n, x))
            if isinstance(x, Bad):
                good = False
                break
            out.append(f.made.get(id(x), x))
        require([n for n, _ in order] == [n for n, _ in want] and same([x for _, x in order], [x for _, x in want]),
                'the hints were given {} and not {}', order, want)
        if not good:
            require(not got.ok and isinstance(got.exc, KeyError), 'construction {}', got)
            return
        require(got.ok, 'construction {}', got)
        r = got.value.x
        if same(out, items):
            require(r is v, 'every element is identical, but the tuple is another: {}', r)
        else:
            require(r is not v and type(r) is cls and same(r, out), 'stored {} and not {}', r, out)
    return Case(desc, fn)


def rejected(hint, desc):
    def fn():
        made = outcome(make_class, 'R', {'x': hint})
        require(not made.ok, 'the class definition was accepted')
    return Case(desc + ' is rejected', fn)


def strings():
    def fn():
        R = make_class('R', {'x': annotated(Sequence[annotated(str, check, CallValidation(str.upper))], check)})
        require(R(x='abC').x == 'ABC' and R(x='').x == '', 'stored {}', R(x='abC').x)
        B = make_class('B', {'x': annotated(Sequence[annotated(int, check, CallValidation(lambda v: v + 1))], check)})
        require(B(x=b'abc').x == b'bcd', 'stored {}', B(x=b'abc').x)
    yield Case('x: Sequence[str] or Sequence[int], given strings and bytes', fn)


def cases(tier, rng):
    import itertools
    yield from reentry.container_cases([h for h in reentry.HOLDERS if h != 'Dict values'], ['plain'])
    words = [''.join(w) for n in range(4) for w in itertools.product('escbq'[:5 if n < 3 else 4], repeat=n)]
    for h, (_, kinds) in HINTS.items():
        for kind in kinds:
            for w in words:
                yield case(h, kind, 'check', w)
            for w in words[:30:3]:
                if h not in ABSTRACT:
                    yield case(h, kind, 'check_strict', w)
                yield case(h, kind, 'check', w, True)
                yield case(h, kind, 'check', w, False, True)
            for n in (0, 1, 3):
                yield hollow_elements(h, kind, n, 'check')
                yield hollow_elements(h, kind, n, 'hollow')
    for n in range(4):
        for kinds in itertools.product('eh', repeat=n):
            for m in range(5):
                for w in itertools.product('escb' if m < 4 else 'ec', repeat=m) if m == n else ['e' * m, 'c' * m]:
                    yield tuple_case(''.join(kinds), ''.join(w), tuple, 'check')
                    if rng.random() < .3:
                        yield tuple_case(''.join(kinds), ''.join(w), MyTuple, rng.choice(('check', 'check_strict')))
    for n, w in itertools.product((1, 3, 4), words[:40]):
        yield tuple_case('e' * n, (w * 4)[:n], tuple, 'check')
    inner = annotated(int, check)
    for name, (mk, _) in HINTS.items():
        yield rejected(annotated(mk(inner), hollow), f'{name}[int with check], hollow')
        yield rejected(mk(inner), f'{name}[int with check], default style hollow')
        yield rejected(mk(annotated(int, CallValidation(int), check)), f'{name}[int with check and a validator], default style hollow')
    for t in (Tuple[inner, int], Tuple[int, inner], Tuple[int, str, inner], List[List[inner]]):
        yield rejected(t, f'{t}, default style hollow')
    yield rejected(annotated(List[annotated(List[inner], hollow)], check), 'checked List of hollow List[int with check]')
    for t in (Iterable[inner], cabc.Iterator[inner], cabc.Collection[inner], cabc.Container[inner], cabc.Reversible[inner]):
        yield rejected(annotated(t, check), f'{t}, checked')
    yield from strings()
    for _ in range(600 if tier == 'quick' else 20000):
        h = rng.choice(list(HINTS))
        w = ''.join(rng.choice('eeeescqb' if rng.random() < .5 else 'eescq') for _ in range(rng.randrange(4, 9)))
        yield case(h, rng.choice(HINTS[h][1]), rng.choice(('check', 'check', 'check_strict')) if h not in ABSTRACT else 'check', w, rng.random() < .3, rng.random() < .3)
