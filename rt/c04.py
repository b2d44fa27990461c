"""C04: mapping hints."""
import collections
import collections.abc as cabc
import itertools
from collections import OrderedDict, defaultdict, Counter
from types import MappingProxyType
from typing import DefaultDict, Dict, Mapping, MutableMapping, Any

from records import CallCoercion, CallValidation, check, check_strict, hollow
from .common import *
from . import reentry
from .c03 import E, Swap, Conv, Bad, Eq, Filling, ELEMENTS


class MyDict(dict):
    pass


class MyDD(defaultdict):
    pass


class MyMap(cabc.MutableMapping):
    def __init__(self, items=()): self.d = dict(items)
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)
    def __setitem__(self, k, v): raise AssertionError('modified')
    def __delitem__(self, k): raise AssertionError('modified')


def factory(): return 'made'


HINTS = {
    'Dict': (lambda k, v: Dict[k, v], [dict, MyDict, OrderedDict, 'dd', 'mydd', 'dd0']), 'dict': (lambda k, v: dict[k, v], [dict]),
    'Mapping': (lambda k, v: Mapping[k, v], [dict, MyMap, OrderedDict]),
    'MutableMapping': (lambda k, v: MutableMapping[k, v], [dict, MyMap, MyDict]),
    'DefaultDict': (lambda k, v: DefaultDict[k, v], ['dd', 'mydd', 'dd0']),
    'defaultdict': (lambda k, v: defaultdict[k, v], ['dd']),
}


def build(kind, items):
    if kind == 'dd':
        return defaultdict(factory, items)
    if kind == 'dd0':
        return defaultdict(None, items)
    if kind == 'mydd':
        return MyDD(factory, items)
    return kind(items)


def once(got, want):
    return len(got) == len(want) and {id(x) for x in got} == {id(x) for x in want}


def case(h, kind, style, kw, vw, which='kv', nested=False):
    desc = f'x: {h} with {which} filled, {style}, {"nested, " if nested else ""}given a {kind if isinstance(kind, str) else kind.__name__} of ' \
           f'{kw!r} to {vw!r}'

    def fn():
        fk, fv = Filling('k'), Filling('v')
        hint = annotated(HINTS[h][0](fk.hint() if 'k' in which else Any, fv.hint() if 'v' in which else Any),
                         {'check': check, 'check_strict': check_strict}[style])
        R = make_class('R', {'x': annotated(Dict[str, hint], check) if nested else hint})
        for turn in range(2):
            fk.made.clear(), fv.made.clear()
            del fk.log[:], fv.log[:]
            pairs = [(ELEMENTS[a](i), ELEMENTS[b](i)) for i, (a, b) in enumerate(zip(kw, vw))]
            v = build(kind, pairs)
            src = {'in': v} if nested else v
            got = outcome(R, x=src)
            now = list(v.items())
            require(len(now) == len(pairs) and all(a is c and b is d for (a, b), (c, d) in zip(now, pairs)), 'the mapping was modified to {}', now)
            if kind in ('dd', 'mydd'):
                require(v.default_factory is factory, 'the default factory was modified')
            first = {'dict': dict, 'dd': defaultdict}.get(HINTS[h][1][0], HINTS[h][1][0])
            if style == 'check_strict' and type(v) is not first:
                require(not got.ok and not fk.log and not fv.log, 'construction {}', got)
                continue
            ks, vs = [a for a, _ in pairs], [b for _, b in pairs]
            bad = [x for x in (ks if 'k' in which else []) + (vs if 'v' in which else []) if isinstance(x, Bad)]
            if bad:
                require(not got.ok and isinstance(got.exc, KeyError), 'construction {}', got)
                require(len({id(x) for x in fk.log}) == len(fk.log) and len({id(x) for x in fv.log}) == len(fv.log), 'an element was filled twice')
                continue
            require(once(fk.log, ks if 'k' in which else []), 'the key hint was given {} and not {}', fk.log, ks)
            require(once(fv.log, vs if 'v' in which else []), 'the value hint was given {} and not {}', fv.log, vs)
            out = [(fk.made.get(id(a), a), fv.made.get(id(b), b)) for a, b in pairs]
            require(got.ok, 'construction {}', got)
            r = got.value.x
            unchanged = all(a is c and b is d for (a, b), (c, d) in zip(out, pairs))
            if nested:
                require((r is src) == unchanged and list(r) == ['in'], 'outer {}', r)
                r = r['in']
            if unchanged:
                require(r is v, 'every pair is identical, but {} is stored', r)
                continue
            rc = list(r.items())
            require(r is not v and type(r) is type(v), 'stored a {}', type(r))
            require(len(rc) == len(out) and all(a is c and b is d for (a, b), (c, d) in zip(rc, out)), 'stored {} and not {}', rc, out)
            if isinstance(v, defaultdict):
                require(r.default_factory is v.default_factory, 'the default factory became {}', r.default_factory)
    return Case(desc, fn)


def collisions(h, kind):
    def fn():
        log = []

        def low(k):
            log.append(k)
            return k.lower()
        R = make_class('R', {'x': annotated(HINTS[h][0](annotated(str, check, CallValidation(low)), int), check)})
        v = build(kind, [('A', 1), ('b', 2), ('a', 3), ('B', 4)])
        r = R(x=v).x
        require(list(r.items()) == [('a', 3), ('b', 4)] and log == ['A', 'b', 'a', 'B'], 'stored {}', list(r.items()))
    return Case(f'x: {h}[lowered str, int], given a {kind} with keys that collide once filled', fn)


def counter():
    R = make_class('R', {'x': annotated(Dict[str, annotated(int, check, CallValidation(lambda v: v + 1))], check)})
    c = Counter('aab')
    r = R(x=c).x
    require(type(r) is Counter and r == {'a': 3, 'b': 2} and c == {'a': 2, 'b': 1}, 'stored {}', r)


def hollow_pairs(h, kind, n, style):
    def fn():
        R = make_class('R', {'x': annotated(HINTS[h][0](Any, Any), {'check': check, 'hollow': hollow}[style])})
        v = build(kind, [(Token(str(i)), Token('v')) for i in range(n)])
        items = list(v.items())
        r = outcome(R, x=v)
        require(r.ok and r.value.x is v and list(v.items()) == items, 'construction {}', r)
        if style == 'check':
            require(not outcome(R, x=[]).ok, 'a list was accepted')
    return Case(f'x: {h}[object, object], {style}, given a {kind} of {n}', fn)


def rejected(hint, desc, **kw):
    def fn():
        require(not outcome(make_class, 'R', {'x': hint}, **kw).ok, 'the class definition was accepted')
    return Case(desc + ' is rejected', fn)


def cases(tier, rng):
    yield from reentry.container_cases(['Dict values'], ['plain'])
    pairs = ['es', 'ee', 'se', 'ce', 'ec', 'cs', 'be', 'eb', 'qe', 'eq', 'bb']
    words = [()] + [w for n in (1, 2) for w in itertools.product(pairs, repeat=n)] + list(itertools.product(['ee', 'ce', 'es'], repeat=3))
    for h, (_, kinds) in HINTS.items():
        for kind in kinds:
            for w in words:
                k, v = ''.join(p[0] for p in w), ''.join(p[1] for p in w)
                for which in ('kv', 'k', 'v'):
                    yield case(h, kind, 'check', k, v, which)
                if rng.random() < .3:
                    if h not in ('Mapping', 'MutableMapping'):
                        yield case(h, kind, 'check_strict', k, v)
                    yield case(h, kind, 'check', k, v, rng.choice(('kv', 'k', 'v')), True)
            for n in (0, 1, 3):
                yield hollow_pairs(h, kind, n, 'check')
                yield hollow_pairs(h, kind, n, 'hollow')
            yield collisions(h, kind)
    yield Case('x: Dict[str, int], given a Counter whose values change', counter)
    inner = annotated(int, check)
    for h, (mk, _) in HINTS.items():
        for a, b in ((inner, int), (int, inner), (inner, inner)):
            yield rejected(mk(a, b), f'{h}[{a}, {b}], default style hollow')
            yield rejected(annotated(mk(a, b), hollow), f'{h}[{a}, {b}], hollow', default_type_check=check)
            yield rejected(annotated(mk(int, mk(a, b)), check), f'{h}[int, {h}[{a}, {b}] hollow], checked')
    for _ in range(400 if tier == 'quick' else 20000):
        h = rng.choice(list(HINTS))
        kind = rng.choice(HINTS[h][1])
        n = rng.randrange(3, 8)
        yield case(h, kind, 'check', ''.join(rng.choice('eeeescq') for _ in range(n)), ''.join(rng.choice('eeeeescqb') for _ in range(n)),
                   rng.choice(('kv', 'k', 'v')), rng.random() < .3)
