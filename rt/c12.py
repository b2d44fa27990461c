"""C12: applying a Select, against an independent reading of the documentation."""
import collections
import itertools
from types import MappingProxyType

from records.select import Select
from .common import *


def oracle(kinds, mapping):
    """('ok', items) or ('err', allowed exception classes)"""
    d = dict(mapping)
    for k in kinds['keys_to_remove']:
        if k not in d:
            return 'err', (KeyError,)
        del d[k]
    for k in kinds['keys_to_maybe_remove']:
        d.pop(k, None)
    for s, t in kinds['keys_to_rename']:
        errs = ((ValueError,) if t in d else ()) + ((KeyError,) if s not in d else ())
        if errs:
            return 'err', errs
        d[t] = d[s]
        del d[s]
    for s, t in kinds['keys_to_maybe_rename']:
        if s in d:
            if t in d:
                return 'err', (ValueError,)
            d[t] = d[s]
            del d[s]
    for k, v in kinds['keys_to_add']:
        if k in d:
            return 'err', (ValueError,)
        d[k] = v
    for k, v in kinds['keys_to_maybe_add']:
        if k not in d:
            d[k] = v
    return 'ok', d


KEYS = 'abc'
NAMES = ['keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename', 'keys_to_add',
         'keys_to_maybe_add']


def entries(name):
    if 'remove' in name:
        return list(KEYS)
    if 'rename' in name:
        return [(s, t) for s in KEYS for t in KEYS]
    return [(s, v) for s in KEYS for v in (None, 0, '')]


WRAP = {
    'tuple': tuple, 'list': list, 'iterator': iter, 'generator': lambda xs: (x for x in xs),
    'dict view': None, 'mapping': None, 'proxy': None, 'str': None,
}


def wrap(how, name, xs):
    if how in WRAP and WRAP[how]:
        return WRAP[how](xs)
    if 'remove' in name:
        if how == 'str' and len(xs) == 1:
            return xs[0]
        if how == 'dict view':
            return dict.fromkeys(xs).keys() if len(set(xs)) == len(xs) else list(xs)
        return tuple(xs)
    if len({s for s, _ in xs}) < len(xs):
        return tuple(xs)
    return {'mapping': dict, 'proxy': lambda x: MappingProxyType(dict(x)), 'dict view': lambda x: dict(x).items()}.get(
        how, tuple)(xs)


class ReadOnly(collections.abc.Mapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)


def case(kinds, mapping, how, source, bool_first, times=2):
    desc = f'Select({ {k: v for k, v in kinds.items() if v} }) built from {how}s, applied {times} times to {mapping} ' \
           f'({source}){", truth tested first" if bool_first else ""}'

    def fn():
        sel = Select(**{k: wrap(how, k, v) for k, v in kinds.items() if v})
        if bool_first:
            require(bool(sel) == any(kinds.values()), 'truth value is {}', bool(sel))
        want = oracle(kinds, mapping)
        for n in range(times):
            src = {'dict': dict, 'proxy': lambda m: MappingProxyType(dict(m)), 'mapping': lambda m: ReadOnly(dict(m)),
                   'ordered': collections.OrderedDict}[source](mapping)
            got = outcome(sel, src)
            if want[0] == 'ok':
                require(got.ok, 'application {} {}', n, got)
                g = dict(got.value)
                require(list(sorted(g)) == sorted(want[1]), 'application {}: keys {} and not {}', n, g, want[1])
                require(all(g[k] is want[1][k] for k in g), 'application {}: {} and not {}', n, g, want[1])
            else:
                require(not got.ok and isinstance(got.exc, want[1]), 'application {} {}, and not one of {}', n, got,
                        want[1])
        require(bool(sel) == any(kinds.values()), 'truth value is {}', bool(sel))
    return Case(desc, fn)


def cases(tier, rng):
    none = {k: [] for k in NAMES}
    vals = {k: Token('v' + k) for k in KEYS}
    maps = [{k: vals[k] for k in ks} for n in range(4) for ks in itertools.combinations(KEYS, n)]
    # every pair of entries of every pair of kinds
    for (a, b) in itertools.combinations_with_replacement(NAMES, 2):
        for x in [None] + entries(a):
            for y in entries(b):
                kinds = {**none, b: [y]}
                if x is not None:
                    kinds[a] = kinds[a] + [x]
                for m in maps[rng.randrange(2)::3] if tier == 'quick' else maps:
                    yield case(kinds, m, 'tuple', 'dict', False, 1)
    hows, sources = list(WRAP), ['dict', 'proxy', 'mapping', 'ordered']
    for how in hows:
        for source in sources:
            for name in NAMES:
                for e in entries(name)[::2]:
                    yield case({**none, name: [e]}, maps[-1], how, source, rng.random() < .5)
    yield case(none, maps[-1], 'tuple', 'dict', True)
    for _ in range(4000 if tier == 'quick' else 60000):
        kinds = {k: [rng.choice(entries(k)) for _ in range(rng.choice((0, 0, 0, 1, 1, 2, 3)))] for k in NAMES}
        yield case(kinds, rng.choice(maps), rng.choice(hows), rng.choice(sources), rng.random() < .5)
