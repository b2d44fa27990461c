"""C15: building from mappings, objects and JSON."""
import collections
import io
import json
import types

from records import RecordBase, Factory, Tag, check, Annotated
from records.select import Select
from .common import *
from . import reentry

KEYS = 'abcd'


class Ident:
    def __init__(self, n): self.n = n
    def __repr__(self): return f'v{self.n}'


def build():
    F = {'a': object, 'b': object, 'c': D(object, 'dc'), 'd': D(object, Factory(lambda: 'dd'))}
    out = {}
    for frozen in (False, True):
        out['F' if frozen else 'N'] = make_class('F' if frozen else 'N', F, frozen=frozen)
    P = make_class('P', {'a': object, 'c': D(object, 'dc')})
    out['I'] = make_class('I', {'b': object, 'd': D(object, Factory(lambda: 'dd'))}, (P,))
    return out


C = build()
DEFAULTS = {'c': 'dc', 'd': 'dd'}


class Map(collections.abc.Mapping):
    """a mapping that is no dict"""
    def __init__(self, d): self._m = dict(d)
    def __getitem__(self, k): return self._m[k]
    def __iter__(self): return iter(self._m)
    def __len__(self): return len(self._m)
    def __repr__(self): return f'Map({self._m})'


MAPS = {'dict': dict, 'Map': Map, 'proxy': types.MappingProxyType, 'chain': lambda d: collections.ChainMap({}, dict(d)),
        'ordered': collections.OrderedDict, 'sub': type('Sub', (dict,), {}),
        # makes up values of names it is asked for, and keeps them
        'default': lambda d: collections.defaultdict(lambda: 'made up', d)}


class Obj:
    def __init__(self, d): self.__dict__.update(d)


class Slots:
    __slots__ = tuple('abcdxyz')

    def __init__(self, d):
        for k, v in d.items():
            setattr(self, k, v)


class Dyn:
    def __init__(self, d): self._d = dict(d)

    def __getattr__(self, n):
        if n == '_d' or n not in self._d:
            raise AttributeError(n)
        return self._d[n]


class Broken:
    """an attribute that fails for another reason than being missing"""
    a = b = 1

    @property
    def c(self): raise KeyError('c')


OBJS = {'object': Obj, 'slots': Slots, 'hook': Dyn, 'namespace': lambda d: types.SimpleNamespace(**d)}


def expect(cls, got, want, why):
    """want: None if construction must fail, or the given values"""
    if want is None or not (set('ab') <= set(want) <= set(KEYS)):
        require(not got.ok, '{}: {}', why, got)
        return
    require(got.ok, '{}: {}', why, got)
    require(type(got.value) is cls, '{}: a {}', why, type(got.value))
    full = {**DEFAULTS, **want}
    vals = attrs(got.value)
    vals.pop('_hash', None)
    require(set(vals) == set(full), 'the attributes are {}', sorted(vals))
    for k, v in full.items():
        require(vals[k] is v or k not in want and vals[k] == v, '{} is {} and not {}', k, vals[k], v)


def snapshot(m): return list(m.items())


def from_mapping(c, kinds, dicts, kw):
    desc = f'{c}.from_mapping({", ".join(f"{k} {d}" for k, d in zip(kinds, dicts))}, **{kw})'

    def fn():
        cls = C[c]
        ms = [MAPS[k](d) for k, d in zip(kinds, dicts)]
        before = [snapshot(m) for m in ms]
        want = dict(kw)
        for d in reversed(dicts):
            want.update(d)
        kw2 = dict(kw)
        got = outcome(lambda: cls.from_mapping(*ms, **kw2))
        expect(cls, got, want, 'from_mapping')
        require(all(snapshot(m) == b for m, b in zip(ms, before)) and kw2 == kw, 'an argument was modified')
    return Case(desc, fn)


def from_instance(c, kind, d, kinds, dicts, kw):
    desc = f'{c}.from_instance({kind} {d}, {", ".join(f"{k} {x}" for k, x in zip(kinds, dicts))}, **{kw})'

    def fn():
        cls = C[c]
        o = OBJS[kind](d)
        ms = [MAPS[k](x) for k, x in zip(kinds, dicts)]
        before = [snapshot(m) for m in ms]
        want = {k: v for k, v in d.items() if k in KEYS}
        fail = not set('ab') <= set(d)
        for x in dicts:
            want.update(x)
        want.update(kw)
        got = outcome(lambda: cls.from_instance(o, *ms, **kw))
        expect(cls, got, None if fail else want, 'from_instance')
        require(all(snapshot(m) == b for m, b in zip(ms, before)), 'an argument was modified')
        if fail:
            require(type(got.exc) is AttributeError, 'a required attribute is missing: {}', got)
    return Case(desc, fn)


ORDER = ['keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename', 'keys_to_add', 'keys_to_maybe_add']


def apply(sel, m):
    """what the Select makes of a mapping, or None"""
    m = dict(m)
    for k in sel.get('keys_to_remove', ()):
        if k not in m:
            return None
        del m[k]
    for k in sel.get('keys_to_maybe_remove', ()):
        m.pop(k, None)
    for s, t in sel.get('keys_to_rename', ()):
        if t in m or s not in m:
            return None
        m[t] = m.pop(s)
    for s, t in sel.get('keys_to_maybe_rename', ()):
        if s in m:
            if t in m:
                return None
            m[t] = m.pop(s)
    for k, v in sel.get('keys_to_add', ()):
        if k in m:
            return None
        m[k] = v
    for k, v in sel.get('keys_to_maybe_add', ()):
        m.setdefault(k, v)
    return m


def extracted(sel, d):
    """the attributes read for a select: the fields and the source names, less the ones to be added; None if one that
    must be there is missing"""
    names = {k: k in 'ab' for k in KEYS}  # name -> must be there
    for k in sel.get('keys_to_remove', ()):
        names.setdefault(k, True)
    for s, _ in sel.get('keys_to_rename', ()):
        names[s] = True if s not in DEFAULTS else False
    for s, _ in sel.get('keys_to_maybe_rename', ()):
        names[s] = False
    for _, t in list(sel.get('keys_to_rename', ())) + list(sel.get('keys_to_maybe_rename', ())):
        if t in names:
            names[t] = False
    for k, _ in sel.get('keys_to_maybe_add', ()):
        if k in names:
            names[k] = False
    for k, _ in sel.get('keys_to_add', ()):
        names.pop(k, None)
    if any(must and k not in d for k, must in names.items()):
        return None
    return {k: d[k] for k in names if k in d}


def select_instance(c, kind, d, sel, kw, maps=()):
    desc = f'{c}.from_instance.select({sel})({kind} {d}, {maps}, **{kw})'

    def fn():
        cls = C[c]
        o = OBJS[kind](d)
        m = extracted(sel, d)
        want = None
        if m is not None:
            for x in maps:
                m.update(x)
            m.update(kw)
            want = apply(sel, m)
        s = Select(**sel)
        got = outcome(lambda: cls.from_instance.select(s)(o, *maps, **kw))
        expect(cls, got, want, 'from_instance with a select')
        if not sel:
            return
        expect(cls, outcome(lambda: cls.from_instance.select(**sel)(o, *maps, **kw)), want, 'from_instance with a select, again')
    return Case(desc, fn)


def select_mapping(c, kinds, dicts, kw, sel):
    desc = f'{c}.from_mapping.select({sel})({dicts}, **{kw})'

    def fn():
        cls = C[c]
        ms = [MAPS[k](d) for k, d in zip(kinds, dicts)]
        before = [snapshot(m) for m in ms]
        m = dict(kw)
        for d in reversed(dicts):
            m.update(d)
        expect(cls, outcome(lambda: cls.from_mapping.select(Select(**sel))(*ms, **kw)), apply(sel, m), 'from_mapping with a select')
        require(all(snapshot(m) == b for m, b in zip(ms, before)), 'an argument was modified')
    return Case(desc, fn)


def equal_to_default():
    """the attributes are used even if they equal the default"""
    for frozen in (False, True):
        cls = make_class('D', {'a': object, 'c': D(object, 1), 'd': D(annotated(int, check), 0)}, frozen=frozen)
        for v in (True, 1.0, 1):
            r = cls.from_instance(Obj({'a': 0, 'c': v}))
            require(r.c is v, 'c is {} and not {}', r.c, v)
        require(not outcome(cls.from_instance, Obj({'a': 0, 'd': 0.0})).ok, 'a wrongly typed attribute is skipped')
        r = outcome(cls.from_instance.select(keys_to_remove='c'), Obj({'a': 0, 'c': 1}))
        require(r.ok and r.value.c == 1, 'the removal of an attribute that equals the default {}', r)
        r = outcome(cls.from_instance.select(keys_to_rename={'x': 'c'}), Obj({'a': 0, 'c': 1, 'x': 2}))
        require(type(r.exc) is ValueError, 'a rename onto an attribute that equals the default {}', r)
        r = outcome(cls.from_instance.select(keys_to_maybe_add={'c': 3}), Obj({'a': 0, 'c': 1}))
        require(r.ok and r.value.c == 1, 'an optional addition of an existing attribute {}', r)


def as_is():
    F, N = C['F'], C['N']

    class Sub(F, frozen=True):
        e: object = 0
    class Thaw(F):
        e: object = 0
    f, n = F(a=1, b=2), N(a=1, b=2)
    s, t = Sub(a=1, b=2), Thaw(a=1, b=2)
    require(F.from_instance(f) is f, 'a frozen instance is not returned as is')
    require(F.from_instance(s) is s, 'an instance of a subclass is an instance')
    r = F.from_instance(f, {'a': 5})
    require(r is not f and r.a == 5 and r.b == 2 and f.a == 1, 'from_instance with a mapping {}', r)
    r = F.from_instance(f, b=6)
    require(r is not f and r.a == 1 and r.b == 6, 'from_instance with a keyword {}', r)
    r = F.from_instance(f, {})
    require(r == f, 'from_instance with an empty mapping {}', r)
    r = F.from_instance.select(keys_to_remove=['c'], keys_to_add={'c': 9})
    r = outcome(lambda: F.from_instance.select(keys_to_maybe_remove=['d'])(f))
    require(r.ok and r.value is not f and r.value.a == 1, 'from_instance with a select {}', r)
    r = F.from_instance.select(keys_to_add={'c': 9})(f)
    require(r is not f and r.c == 9 and f.c == 'dc', 'from_instance with an addition {}', r)
    r = N.from_instance(n)
    require(r is not n and type(r) is N and attrs(r) == attrs(n), 'from_instance of a non-frozen record {}', r)
    r = N.from_instance(f)
    require(type(r) is N and r.a == 1, 'from_instance of another record {}', r)
    r = F.from_instance(n)
    require(type(r) is F and r.a == 1, 'from_instance of another record {}', r)
    r = Thaw.from_instance(t)
    require(r is not t and r == t, 'from_instance of a thawed record')
    require(outcome(F.from_instance, Broken()).exc.__class__ is KeyError, 'another error of an attribute is swallowed')
    # an empty select is no select
    require(F.from_instance.select(Select())(f) is f, 'an empty select')


def json_case(c, d, kw=None):
    desc = f'{c}.from_json of {d}'

    def fn():
        cls = C[c]
        text = json.dumps(d)
        for via in ('text', 'bytes', 'io', 'select'):
            if via == 'text':
                got = outcome(lambda: cls.from_json(text))
            elif via == 'bytes':
                got = outcome(lambda: cls.from_json(text.encode()))
            elif via == 'io':
                got = outcome(lambda: cls.from_json_io(io.StringIO(text)))
            else:
                got = outcome(lambda: cls.from_json.select(keys_to_maybe_rename={'x': 'c'})(text))
            e = d
            if via == 'select' and isinstance(d, dict):
                e = apply({'keys_to_maybe_rename': [('x', 'c')]}, d)
            want = outcome(lambda: cls.from_mapping(e)) if isinstance(e, dict) else None
            if want is None or not want.ok:
                require(not got.ok, '{}: {}', via, got)
            else:
                require(got.ok and type(got.value) is cls and attrs(got.value) == attrs(want.value), '{}: {}', via, got)
        if isinstance(d, dict):
            got = outcome(lambda: cls.from_json(text, object_pairs_hook=lambda ps: dict(reversed(ps))))
            want = outcome(lambda: cls(**d))
            require(got.ok == want.ok, 'with a hook: {}', got)
    return Case(desc, fn)


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    yield Case('frozen instances are returned as is', as_is)
    yield Case('attributes that equal the default', equal_to_default)
    n = iter(range(10 ** 9))

    def vals(ks): return {k: Ident(next(n)) for k in ks}
    subsets = ['', 'ab', 'abc', 'abcd', 'a', 'b', 'cd', 'ac', 'bd', 'abx', 'bcd']
    for x in subsets:
        for y in subsets:
            for z in ('', 'a', 'cd', 'ab'):
                yield from_mapping('N', ['dict', 'Map'], [vals(x), vals(y)], vals(z))
                yield from_instance('N', 'object', vals(x), ['dict'], [vals(y)], vals(z))
    for c in C:
        for k in MAPS:
            yield from_mapping(c, [k], [vals('ab')], vals('c'))
            yield from_mapping(c, [k], [vals('a')], vals('abc'))
            yield from_mapping(c, [k, k, k], [vals('ad'), vals('abc'), vals('abcd')], vals('abcd'))
            yield from_mapping(c, [], [], vals('ab'))
        for k in OBJS:
            for x in subsets:
                yield from_instance(c, k, vals(x), [], [], {})
                yield from_instance(c, k, vals(x), ['Map', 'dict', 'chain'], [vals('ac'), vals('bc'), vals('c')], vals('d'))
    for c in C:
        for d in ({'a': 1, 'b': 2}, {'a': None, 'b': [1], 'c': {}}, {'a': 1}, {}, {'a': 1, 'b': 2, 'x': 3}, {'a': 1, 'b': 2, 'c': 3, 'x': 4},
                  [1, 2], 'ab', None, 5, {'b': 1, 'a': {'a': 1}, 'd': False}):
            yield json_case(c, d)
    names = list('abcd') + ['x', 'y', 'z']

    def random_select():
        s = {}
        for k in ORDER:
            if rng.random() < .3:
                m = rng.choice((1, 1, 2))
                s[k] = [rng.choice(names) if 'remove' in k else (rng.choice(names), rng.choice(names) if 'rename' in k else Ident(next(n)))
                        for _ in range(m)]
        return s

    fixed = [{'keys_to_rename': [('x', 'a')]}, {'keys_to_maybe_rename': [('x', 'a')]}, {'keys_to_rename': [('x', 'c')]},
             {'keys_to_remove': ['x']}, {'keys_to_maybe_remove': ['x']}, {'keys_to_remove': ['c']}, {'keys_to_remove': ['a'], 'keys_to_rename': [('x', 'a')]},
             {'keys_to_add': [('a', 1)]}, {'keys_to_maybe_add': [('a', 1)]}, {'keys_to_add': [('x', 1)]}, {'keys_to_maybe_add': [('x', 1)]},
             {'keys_to_rename': [('a', 'b')]}, {'keys_to_rename': [('a', 'x'), ('y', 'a')], 'keys_to_remove': ['x']},
             {'keys_to_maybe_rename': [('x', 'a'), ('y', 'a')]}, {'keys_to_rename': [('a', 'x'), ('x', 'a')]},
             {'keys_to_add': [('c', 1)]}, {'keys_to_maybe_add': [('c', 1)]}, {'keys_to_maybe_rename': [('x', 'c'), ('y', 'd')]}]
    for s in fixed:
        for x in ('ab', 'b', 'a', 'bx', 'abx', 'abcx', 'bxy', 'by', 'abcd', 'axy', 'xy'):
            for c in ('N', 'F', 'I'):
                yield select_instance(c, 'object', vals(x), s, {})
                yield select_mapping(c, ['dict'], [vals(x)], {}, s)
            yield select_instance('N', 'hook', vals(x), s, vals('d'))
    for _ in range(2500 if tier == 'quick' else 60000):
        sel = random_select()
        c = rng.choice(list(C))
        d = vals([k for k in names if rng.random() < .6])
        if rng.random() < .6:
            d.update(vals('ab'))
        kw = vals(k for k in names[:4] if rng.random() < .1)
        if rng.random() < .5:
            yield select_instance(c, rng.choice(list(OBJS)), d, sel, kw, [vals(k for k in names[:4] if rng.random() < .2) for _ in range(rng.choice((0, 0, 0, 1, 2)))])
        else:
            m = rng.choice((1, 1, 2, 3))
            yield select_mapping(c, [rng.choice(list(MAPS)) for _ in range(m)], [d] + [vals(k for k in names if rng.random() < .3) for _ in range(m - 1)], kw, sel)
