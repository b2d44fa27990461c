"""C14: exporting."""
import io
import itertools
import functools
import json

from records import RecordBase, Factory, Tag, Annotated
from .common import *
from . import reentry

T1, T2, T3 = Tag(1), Tag('two'), Tag(None)


class EqAll:
    def __eq__(self, o): return True
    def __hash__(self): return 0
    def __lt__(self, o): return False
    def __repr__(self): return 'EqAll'


class EqNone:
    def __eq__(self, o): return False
    def __hash__(self): return 0


DEF = Token('default')


def h(*tags): return Annotated[(object, *tags)] if tags else object


FIELDS = {'b': h(), 'a': h(T1), 'd': D(h(), 5), 'c': D(h(T1, T2), None), 'f': D(h(T2), Factory(lambda: 6)), 'e': D(h(), DEF), 'g': D(h(T3), ())}
CLASSES = {}
for frozen in (False, True):
    P = make_class('P', {k: FIELDS[k] for k in 'bad'}, frozen=frozen)
    CLASSES['Rf' if frozen else 'R'] = make_class('R', {k: FIELDS[k] for k in 'cfeg'}, (P,), frozen=frozen)
CLASSES['One'] = make_class('One', {'z': D(h(T1), 1), 'y': h(T1, T2, T3)})
DECL = {c: {'y': FIELDS, 'z': FIELDS} for c in CLASSES}


def decl(c):
    return FIELDS if c != 'One' else {'z': D(h(T1), 1), 'y': h(T1, T2, T3)}


def tags_of(hint):
    return [t for t in getattr(hint, '__metadata__', ()) if isinstance(t, Tag)]


class Obj:
    """some object with some attributes"""
    def __init__(self, d): self.__dict__.update(d)


class Dyn:
    """attributes by a hook, counted"""
    def __init__(self, d): self._d, self._reads = d, []

    def __getattr__(self, n):
        if n in ("_d", "_reads"):
            raise AttributeError(n)
        self._reads.append(n)
        if n in self._d:
            return self._d[n]
        raise AttributeError(n)


class Prop:
    """an attribute that fails for another reason"""
    @property
    def b(self): raise KeyError('b')


def has_default(f): return isinstance(f, D)


def is_default(f, v):
    return has_default(f) and not type(f.default).__name__ == 'Factory' and f.default == v


def oracle(fields, values, include, sort, blacklist, whitelist):
    black = [blacklist] if isinstance(blacklist, Tag) else list(blacklist)
    white = [whitelist] if isinstance(whitelist, str) else list(whitelist)
    items = []
    for k, f in fields.items():
        hint = f.hint if has_default(f) else f
        if k not in white and any(t in black for t in tags_of(hint)):
            continue
        if k not in values:
            if not has_default(f):
                return AttributeError
            if include:
                items.append((k, MISSING))
            continue
        v = values[k]
        if k in white or include or not is_default(f, v):
            items.append((k, v))
    if sort and callable(sort):
        items.sort(key=lambda t: sort(t[0]))
    elif sort == -1:
        items.sort(key=lambda t: t[0], reverse=True)
    elif sort:
        items.sort(key=lambda t: t[0])
    return items


def show_sort(s): return getattr(s, '__name__', s)


def case(c, values, args, via, obj_kind):
    desc = f'{c}.to_dict of {obj_kind} {values}, { {k: show_sort(v) for k, v in args.items()} } ({via})'
    fields = decl(c)

    def fn():
        cls = CLASSES[c]
        names = list(cls._fields)
        if obj_kind == 'record':
            obj = cls(**values)
            actual = dict(vars(obj))
            actual.pop('_hash', None)
        else:
            obj = {'object': Obj, 'dynamic': Dyn}[obj_kind](dict(values))
            actual = dict(values)
        before = dict(obj._d if obj_kind == 'dynamic' else vars(obj))
        a = dict(args)
        inputs = {k: list(v) if isinstance(v, (set, list, tuple, frozenset)) else v for k, v in a.items()}
        if via == 'call':
            got = outcome(lambda: obj.to_dict(**a)) if obj_kind == 'record' else outcome(lambda: cls.to_dict(obj, **a))
        elif via == 'class':
            got = outcome(lambda: cls.to_dict(obj, **a))
        elif via == 'export_with':
            got = outcome(lambda: cls.to_dict.export_with(**a)(obj))
        else:
            pos = [a.get('include_defaults', False), a.get('sort'), a.get('blacklist_tags', frozenset()), a.get('whitelist_keys', frozenset())]
            got = outcome(lambda: cls.to_dict(obj, *pos))
        want = oracle({k: fields[k] for k in names}, actual, args.get('include_defaults', False), args.get('sort'),
                      args.get('blacklist_tags', ()), args.get('whitelist_keys', ()))
        after = dict(obj._d if obj_kind == 'dynamic' else vars(obj))
        require(list(after) == list(before) and all(after[k] is before[k] for k in before), 'the object changed')
        require(all(list(v) == inputs[k] for k, v in a.items() if isinstance(v, (set, list, tuple, frozenset))), 'an argument changed')
        if want is AttributeError:
            require(type(got.exc) is AttributeError, 'a required field is missing, and to_dict {}', got)
            return
        require(got.ok and type(got.value) is dict, 'to_dict {}', got)
        g = list(got.value.items())
        require([k for k, _ in g] == [k for k, _ in want], 'the keys are {} and not {}', [k for k, _ in g], [k for k, _ in want])
        for (k, v), (_, w) in zip(g, want):
            if w is MISSING:
                d = fields[k].default
                require(v == 6 if type(d).__name__ == 'Factory' else v is d, '{} is {}', k, v)
            else:
                require(v is w, '{} is {} and not {}', k, v, w)
        if obj_kind == 'record' and via == 'call':
            text = outcome(lambda: obj.__repr__(**a))
            said = cls.__qualname__ + '(' + ', '.join(f'{k}={v!r}' for k, v in want) + ')'
            require(text.ok and type(text.value) is str and text.value == said, 'repr {} and not {}', text, said)
            if not args:
                require(repr(obj) == str(obj) == f'{obj}' == said, 'repr {} and not {}', obj, said)
        if obj_kind == 'dynamic':
            require(len(obj._reads) == len(set(obj._reads)), 'attributes were read more than once: {}', obj._reads)
    return Case(desc, fn)


def other_errors():
    cls = CLASSES['R']
    require(type(outcome(cls.to_dict, Prop()).exc) is KeyError, 'another error of an attribute: {}', outcome(cls.to_dict, Prop()))
    # a factory default is never a default value
    r = cls(b=1, a=2)
    require(list(r.to_dict()) == ['b', 'a', 'f'], 'to_dict {}', r.to_dict())
    # a default need not be equal to itself
    for d in (float('nan'), EqNone()):
        F = make_class('F', {'x': D(object, d), 'y': D(object, EqAll())})
        o = F().to_dict()
        require(list(o) == ['x'] and o['x'] is d, 'to_dict {}', o)
    n = []
    F = make_class('F', {'x': D(object, Factory(lambda: n.append(1) or 5)), 'y': object})
    o = F.to_dict(Obj({'y': 1}), include_defaults=True)
    require(o == {'x': 5, 'y': 1} and len(n) == 1, 'defaults {} made {} times', o, len(n))
    del n[:]
    F.to_dict(Obj({'y': 1}))
    F.to_dict(Obj({'y': 1, 'x': 5}), include_defaults=True)
    require(not n, 'a default was made in vain')


class Outer:
    class Inner(RecordBase):
        a: object
        b: object = 'b'
        _c: object = Factory(list)

    class Child(Inner, frozen=True, unary_parse=False):
        d: object = None


def texts():
    i = Outer.Inner(a="it's", b={'x': 1}, _c=[2])
    for got, want in [
            (repr(i), 'Outer.Inner(a="it\'s", b={\'x\': 1}, _c=[2])'),
            (repr(Outer.Inner(a=1)), 'Outer.Inner(a=1, _c=[])'),
            (repr(Outer.Inner(a=1, b='b', _c=())), 'Outer.Inner(a=1, _c=())'),
            (Outer.Inner(a=1).__repr__(include_defaults=True), "Outer.Inner(a=1, b='b', _c=[])"),
            (Outer.Inner(a=1).__repr__(include_defaults=True, sort=-1), "Outer.Inner(b='b', a=1, _c=[])"),
            (repr([Outer.Child(a='', d=i)]), '[Outer.Child(a=\'\', _c=[], d=Outer.Inner(a="it\'s", b={\'x\': 1}, _c=[2]))]'),
            (repr(Outer.Inner(a='é' * 200, b=[*range(100)])), f"Outer.Inner(a={'é' * 200!r}, b={[*range(100)]!r}, _c=[])"),
            (repr(Outer.Inner(a='a\n%{}\\', b=' ')), "Outer.Inner(a='a\\n%{}\\\\', b=' ', _c=[])"),
            (repr(make_class('Wide', {f'f{n}': object for n in range(60)})(**{f'f{n}': n for n in range(60)})),
             f'Wide({", ".join(f"f{n}={n}" for n in range(60))})'),
            (repr(Outer.Child(a=None, b=None, _c=None)), 'Outer.Child(a=None, b=None, _c=None)'),
            (repr(make_class('F', {'x': D(object, 3)})()), 'F()'),
            (repr(make_class('F', {'name': object, 'kwargs': object})(name='%s', kwargs='{}')), "F(name='%s', kwargs='{}')")]:
        require(got == want, 'repr {} and not {}', got, want)
    i.more = 3
    i.a = 0.5
    require(repr(i) == "Outer.Inner(a=0.5, b={'x': 1}, _c=[2])", 'repr {}', repr(i))


def as_json(c, values, exp, kw, via):
    desc = f'{c}.to_json of {values}, exported with {exp}, given {sorted(kw)} ({via})'

    def fn():
        cls = CLASSES[c]
        obj = cls(**values)
        want = outcome(lambda: json.dumps(cls.to_dict(obj, **exp), **kw))
        f = io.StringIO() if via == 'file' else None
        e = cls.to_json.export_with(**exp) if via == 'class' else obj.to_json.export_with(**exp)
        got = outcome(lambda: e(obj, **kw) if via == 'class' else e(io=f, **kw) if f is not None else e(**kw))
        require(got.ok == want.ok, 'to_json {} and not {}', got, want)
        if want.ok and f is not None:
            require(f.getvalue() == want.value, 'written was {}', f.getvalue())
        elif want.ok:
            require(got.value == want.value, 'to_json {}', got)
    return Case(desc, fn)


def rank(k): return 'gfedcba'.index(k) if k in 'gfedcba' else 99


def const(k): return 0


def ties(k): return k in 'bdf'


SORTS = [None, False, True, 1, -1, -1.0, rank, const, ties, 'yes', 2, functools.partial(rank), len]
BLACK = [frozenset(), T1, T2, T3, {T1, T2}, {Tag('two')}, frozenset({T1, T3}), {Tag('none of them')}, {T1: 0}.keys()]
WHITE = [frozenset(), 'a', 'c', {'c', 'd'}, ['a', 'g'], ('e', 'f'), {'b': 1}, 'zz', 'ab', {'zz', 'd'}]
VALS = [0, 5, None, 6, DEF, (), 5.0, True, [], EqAll(), EqNone(), 'x']


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    yield Case('texts', texts)
    yield Case('errors and factory defaults', other_errors)
    full = {'b': 1, 'a': 2, 'd': 5, 'c': None, 'f': 6, 'e': DEF, 'g': ()}
    other = {'b': 5, 'a': None, 'd': 0, 'c': 0, 'f': 0, 'e': 0, 'g': 0}
    for vals in (full, other):
        for inc in (False, True):
            for b in BLACK:
                for w in WHITE:
                    yield case('R', vals, {'include_defaults': inc, 'blacklist_tags': b, 'whitelist_keys': w}, 'call', 'record')
            for s in SORTS:
                for via in ('call', 'class', 'export_with', 'positional'):
                    yield case('R', vals, {'include_defaults': inc, 'sort': s}, via, 'record')
    for k in 'bacdfeg':
        vals = {x: v for x, v in other.items() if x != k}
        for kind in ('object', 'dynamic'):
            for inc in (False, True):
                for b in (frozenset(), T1, T2):
                    for w in (frozenset(), k):
                        yield case('R', vals, {'include_defaults': inc, 'blacklist_tags': b, 'whitelist_keys': w}, 'class', kind)
    for vals in ({'b': 1, 'a': 'x', 'e': [], 'd': {'k': None}}, {'b': {3}, 'a': 'é', 'e': (), 'g': 1.5}):
        for exp in ({}, {'include_defaults': True, 'blacklist_tags': T1, 'whitelist_keys': 'c'}, {'sort': True}):
            for kw in ({}, {'default': repr}, {'default': repr, 'indent': 1}, {'sort_keys': True, 'ensure_ascii': False}):
                for via in ('call', 'class', 'file'):
                    yield as_json('R', vals, exp, kw, via)
    for v in VALS:
        for k in 'dcfeg':
            for c in ('R', 'Rf'):
                yield case(c, {**other, k: v}, {}, 'call', 'record')
    for _ in range(3000 if tier == 'quick' else 60000):
        c = rng.choice(list(CLASSES))
        names = list(CLASSES[c]._fields)
        kind = rng.choice(('record', 'record', 'object', 'dynamic'))
        vals = {k: rng.choice(VALS) for k in names if rng.random() < .9 or (kind == 'record' and not has_default(decl(c)[k]))}
        args = {}
        if rng.random() < .5:
            args['include_defaults'] = rng.choice((True, False))
        if rng.random() < .4:
            args['sort'] = rng.choice(SORTS)
        if rng.random() < .5:
            args['blacklist_tags'] = rng.choice(BLACK)
        if rng.random() < .5:
            args['whitelist_keys'] = rng.choice(WHITE)
        yield case(c, vals, args, rng.choice(('call', 'class', 'export_with', 'positional')), kind)
