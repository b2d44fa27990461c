"""C17: class definition."""
import itertools
import types
from typing import ClassVar, Final, Optional, List, Annotated as TAnn

from records import RecordBase, Factory, Tag, check, check_strict, hollow, Annotated, CallValidation
from records.field import FieldDict
from .common import *


class Plain:
    plain = 'p'


DEFAULTS = [lambda: MISSING, lambda: None, lambda: 0, lambda: [], lambda: Factory(lambda: 7), lambda: ..., lambda: Plain, lambda: len,
            lambda: property(lambda s: 1), lambda: staticmethod(len), lambda: NotImplemented, lambda: '', lambda: (lambda self: 1)]


class Spec:
    """a class to define: own: list of (name, kind, default maker)"""
    def __init__(self, name, parents, own, opts=None, plain=()):
        self.name, self.parents, self.own, self.opts, self.plain = name, parents, own, opts or {}, plain

    def __repr__(self):
        own = ', '.join(f'{n}: {k}' + ('' if d is MISSING else f' = {show(d)}') for n, k, d in self.own)
        return f'class {self.name}({", ".join(self.parents)}; {self.opts}) {{{own}}}'


HINTS = {'object': object, 'int': int, 'ClassVar': ClassVar[int], 'bareClassVar': ClassVar, 'Final': Final[object],
         'annotated': Annotated[object, Tag(1)], 'annotatedFinal': Annotated[Final[object], Tag(1)], 'ClassVarStr': 'ClassVar[int]', 'str': 'object',
         'Optional': Optional[int], 'AnnotatedClassVar': None, 'FinalStr': 'Final[object]', 'FinalAnnotated': Final[Annotated[object, Tag(2)]]}
HINTS['AnnotatedClassVar'] = Annotated[ClassVar[int], Tag(1)]
CLASSVARS = {'ClassVar', 'bareClassVar', 'ClassVarStr', 'AnnotatedClassVar'}
FINALS = {'Final', 'annotatedFinal', 'FinalStr', 'FinalAnnotated'}


def default_of(d): return d


def define(specs):
    out = {}
    for s in specs:
        bases = tuple(out[p] if p in out else {'Plain': Plain}[p] for p in s.parents) or (RecordBase,)
        if not any(issubclass(b, RecordBase) for b in bases):
            bases += (RecordBase,)
        body = {k: v for k, v in s.plain}
        ann = {}
        for n, k, d in s.own:
            ann[n] = HINTS[k]
            if d is not MISSING:
                body[n] = d
        body['__module__'] = __name__
        if ann or s.opts.get('annotations'):
            body['__annotations__'] = ann
        kw = {k: v for k, v in s.opts.items() if k != 'annotations'}
        out[s.name] = types.new_class(s.name, bases, kw, lambda ns: ns.update(body))
    return out


def model(specs):
    """name -> [(field, optional, default)] in order, or None if the definition must raise"""
    out = {}
    for s in specs:
        fields = []
        for p in s.parents:
            for f in out.get(p, ()):
                if any(g[0] == f[0] for g in fields):
                    return s.name
                fields.append(f)
        for n, k, d in s.own:
            if k in CLASSVARS:
                continue
            if any(g[0] == n for g in fields):
                return s.name
            if k in FINALS and not s.opts.get('frozen'):
                return s.name
            fields.append((n, d is not MISSING, d))
        if not fields:
            return s.name
        out[s.name] = fields
    return out


def view(cls):
    """what a class says of itself"""
    return (list(cls._fields), sorted(required_of(cls)), sorted(optional_of(cls)), cls.is_frozen(), getattr(cls, '_ordered', None), getattr(cls, '_unary_parse', None),
            cls.default_type_check_style(), [cls._fields[k] for k in cls._fields], [p for p in map(str, getattr(cls, '_parsers', ()))])


def check_class(cls, fields, spec):
    require(type(cls._fields) is FieldDict or isinstance(cls._fields, FieldDict), 'the fields are a {}', type(cls._fields))
    require(list(cls._fields) == [f[0] for f in fields], 'the fields are {} and not {}', list(cls._fields), [f[0] for f in fields])
    require(required_of(cls) == {f[0] for f in fields if not f[1]}, 'the required fields are {}', required_of(cls))
    require(optional_of(cls) == {f[0] for f in fields if f[1]}, 'the optional fields are {}', optional_of(cls))
    o = spec.opts
    require(cls.is_frozen() == bool(o.get('frozen')), 'frozen: {}', cls.is_frozen())
    require(cls.default_type_check_style() is o.get('default_type_check', hollow), 'check style: {}', cls.default_type_check_style())
    vals = {f[0]: Token(f[0]) for f in fields if not f[1]}
    typed = {n for n, k, d in spec.own if k in ('int', 'Optional')}
    if o.get('default_type_check', hollow) is hollow:
        for drop in list(vals):
            rest = {k: v for k, v in vals.items() if k != drop}
            require(not outcome(lambda: cls(**rest)).ok, 'required field {} may be left out', drop)
        r = outcome(lambda: cls(**vals))
        require(r.ok, 'construction from the required fields {}', r)
        r = r.value
        got = attrs(r)
        got.pop('_hash', None)
        require(set(got) == {f[0] for f in fields}, 'the attributes are {}', sorted(got))
        for n, opt, d in fields:
            if not opt:
                require(got[n] is vals[n], '{} is {}', n, got[n])
            elif isinstance(d, Factory):
                require(got[n] == d.func(), '{} is {}', n, got[n])
            else:
                require(got[n] is d, '{} is {} and not {}', n, got[n], d)
        require(list(r.to_dict(include_defaults=True)) == [f[0] for f in fields], 'the export order is {}', list(r.to_dict(include_defaults=True)))
        ok = outcome(setattr, r, fields[0][0], 1).ok
        require(ok == (not o.get('frozen')), 'assignment {}', ok)
        cmp = outcome(lambda: cls(**vals) < cls(**vals))
        require((type(cmp.exc) is TypeError and 'non-ordered' in str(cmp.exc)) == (not o.get('ordered')), 'comparison {}', cmp)
        require(outcome(hash, cls).ok, 'class hash')
        require((cls.__hash__ is None) == (not o.get('frozen')), 'hashable: {}', cls.__hash__)
    # unary parsing
    req = sum(1 for f in fields if not f[1])
    want = o.get('unary_parse')
    want = req != 1 if want is None else want
    unary = getattr(cls, '_unary_parse', want)
    require(bool(unary) == bool(want), 'unary parsing: {}', unary)
    src = {f[0]: 1 for f in fields}
    if o.get('default_type_check', hollow) is hollow and src:
        m = outcome(lambda: cls(src))
        if req != 1:
            # from_instance may parse mappings as well, if nothing is required
            require(m.ok == (bool(want) and req > 0), 'parsing a mapping {}', m)
        else:
            require(m.ok == (not want), 'a mapping for the only required field {}', m)
    for n, k, d in spec.own:
        if k in CLASSVARS:
            require(n not in cls._fields, 'a class variable is a field')
            if d is not MISSING:
                require(cls.__dict__[n] is d, 'a class variable is {}', cls.__dict__.get(n))
        else:
            f = cls._fields[n]
            require(f.owner is cls and f.name == n and getattr(cls, n) is f, 'field {} belongs to {}', n, f.owner)


def case(specs):
    desc = '; '.join(map(repr, specs))

    def fn():
        want = model(specs)
        if isinstance(want, str):
            good = []
            for s in specs:
                if s.name == want:
                    break
                good.append(s)
            pre = define(good)
            views = {k: view(c) for k, c in pre.items()}
            got = outcome(lambda: define(specs))
            require(not got.ok, 'the definition of {} is accepted', want)
            require(isinstance(got.exc, (TypeError, ValueError)), 'the definition {}', got)
            return
        classes, views = {}, {}
        for k in range(1, len(specs) + 1):
            pass
        got = outcome(lambda: define(specs))
        require(got.ok, 'the definition {}', got)
        for s in specs:
            check_class(got.value[s.name], want[s.name], s)
            # inherited fields are the very fields of the parents
            for p in s.parents:
                if p in got.value:
                    for n, f in got.value[p]._fields.items():
                        require(got.value[s.name]._fields[n] is f, 'the inherited field {} is another field', n)
    return Case(desc, fn)


def stepwise(specs):
    """defining a subclass never changes its parents"""
    desc = 'one by one: ' + '; '.join(map(repr, specs))

    def fn():
        out, views = {}, {}
        for s in specs:
            bases = tuple(out[p] for p in s.parents) or (RecordBase,)
            body = {'__module__': __name__, '__annotations__': {n: HINTS[k] for n, k, _ in s.own}, **{n: d for n, _, d in s.own if d is not MISSING}}
            got = outcome(lambda: types.new_class(s.name, bases, s.opts, lambda ns: ns.update(body)))
            if got.ok:
                out[s.name] = got.value
            for k, v in views.items():
                require(view(out[k]) == v, 'the definition of {} changed {}', s.name, k)
            if not got.ok:
                return
            views[s.name] = view(out[s.name])
    return Case(desc, fn)


def inherited_processing():
    log = []

    class P(RecordBase, default_type_check=check):
        a: int
        b: Annotated[int, CallValidation(lambda v: log.append(v) or v + 1)] = 5

    class C(P):
        c: int

    class S(P, default_type_check=check_strict):
        c: int = 0
    require(not outcome(lambda: C(a='x', c=0)).ok, 'the inherited check is lost')
    require(outcome(lambda: C(a=1, c='x')).ok, 'the check style is inherited')
    r = C(a=True, c=0, b=1)
    require(r.b == 2 and log == [1], 'inherited validators: {}', log)
    r = S(a=True)
    require(r.a is True and r.b == 5, 'the inherited check style {}', r)
    require(not outcome(lambda: S(a=1, c=True)).ok, 'the own check style')
    n = []

    class Hook(RecordBase, default_type_check=check):
        x: object

        @classmethod
        def pre_bind(cls):
            n.append(cls.__name__)
            if cls.__name__ == 'Hook':
                cls.x.add_validator(lambda v: (v,))

    class Sub(Hook):
        y: object = None
    require(n == ['Hook', 'Sub'] and Sub(x=1).x == (1,) and Hook(x=1).x == (1,), 'pre_bind {}', n)


def mixed_annotations():
    """own names are those annotated in the body, whatever was annotated elsewhere"""
    class A(RecordBase):
        x: int
        y = 5
        z: ClassVar[int] = 3
        def f(self): return 1
    require(list(A._fields) == ['x'] and A.y == 5 and A.z == 3, 'the fields are {}', list(A._fields))

    class Mix:
        m: int
        n: str = 'n'

    class B(A, Mix):
        w: int = 1
    require(list(B._fields) == ['x', 'w'], 'annotations of other bases became fields: {}', list(B._fields))
    b = B(x=1)
    require(b.x == 1 and b.w == 1 and b.n == 'n', 'the record is {}', b)

    class C(A):
        pass
    require(list(C._fields) == ['x'], 'a class without body {}', list(C._fields))
    require(not outcome(lambda: types.new_class('D', (RecordBase,), {}, lambda ns: None)).ok, 'a class without fields')
    require(not outcome(lambda: make_class('D', {'z': ClassVar[int]})).ok, 'a class with class variables only')
    require(not outcome(lambda: make_class('D', {'z': Final}, frozen=True)).ok, 'a raw Final')

    # an attribute of a base is a default of no field
    class Base:
        q = 7

    class E(RecordBase, Base):
        r: int
    require(required_of(E) == {'r'}, 'required {}', required_of(E))

    class E2(RecordBase, Base):
        r: int = 0
        q: int
    require(required_of(E2) == {'q'}, 'required {}', required_of(E2))
    # neither is an attribute of every record class or of the metaclass
    for name in ('mro', 'parse', 'from_json', 'post_new', 'register'):
        cls = make_class('E3', {name: int, 'r': annotated(int)}, unary_parse=False)
        require(required_of(cls) == {name, 'r'}, '{}: required {}', name, required_of(cls))

    # names annotated in a base, too, keep their place
    class CV(RecordBase):
        p: int
        x: ClassVar[int]

    class G(CV):
        a: int
        x: int = 5
    require(list(G._fields) == ['p', 'a', 'x'] and required_of(G) == {'p', 'a'}, 'the fields are {}', list(G._fields))

    class H(Mix, RecordBase):
        a: int
        n: str = ''
        m: int = 0
    require(list(H._fields) == ['a', 'n', 'm'] and required_of(H) == {'a'}, 'the fields are {}', list(H._fields))

    # self reference
    class Node(RecordBase):
        nxt: 'Optional[Node]' = None
        val: 'int' = 0
    require(list(Node._fields) == ['nxt', 'val'] and Node(nxt=Node()).nxt.nxt is None, 'self references')
    # diamonds declare the fields twice
    class L(A):
        l: int = 0

    class R(A):
        r: int = 0
    require(not outcome(lambda: types.new_class('LR', (L, R))).ok, 'a diamond')


def cases(tier, rng):
    yield Case('inherited processing', inherited_processing)
    yield Case('annotations elsewhere', mixed_annotations)
    M = MISSING
    for k in HINTS:
        for d in DEFAULTS:
            v = d()
            for o in ({}, {'frozen': True}, {'ordered': True}):
                yield case([Spec('A', (), [('x', k, v), ('y', 'object', M)], o)])
                yield case([Spec('A', (), [('x', k, v)], o)])
    O = 'object'
    P = [Spec('A', (), [('a', O, M), ('b', O, 1)]), Spec('B', (), [('c', O, M)], {'frozen': True, 'ordered': True}),
         Spec('D', (), [('a', O, 2)]), Spec('E', (), [('e', O, M)], {'unary_parse': True})]
    for parents in [p for k in (1, 2, 3) for p in itertools.permutations('ABDE', k)]:
        for own in ([], [('z', O, M)], [('a', O, M)], [('z', O, 1), ('y', O, M), ('x', 'ClassVar', 3)], [('b', 'ClassVar', 3)], [('e', O, 1)]):
            for o in ({}, {'frozen': True}, {'unary_parse': True}, {'unary_parse': False}):
                s = Spec('Z', parents, own, o)
                if any(n in ('b', 'a', 'e') and k in CLASSVARS for n, k, _ in own):
                    continue  # shadows an inherited field
                yield case(P + [s])
                yield stepwise(P + [s])
    for _ in range(1200 if tier == 'quick' else 20000):
        specs, names = [], []
        for c in 'ABCDE'[:rng.randrange(1, 6)]:
            parents = tuple(rng.sample(names, min(len(names), rng.choice((0, 0, 1, 1, 2)))))
            # base orders that python itself rejects are not of interest
            own = [(n, rng.choice((O, O, O, 'annotated', 'str', 'int', 'Final', 'Optional')), rng.choice(DEFAULTS)() if rng.random() < .5 else M)
                   for n in rng.sample('stuvwxyz', rng.randrange(0, 4))]
            o = {}
            if rng.random() < .4:
                o['frozen'] = rng.random() < .8
            if rng.random() < .3:
                o['ordered'] = rng.random() < .8
            if rng.random() < .3:
                o['unary_parse'] = rng.random() < .5
            if rng.random() < .1:
                o['default_type_check'] = check
                own = [(n, O if k in ('int', 'Optional') else k, d) for n, k, d in own]
            specs.append(Spec(c, parents, own, o))
            try:
                types.new_class('probe', tuple(type('K' + p, (), {}) for p in parents))
            except TypeError:
                break
            names.append(c)
        ok = []
        for s in specs:
            # parents that are ancestors of one another or share one are rejected for their fields or by python
            ok.append(s)
        yield case(ok)
        yield stepwise(ok)
