"""C06: construction from keywords."""
import itertools

from records import RecordBase, Annotated, Factory, CallCoercion, CallValidation, check
from .common import *
from . import reentry


class Plain(Exception):
    pass


class Odd(Exception):
    def __init__(self, a, b): super().__init__(a, b)


class Picky(Exception):
    """rejects messages, with an error of another kind"""
    def __init__(self, a):
        super().__init__(a)
        if isinstance(a, str):
            raise KeyError('no strings')


class KwOnly(Exception):
    def __init__(self, *, code): super().__init__(code)


class SubV(ValueError):
    pass


ERRORS = {'Plain': (lambda: Plain('x'), Plain), 'Odd': (lambda: Odd(1, 2), ValueError), 'Picky': (lambda: Picky(3), ValueError),
          'KwOnly': (lambda: KwOnly(code=1), ValueError), 'SubV': (lambda: SubV('z'), SubV), 'KeyError': (lambda: KeyError('k'), KeyError),
          'Stop': (lambda: StopIteration(1), StopIteration), 'Unicode': (lambda: UnicodeDecodeError('utf-8', b'', 0, 1, 'r'), ValueError),
          'TypeError': (lambda: TypeError('t'), TypeError), 'Assertion': (lambda: AssertionError(), AssertionError)}

# what a field is declared as: how it processes and what its default is
PROCESS = ['hollow', 'map', 'identity', *('!' + e for e in ERRORS)]
DEFAULTS = ['none', 'value', 'None', 'falsy', 'factory', 'factory!', 'list', 'factory None', 'unprocessed']


class Boom(Exception):
    pass


class Spec:
    """one field"""
    def __init__(self, name, process, default): self.name, self.process, self.default = name, process, default
    def __repr__(self): return f'{self.name}: {self.process}' + ('' if self.default == 'none' else f' = {self.default}')

    def start(self):
        self.given, self.made, self.raised, self.calls = [], [], [], 0

    def declare(self):
        self.start()

        def process(v):
            self.given.append(v)
            if self.process == 'map':
                r = Token(f'filled {self.name}')
                self.made.append(r)
                return r
            if self.process.startswith('!'):
                e = ERRORS[self.process[1:]][0]()
                self.raised.append(e)
                raise e
            return v
        hint = int if self.process == 'hollow' else annotated(int, CallValidation(process))

        def factory():
            self.calls += 1
            if self.default == 'factory!':
                raise Boom(self.name)
            r = None if self.default == 'factory None' else Token(f'made {self.name}')
            self.made.append(r)
            return r
        self.dv = {'value': Token('default'), 'None': None, 'falsy': 0, 'list': [], 'unprocessed': 'not an int'}.get(self.default)
        if self.default == 'none':
            return hint
        return D(hint, Factory(factory) if self.default.startswith('factory') else self.dv)

    def default_ok(self, v):
        if self.default == 'factory None':
            return v is None and self.calls == 1
        if self.default.startswith('factory'):
            return len(self.made) == 1 and v is self.made[0] and self.calls == 1
        return v is self.dv


class FalsyBody:
    def __bool__(self): return False


HOOKS = ['absent', 'None', 'self', 'other', 'raise', 'falsy other', 'set']


def case(specs, split, given, hook, class_kw):
    """split: how many of the fields are in the parent; given: field names (and others) given"""
    desc = f'fields {specs} ({split} inherited, {class_kw}), post_new {hook}, given {list(given)}'

    def fn():
        log = []
        state = {}

        def post_new(self):
            log.append(dict(vars(self)))
            if hook == 'raise':
                raise state.setdefault('error', Boom('hook'))
            if hook == 'self':
                return self
            if hook in ('other', 'falsy other'):
                return state['other']
            if hook == 'set':
                self.__dict__[specs[0].name] = 'set by the hook'
        body = {} if hook == 'absent' else {'post_new': post_new}
        if hook == 'falsy other':
            body['__bool__'] = lambda self: False
        decl = [(s.name, s.declare()) for s in specs]
        if split:
            P = make_class('P', dict(decl[:split]), **class_kw)
            R = make_class('R', dict(decl[split:]), (P,), body, **class_kw)
        else:
            R = make_class('R', dict(decl), None, body, **class_kw)
        for turn in range(2):
            for s in specs:
                s.start()
            del log[:]
            state.clear()
            if hook in ('other', 'falsy other'):
                state['other'] = object.__new__(R)
            # (the second time, the very objects that are their defaults where there are any)
            values = {n: next((s.dv for s in specs if turn and s.name == n and s.default not in ('none', 'factory', 'factory!', 'factory None')
                               ), None) or Token(f'given {n}') for n in given}
            kwargs = dict(values)
            got = outcome(R, **kwargs)
            require(same(kwargs.values(), values.values()), 'the arguments were modified')
            names = {s.name for s in specs}
            extra = [n for n in given if n not in names]
            missing = [s for s in specs if s.default == 'none' and s.name not in given]
            failing = [s for s in specs if s.name in given and s.process.startswith('!')]
            bad_defaults = [s for s in specs if s.name not in given and s.default == 'factory!']
            for s in specs:
                require(len(s.given) <= (1 if s.name in given else 0), '{} processed {} times', s.name, len(s.given))
                require(all(v is values[s.name] for v in s.given), '{} was given {}', s.name, s.given)
                require(s.calls <= (0 if s.name in given else 1), 'the default of {} was made {} times', s.name, s.calls)
            if extra or missing or failing or bad_defaults:
                require(not got.ok, 'construction {}', got)
                require(not log, 'the hook ran')
                if failing and not extra:
                    s = [s for s in failing if s.raised]
                    if s:
                        require(len(s) == 1, 'fields went on being processed after an error: {}', s)
                        s = s[0]
                        require(got.exc.__cause__ is s.raised[0], 'the cause of {!r} is {!r}', got.exc, got.exc.__cause__)
                        require(type(got.exc) is ERRORS[s.process[1:]][1], 'construction {}', got)
                        require(s.name in str(got.exc), 'the message {!r} does not name the field {}', str(got.exc), s.name)
                    else:
                        require(missing, 'no field failed, yet construction {}', got)
                if not failing and not bad_defaults and (extra or missing):
                    require(isinstance(got.exc, TypeError), 'construction {}', got)
                if bad_defaults and not (extra or missing or failing):
                    require(type(got.exc) is Boom and got.exc.args[0] in [s.name for s in bad_defaults], 'construction {}', got)
                continue
            if hook == 'absent':
                require(got.ok, 'construction {}', got)
            else:
                require(len(log) == 1, 'the hook ran {} times', len(log))
            stored = attrs(got.value) if hook == 'absent' else log[0]
            stored.pop('_hash', None)
            require(stored.keys() == names, 'the attributes are {}', sorted(stored))
            for s in specs:
                v = stored[s.name]
                if s.name not in given:
                    require(s.default_ok(v), '{} holds {} by default', s.name, show(v))
                elif s.process == 'hollow':
                    require(v is values[s.name], '{} holds {}', s.name, v)
                else:
                    require(len(s.given) == 1, '{} was processed {} times', s.name, len(s.given))
                    require(v is (s.made[0] if s.process == 'map' else values[s.name]), '{} holds {}', s.name, v)
            if hook == 'raise':
                require(not got.ok and got.exc is state['error'], 'the hook failed, and construction {}', got)
                continue
            require(got.ok, 'construction {}', got)
            if hook in ('other', 'falsy other'):
                require(got.value is state['other'], 'the record is not what the hook returned')
            else:
                require(type(got.value) is R, 'constructed {}', got.value)
                if hook == 'set':
                    require(getattr(got.value, specs[0].name) == 'set by the hook', 'the record changed after the hook')
                for s in specs[1 if hook == 'set' else 0:]:
                    require(getattr(got.value, s.name) is stored[s.name], 'attribute {}', s.name)
    return Case(desc, fn)


def name_case(name):
    def fn():
        R = make_class('R', {name: int, 'other_': D(int, 3)})
        r = outcome(lambda: R(**{name: 5}))
        require(r.ok and getattr(r.value, name) == 5 and r.value.other_ == 3, 'R({}=5) {}', name, r)
        P = make_class('P', {'a': int, 'b': int, name: D(int, 3)})
        r = outcome(lambda: P(a=1, b=2, **{name: 5}))
        require(r.ok and attrs(r.value) == {'a': 1, 'b': 2, name: 5}, 'P(a=1, b=2, {}=5) {}', name, r)
    return Case(f'a field named {name}', fn, key=f'name-{name}' if name in ('arg', 'cls', 'self') else None)


def cases(tier, rng):
    yield Case('processing within processing', reentry.processing)
    for n in ('x', 'arg', 'cls', 'self', 'kwargs', 'args', 'v', 'values', 'maps', 'k', 'owner', 'instance', 'select', 'default', 'name', 'io'):
        yield name_case(n)
    for p in PROCESS:
        for d in DEFAULTS:
            for hook in HOOKS:
                for given in ((), ('a',), ('a', 'z'), ('z',)):
                    yield case([Spec('a', p, d)], 0, given, hook, {})
    kws = [{}, {'frozen': True}, {'ordered': True}, {'unary_parse': True}, {'unary_parse': False}, {'default_type_check': check}]
    for _ in range(3000 if tier == 'quick' else 60000):
        n = rng.randrange(1, 5)
        specs = [Spec('abcd'[i], rng.choice(PROCESS[:3] if rng.random() < .8 else PROCESS), rng.choice(DEFAULTS[:1] * 6 + DEFAULTS)) for i in range(n)]
        given = [s.name for s in specs if rng.random() < (.95 if s.default == 'none' else .5)] + (['zz'] if rng.random() < .05 else [])
        rng.shuffle(given)
        kw = dict(rng.choice(kws))
        if 'default_type_check' in kw:
            for s in specs:
                if s.process == 'hollow':
                    s.process = 'identity'
            kw = {}
        hook = rng.choice(HOOKS)
        if kw.get('frozen') and hook in ('set',):
            hook = 'None'
        split = rng.randrange(n)
        yield case(specs, split, given, hook, kw)
