"""C05: Union hints."""
import itertools
from typing import Optional, Union, List, Any

from records import CallCoercion, CallValidation, check, check_strict, hollow
from .common import *
from . import reentry


class Base:
    pass


class T0(Base):
    pass


class T1(Base):
    pass


class T2(Base):
    pass


class Sub0(T0):
    pass


class Both(T0, T1):
    pass


class EqualToAll:
    def __eq__(self, o): return True
    def __hash__(self): return 0


class Falsy(T0):
    def __bool__(self): return False


class MemberError(Exception):
    pass


TYPES = {'T0': T0, 'T1': T1, 'Base': Base, 'Sub0': Sub0, 'Both': Both, 'object': object, 'Eq': EqualToAll}
VALUES = {'T0': T0, 'T1': T1, 'T2': T2, 'Sub0': Sub0, 'Both': Both, 'Base': Base, 'Falsy': Falsy, 'None': lambda: None, 'int': lambda: 0,
          'Eq': EqualToAll}
STYLES = {'hollow': hollow, 'check': check, 'strict': check_strict}


class Member:
    """type, style, coercers: list of result names or '!', validator: None, 'same', '!', 'new'"""
    def __init__(self, tp, style, coercers=(), validator=None):
        self.tp, self.style, self.coercers, self.validator = tp, style, tuple(coercers), validator

    def __repr__(self): return f'({self.tp} {self.style}' + (f' coercers {list(self.coercers)}' if self.coercers else '') + \
        (f' validator {self.validator}' if self.validator else '') + ')'

    def start(self, shared):
        self.log, self.errors, self.shared, self.made = [], [], shared, {}

    def result(self, what, v, k):
        if what == '!':
            e = MemberError(self.n, k)
            self.errors.append(e)
            raise e
        if what == 'same':
            return v
        if what == 'shared':
            return self.shared
        key = k, id(v)
        if key not in self.made:
            self.made[key] = (VALUES[what](), v)
        return self.made[key][0]

    def hint(self, n):
        self.n = n
        tokens = [STYLES[self.style]]
        for k, c in enumerate(self.coercers):
            def coerce(v, c=c, k=k):
                self.log.append(('c', k, v))
                return self.result(c, v, k)
            tokens.append(CallCoercion(coerce))
        if self.validator:
            def validate(v):
                self.log.append(('v', v))
                return self.result(self.validator, v, 'v')
            tokens.append(CallValidation(validate))
        return annotated(TYPES[self.tp], *tokens)

    def accepts(self, v):
        return type(v) is TYPES[self.tp] if self.style == 'strict' else isinstance(v, TYPES[self.tp])

    def kind(self, v):
        """what the member makes of v, read off the declaration: ('fail',) or (rank, value)"""
        if self.style == 'hollow':
            rank = 3
        elif type(v) is TYPES[self.tp]:
            rank = 0
        elif self.accepts(v):
            rank = 1
        else:
            rank = 2
            for k, c in enumerate(self.coercers):
                try:
                    r = self.result(c, v, k)
                except MemberError:
                    continue
                if self.accepts(r):
                    v = r
                    break
            else:
                return None
        if self.validator:
            try:
                v = self.result(self.validator, v, 'v')
            except MemberError:
                return None
        return rank, v


def case(members, inputs, how='Union'):
    desc = f'x: {how} of {members}, given {list(inputs)}'
    if len({(m.tp, m.style, m.coercers, m.validator) for m in members}) < len(members) or not members:
        return None

    def fn():
        hints = tuple(m.hint(n) for n, m in enumerate(members))
        hint = Union[hints]
        opt = how == 'Optional'
        if opt:
            hint = Optional[hint]
        elif how == 'List':
            hint = annotated(List[hint], check)
        R = make_class('R', {'x': hint}, default_type_check=check)
        ms = members + [None] if opt else members
        if len(ms) == 1:
            return
        for i in inputs:
            v = VALUES[i]()
            shared = T0()
            for m in members:
                m.start(shared)
            got = outcome(R, x=[v] if how == 'List' else v)
            want = [((0, v) if v is None else None) if m is None else m.kind(v) for m in ms]
            if all(m is not None and m.style == 'hollow' and not m.validator for m in ms):
                require(not any(m.log for m in members), 'a member of an unchecked Union was run')
                require(got.ok, 'construction {}', got)
                r = got.value.x
                require(r is v, 'stored {}', r)
                continue
            ok = [w for w in want if w is not None]
            if not ok:
                require(not got.ok, 'no member accepts {}, but construction {}', i, got)
                last = members[-1]
                cause = got.exc.__cause__
                if not opt:
                    # the error of the last member
                    if last.coercers and last.coercers[-1] == '!' and not any(e for e in last.log if e[0] == 'v'):
                        require(isinstance(cause, MemberError) and cause.args == (last.n, len(last.coercers) - 1), 'the cause is {!r}', cause)
                    elif any(e for e in last.log if e[0] == 'v'):
                        require(isinstance(cause, MemberError) and cause.args == (last.n, 'v'), 'the cause is {!r}', cause)
                    else:
                        require(type(cause) is TypeError, 'the cause is {!r}', cause)
                continue
            best = min(r for r, _ in ok)
            vals = [x for r, x in ok if r == best]
            if any(x is not vals[0] for x in vals):
                require(not got.ok and type(got.exc.__cause__) is ValueError, 'with {} the best members give {}, but construction {}', i, vals, got)
                continue
            require(got.ok, 'with {} the only best result is {}, but construction {}', i, vals[0], got)
            r = got.value.x
            if how == 'List':
                require(len(r) == 1, 'stored {}', r)
                r = r[0]
            require(r is vals[0], 'with {} stored {} and not {}', i, r, vals[0])
    return Case(desc, fn)


def hollow_union(types):
    def fn():
        for hint in (Union[tuple(annotated(TYPES[t], hollow) for t in types)], annotated(Union[tuple(TYPES[t] for t in types)], hollow)):
            for kw in ({}, {'default_type_check': check}):
                R = make_class('R', {'x': hint}, **kw)
                for i in VALUES:
                    v = VALUES[i]()
                    require(outcome(R, x=v).ok and R(x=v).x is v, '{} is not stored', i)
        R = make_class('R', {'x': Union[tuple(TYPES[t] for t in types)]})
        v = Token('v')
        require(R(x=v).x is v, 'stored another')
    return Case(f'x: unchecked Union of {types}', fn)


def outer_tokens(types, style, nest):
    """tokens around the Union apply to all members"""
    def fn():
        log = []

        def coerce(v):
            log.append(('c', v))
            return made

        def validate(v):
            log.append(('v', v))
            if isinstance(v, Falsy):
                raise LookupError
            return v
        made = T0()
        tokens = [STYLES[style], CallCoercion(coerce), CallValidation(validate)]
        if nest == 'split':
            hint = annotated(annotated(Union[tuple(TYPES[t] for t in types)], *tokens[:1]), *tokens[1:])
        elif nest == 'Optional':
            hint = annotated(Optional[Union[tuple(TYPES[t] for t in types)]], *tokens)
        elif nest == 'pre_bind':
            hint = annotated(Union[tuple(TYPES[t] for t in types)], *tokens[:1])
        else:
            hint = annotated(Union[tuple(TYPES[t] for t in types)], *tokens)
        body = {}
        if nest == 'pre_bind':
            def pre_bind(cls):
                cls.x.add_coercer(coerce)
                cls.x.add_validator(validate)
            body['pre_bind'] = classmethod(pre_bind)
        R = make_class('R', {'x': hint}, body=body)
        all_types = [TYPES[t] for t in types] + ([type(None)] if nest == 'Optional' else [])
        for i in list(VALUES):
            v = VALUES[i]()
            del log[:]
            got = outcome(R, x=v)
            ranks = []
            for t in all_types:
                acc = (lambda x: type(x) is t) if style == 'strict' else (lambda x: isinstance(x, t))
                if type(v) is t:
                    ranks.append((0, v))
                elif acc(v):
                    ranks.append((1, v))
                elif acc(made):
                    ranks.append((2, made))
            n_co = sum(1 for k, _ in log if k == 'c')
            ranks = [(k, x) for k, x in ranks if not isinstance(x, Falsy)]
            if not ranks:
                require(not got.ok, 'given {} construction {}', i, got)
                continue
            require(got.ok and got.value.x is min(ranks, key=lambda r: r[0])[1], 'given {} construction {}', i, got)
            require(sum(1 for k, _ in log if k == 'v') >= len(ranks), 'the validator ran for too few members: {}', log)
    return Case(f'x: Union of {types} with {style}, a coercer and a validator around it ({nest})', fn)


def cases(tier, rng):
    yield from reentry.container_cases(reentry.HOLDERS, ['optional', 'union'])
    singles = [Member(t, s) for t in ('T0', 'T1', 'Base', 'object') for s in STYLES] + \
        [Member(t, s, c, v) for t in ('T0', 'T1') for s in ('check', 'strict')
         for c, v in [(('T0',), None), (('T1',), 'same'), (('!',), None), (('shared',), None), (('T2', 'T1'), None), ((), '!'), ((), 'shared'),
                      (('Falsy',), None), ((), 'T2'), ((), 'None'), ((), 'Eq')]] + \
        [Member('T0', 'hollow', (), v) for v in ('same', '!', 'shared', 'int')]

    import copy
    for a, b in itertools.product(singles, singles):
        c = case([copy.copy(a), copy.copy(b)], VALUES, 'Union')
        if c:
            yield c
    for types in (('T0', 'T1'), ('T0', 'Base'), ('Base', 'object', 'T1'), ('Sub0', 'T0', 'Base')):
        yield hollow_union(types)
        for style in ('check', 'strict'):
            for nest in ('around', 'split', 'Optional', 'pre_bind'):
                yield outer_tokens(types, style, nest)

    def rand():
        s = rng.choice(['check', 'check', 'strict', 'strict', 'hollow'])
        cs = [rng.choice(['T0', 'T1', 'Both', 'shared', '!', 'int', 'Sub0']) for _ in range(rng.randrange(3))] if s != 'hollow' else []
        return Member(rng.choice(list(TYPES)), s, cs, rng.choice([None, None, 'same', '!', 'shared', 'T2', 'Eq', 'None']))
    for _ in range(2500 if tier == 'quick' else 40000):
        c = case([rand() for _ in range(rng.choice((2, 3, 3, 4)))], VALUES, rng.choice(('Union', 'Union', 'Optional', 'List')))
        if c:
            yield c
