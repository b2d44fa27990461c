"""C02: which values a checked field accepts."""
import abc
import collections.abc
import enum
import numbers
from typing import Any, Callable, Literal, NewType, Type

from records import CallCoercion, CallValidation, check, check_strict, hollow
from .common import *


class A:
    pass


class B(A):
    pass


class C(B):
    pass


class EqA:
    """equal to everything"""
    def __eq__(self, o): return True
    def __hash__(self): return 1


class Abs(abc.ABC):
    @abc.abstractmethod
    def f(self): ...


class Impl(Abs):
    def f(self): ...


class Reg:
    """a virtual subclass of Abs"""


Abs.register(Reg)


class Meta(type):
    pass


class M(metaclass=Meta):
    pass


class Falsy(A):
    def __bool__(self): return False


class MyInt(int):
    pass


class MyStr(str):
    pass


class Col(enum.Enum):
    a = 1
    b = 'x'


class CallMe:
    def __call__(self): ...


class FakeClass:
    """claims another class"""
    __class__ = A


VALUES = [None, ..., 0, 1, True, False, 1.0, 0.0, 'a', '', MyStr('a'), b'a', MyInt(1), MyInt(0), 1j, (), (1,), [], {}, set(), A(), B(),
          C(), Falsy(), EqA(), Impl(), Reg(), M(), CallMe(), len, lambda: 0, A, B, C, M, int, bool, str, type, Meta, object, object(),
          Col.a, Col.b, NotImplemented, FakeClass(), abs, [].append, Abs, Impl, Reg, float]


def instance(t):
    return lambda v: ('exact' if type(v) == t else 'inexact' if isinstance(v, t) else None)


def identical(x):
    return lambda v: 'exact' if v is x else None


def literal(*values):
    def f(v):
        return 'exact' if any(type(v) is type(x) and v == x for x in values) else 'odd'
    return f


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def subclass(t):
    # the stored type is type: a metaclass instance is an inexact match
    def f(v):
        if not isinstance(v, type) or not issubclass(v, t):
            return None
        return 'exact' if type(v) is type else 'inexact'
    return f


NT = NewType('NT', A)
HINTS = {
    'A': (A, instance(A)), 'B': (B, instance(B)), 'int': (int, instance(int)), 'bool': (bool, instance(bool)),
    'str': (str, instance(str)), 'object': (object, instance(object)), 'Any': (Any, instance(object)),
    'float': (float, instance(float)), 'tuple': (tuple, instance(tuple)), 'list': (list, instance(list)), 'type': (type, instance(type)),
    'Abs': (Abs, instance(Abs)), 'Real': (numbers.Real, instance(numbers.Real)), 'Number': (numbers.Number, instance(numbers.Number)), 'M': (M, instance(M)),
    'Sized': (collections.abc.Sized, instance(collections.abc.Sized)), 'NewType': (NT, instance(A)),
    'Col': (Col, instance(Col)), 'EqA': (EqA, instance(EqA)), 'bytes': (bytes, instance(bytes)),
    'None': (None, identical(None)), 'NoneType': (type(None), identical(None)), 'ellipsis': (type(...), identical(...)),
    'Callable': (Callable, lambda v: 'exact' if callable(v) else None),
    'Callable[[int], str]': (Callable[[int], str], lambda v: 'exact' if callable(v) else None),
    'callable': (callable, lambda v: 'exact' if callable(v) else None),
    'Literal[1]': (Literal[1], literal(1)), 'Literal[True, "a"]': (Literal[True, 'a'], literal(True, 'a')),
    'Literal[0, None]': (Literal[0, None], literal(0, None)), "Literal[Col.a, '']": (Literal[Col.a, ''], literal(Col.a, '')),
    'Literal[1, True, b"a"]': (Literal[1, True, b'a'], literal(1, True, b'a')),
    'Type[A]': (Type[A], subclass(A)), 'Type[B]': (Type[B], subclass(B)), 'type[int]': (type[int], subclass(int)),
    'Type[Abs]': (Type[Abs], subclass(Abs)), 'Type[M]': (Type[M], subclass(M)), 'Type[object]': (Type[object], subclass(object)),
    'Type': (Type, instance(type)),
}
ABSTRACT = {'Abs', 'Real', 'Sized'}
STYLES = {'check': check, 'check_strict': check_strict}


def ok(style, kind):
    return kind == 'exact' or (kind == 'inexact' and style == 'check')


def case(style, how, name, via):
    hint, rule = HINTS[name]
    desc = f'x: {name}, {style} ({how}), ' + {'direct': 'given each value', 'coerced': 'a coercer returning each value',
                                              'second': 'coercers returning a wrong value and then each value'}[via]

    def fn():
        box = []
        marker = Token('input')

        def give(v):
            return box[0]

        def wrong(v):
            return marker
        tokens = [] if via == 'direct' else [CallCoercion(give)] if via == 'coerced' else [CallCoercion(wrong), CallCoercion(give)]
        kw = {}
        if how == 'token':
            tokens.append(STYLES[style])
        else:
            kw['default_type_check'] = STYLES[style]
        made = outcome(make_class, 'R', {'x': annotated(hint, *tokens)}, **kw)
        if name in ABSTRACT and style == 'check_strict':
            require(not made.ok, 'a strict style on an abstract class was accepted')
            return
        require(made.ok, 'the class definition {}', made)
        for v in VALUES:
            got0 = None
            if via == 'direct':
                got = outcome(made.value, x=v)
                kind = rule(v)
            else:
                box[:] = [v]
                src = marker
                if ok(style, rule(marker)):
                    return    # everything is accepted: coercers never run
                got = outcome(made.value, x=src)
                kind = rule(v)
            good = ok(style, kind)
            if good:
                require(got.ok and got.value.x is v, '{} is accepted by the rule, but construction {}', show(v), got)
            else:
                require(not got.ok, '{} ({}) is not accepted by the rule, but construction {}', show(v), type(v).__name__, got)
    return Case(desc, fn)


def history(style, name):
    '''what a validator made of earlier values does not change which values are accepted'''
    hint, _ = HINTS[name]

    def fn():
        def new():
            box, ran = [], []

            def poison(v):
                return box[0] if box else v

            def coerce(v):
                ran.append(v)
                raise ValueError
            made = outcome(make_class, 'R', {'x': annotated(hint, STYLES[style], CallCoercion(coerce), CallValidation(poison))})
            return made, box, ran
        used, box, ran = new()
        fresh, _, ran2 = new()
        require(used.ok == fresh.ok, 'the class definition {}', used)
        if not used.ok:
            return
        for v in VALUES:
            for w in (1, 'a', True, None, A(), int):
                box[:] = [v]
                outcome(used.value, x=w)
        box.clear()
        for v in VALUES:
            ran.clear(), ran2.clear()
            a, b = outcome(used.value, x=v), outcome(fresh.value, x=v)
            require(a.ok == b.ok and len(ran) == len(ran2), 'given {} it {} after {} calls of the coercer, but a class that '
                    'was given nothing before {} after {}', show(v), a, len(ran), b, len(ran2))
    return Case(f'x: {name}, {style}, after validators that returned other values', fn)


def rejects(desc, hint, **kw):
    def fn():
        made = outcome(make_class, 'R', {'x': hint}, **kw)
        require(not made.ok, 'the class definition was accepted')
    return Case(f'{desc} is rejected at class definition', fn)


def accepts(desc, hint, **kw):
    def fn():
        made = outcome(make_class, 'R', {'x': hint}, **kw)
        require(made.ok, 'the class definition {}', made)
    return Case(f'{desc} is accepted at class definition', fn)


def cases(tier, rng):
    for style in STYLES:
        for how in ('token', 'default'):
            for name in HINTS:
                for via in ('direct', 'coerced', 'second'):
                    yield case(style, how, name, via)
    for style in STYLES:
        for name in HINTS:
            yield history(style, name)
    co = CallCoercion(lambda v: v)
    for name, (hint, _) in HINTS.items():
        yield rejects(f'{name}, hollow, with a coercer', annotated(hint, co, hollow))
        yield rejects(f'{name}, a coercer, default style hollow', annotated(hint, co))
        yield rejects(f'{name}, check then hollow, with a coercer', annotated(hint, check, co, hollow))
        yield rejects(f'{name}, hollow token over a checking default, with a coercer', annotated(hint, hollow, co),
                      default_type_check=check)
        yield accepts(f'{name}, hollow then check, with a coercer', annotated(hint, hollow, co, check))
        if name in ABSTRACT:
            yield rejects(f'{name}, strict by a token after check', annotated(hint, check, check_strict))
            yield rejects(f'{name}, strict by a default, with a coercer', annotated(hint, co), default_type_check=check_strict)
            yield accepts(f'{name}, strict and then check', annotated(hint, check_strict, check))
            yield accepts(f'{name}, check over a strict default', annotated(hint, check), default_type_check=check_strict)
    # the style in effect is the last one
    for name in ('A', 'int', 'Type[A]', 'Callable'):
        for s1 in STYLES.values():
            for s2 in STYLES.values():
                hint, rule = HINTS[name]

                def fn(hint=hint, rule=rule, s1=s1, s2=s2):
                    R = make_class('R', {'x': annotated(hint, s1, s2)}, default_type_check=hollow)
                    for v in VALUES:
                        good = ok('check' if s2 is check else 'check_strict', rule(v))
                        require(outcome(R, x=v).ok == good, '{} under {}', show(v), s2)
                yield Case(f'{name} with styles {s1} then {s2}', fn)
