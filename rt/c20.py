"""C20: the built-in coercers, against an independent reading of the documentation."""
import collections
import decimal
from fractions import Fraction

from records import (CallCoercion, CallValidation, ClassMethodCoercion, ComposeCoercer, Falsish, FromInteger, Loose,
                     LooseUnpack, LooseUnpackMap, MapCoercion, Whole)
from .common import *


class Boom(Exception):
    pass


class Target:
    """records how it is built"""
    calls = []

    def __init__(self, *args, **kwargs):
        Target.calls.append((args, kwargs))
        if any(a == 'boom' for a in args) or 'boom' in kwargs:
            raise Boom
        self.args, self.kwargs = args, kwargs

    @classmethod
    def make(cls, *args, **kwargs): return cls('made', *args, **kwargs)

    def __repr__(self): return f'Target({self.args}, {self.kwargs})'


class Sub(Target):
    pass


def field(hint, *tokens):
    """a function that puts a value through a field"""
    cls = make_class('R', {'x': annotated(hint, *tokens)}, unary_parse=False)
    return lambda v: cls(x=v).x


def coerced(f, v):
    """(outcome, calls of the target's constructor)"""
    Target.calls.clear()
    o = outcome(f, v)
    return o, list(Target.calls)


def expect_build(f, v, args, kwargs, what=Target):
    for _ in range(2):
        o, calls = coerced(f, v)
        fails = any(isinstance(a, str) and a == 'boom' for a in args) or 'boom' in kwargs
        require(len(calls) == 1, '{}: the target was built {} times', show(v), len(calls))
        require(same(calls[0][0], args), '{}: built with {} instead of {}', show(v), calls[0][0], args)
        require(list(calls[0][1]) == list(kwargs) and same(calls[0][1].values(), kwargs.values()),
                '{}: built with {} instead of {}', show(v), calls[0][1], kwargs)
        require(o.ok != fails, '{}: {}', show(v), o)
        if o.ok:
            require(type(o.value) is what and same(o.value.args, args), '{} became {}', show(v), o)


def expect_reject(f, v, calls_allowed=0):
    o, calls = coerced(f, v)
    require(not o.ok, '{} should be rejected: {}', show(v), o)
    require(len(calls) <= calls_allowed, '{} should be rejected without building the target: {}', show(v), calls)


EXTRAS = [((), {}), ((1,), {}), ((None, 'x'), {}), ((), {'a': 0}), ((2, ()), {'a': None, 'b': False})]
VALUES = [None, 0, 1, '', 'a', 'boom', [], [1, 2], (), (1,), {}, {'a': 1}, 1.5, False, True, b'x', {1}, frozenset(),
          object()]
BUILT = [((), {}), ((7,), {}), ((None,), {'k': 0}), ((), {'zz': ()})]


class Falsy:
    def __bool__(self): return False
    def __repr__(self): return 'Falsy()'


class Truthless:
    def __bool__(self): raise Boom
    def __repr__(self): return 'Truthless()'


def call_case(ex, as_validator):
    args, kwargs = ex

    def fn():
        seen = []

        def func(*a, **k):
            seen.append((a, k))
            if a[0] == 'boom':
                raise Boom
            return Target(*a, **k)
        if as_validator:
            f = field(object, CallValidation(func, *args, **kwargs))
        else:
            f = field(Target, CheckStyle.check, CallCoercion(func, *args, **kwargs))
        for v in VALUES:
            seen.clear()
            o = outcome(f, v)
            require(len(seen) == 1 and same(seen[0][0], (v, *args)) and seen[0][1] == kwargs,
                    '{}: called with {}', show(v), seen)
            require(o.ok == (v != 'boom'), '{}: {}', show(v), o)
            if o.ok:
                require(isinstance(o.value, Target) and same(o.value.args, (v, *args)), '{} became {}', show(v), o)
    return Case(f'{"CallValidation" if as_validator else "CallCoercion"} with {args} {kwargs}', fn)


def method_case(ex, cls):
    args, kwargs = ex

    def fn():
        f = field(cls, CheckStyle.check, ClassMethodCoercion('make', *args, **kwargs))
        for v in VALUES:
            expect_build(f, v, ('made', v, *args), kwargs, cls)
    return Case(f'ClassMethodCoercion on {cls.__name__} with {args} {kwargs}', fn)


def missing_method_case():
    def fn():
        o = outcome(lambda: field(Target, CheckStyle.check, ClassMethodCoercion('nope'))(1))
        require(not o.ok, 'a missing method gives {}', o)
    return Case('ClassMethodCoercion of a missing method', fn)


def compose_case(n, failing, kinds):
    def fn():
        log = []

        def part(k):
            def func(v):
                log.append((k, v))
                if k == failing:
                    raise Boom
                return (k, v)
            return func

        class AsClass(CallCoercion):
            def __init__(self): super().__init__(part(0))
        tokens = [AsClass if kinds == 'class' and k == 0 else CallCoercion(part(k)) for k in range(n)]
        f = field(tuple, CheckStyle.check, ComposeCoercer(*tokens))
        for v in ('x', None, 0, [1]):
            for _ in range(2):
                log.clear()
                o = outcome(f, v)
                want, expected, good = v, [], True
                for k in reversed(range(n)):
                    expected.append((k, want))
                    if k == failing:
                        good = False
                        break
                    want = (k, want)
                require([k for k, _ in log] == [k for k, _ in expected], '{}: the parts were called in order {}',
                        show(v), log)
                require(log == expected, '{}: the parts were given {}', show(v), log)
                require(o.ok == (good and n > 0), '{}: {}', show(v), o)
                require(not o.ok or o.value == want, '{} became {}', show(v), o)
    return Case(f'ComposeCoercer of {n} parts, part {failing} failing ({kinds})', fn)


class ReadOnly(collections.abc.Mapping):
    def __init__(self, d): self.d = d
    def __getitem__(self, k): return self.d[k]
    def __iter__(self): return iter(self.d)
    def __len__(self): return len(self.d)


class MakesUp(dict):
    """makes up what is missing, and keeps it"""
    def __missing__(self, k):
        self[k] = x = Target('made up') if not self or not callable(next(iter(self.values()))) else lambda: Target('made up')
        return x


def map_case(vk, fk, wrap, how):
    def fn():
        made = []

        def factory(k):
            def make():
                made.append(k)
                if k == 3:
                    raise Boom
                return Target(k)
            return make
        values = {k: Target('v', k) for k in vk}
        if how == 'falsy':
            values = {k: x for k, x in zip(vk, (0, '', None, False))}
        facs = {k: factory(k) for k in fk}
        kw = {}
        if vk is not None:
            kw['value_map'] = wrap(values)
        if fk is not None:
            kw['factory_map'] = wrap(facs)
        lens = {n: len(m) for n, m in kw.items()}
        cls = Target if how != 'falsy' else (int, str, type(None), bool, Target)
        target = object if how == 'falsy' else Target
        f = (MapCoercion(**kw)(object, None)) if how == 'falsy' else field(target, CheckStyle.check, MapCoercion(**kw))
        for k in (0, 1, 2, 3, 4, None, 'x', True, 1.0, (), []):
            for _ in range(2):
                made.clear()
                o = outcome(f, k)
                try:
                    in_v, in_f = k in values, k in facs
                except TypeError:
                    require(not o.ok and not made, '{}: {}', k, o)
                    continue
                if in_v:
                    require(o.ok and o.value is values[k], '{} is mapped to {}: {}', k, values[k], o)
                    require(not made, '{}: a factory was called', k)
                elif in_f:
                    require(made == [{True: 1, 1.0: 1}.get(k, k)], '{}: the factories called are {}', k, made)
                    require(o.ok == (k != 3), '{}: {}', k, o)
                    require(not o.ok or o.value.args == (made[0],), '{}: {}', k, o)
                else:
                    require(not o.ok and not made, '{} is not mapped: {}', k, o)
                require({n: len(m) for n, m in kw.items()} == lens, '{} was added to a map', k)
    return Case(f'MapCoercion of values {vk}, factories {fk}, {wrap.__name__}, {how}', fn)


def from_integer_case():
    def fn():
        f = field(bool, CheckStyle.check, FromInteger())
        for v in VALUES + [2, -1, 0.5, 1.0, 0.0, -0.0, 10 ** 30, '0', '1', 'True', Fraction(1), Fraction(1, 2), 1 + 0j,
                           float('nan'), float('inf'), 256, -10 ** 10, decimal.Decimal(1)]:
            o = outcome(f, v)
            if isinstance(v, bool):
                require(o.ok and o.value is v, '{!r} became {}', v, o)
            elif v == 0 or v == 1:
                require(o.ok and o.value is (v == 1), '{!r} became {}', v, o)
            else:
                require(not o.ok, '{!r} became {}', v, o)
    return Case('FromInteger', fn)


def falsish_case(ex):
    args, kwargs = ex

    def fn():
        f = field(Target, CheckStyle.check, Falsish(*args, **kwargs))
        for v in VALUES + [Falsy(), 0.0, -0.0, 0j, float('nan')]:
            if v:
                expect_reject(f, v)
            else:
                expect_build(f, v, args, kwargs)
        expect_reject(f, Truthless())
    return Case(f'Falsish with {args} {kwargs}', fn)


def loose_case(ex, constraint, cls):
    args, kwargs = ex

    def fn():
        make = Loose if constraint == 'none' else Loose.constrain(constraint)
        f = field(cls, CheckStyle.check, make(*args, **kwargs))
        for v in VALUES:
            if constraint == 'none' or isinstance(v, constraint):
                expect_build(f, v, (v, *args), kwargs, cls)
            else:
                expect_reject(f, v)
        t = cls('mine')
        require(f(t) is t, 'an instance was not kept')
    return Case(f'Loose of {cls.__name__}, constraint {constraint}, with {args} {kwargs}', fn)


ITERABLES = [lambda: (), lambda: [1], lambda: ['a', 1], lambda: (1, 2), lambda: [1, True, None], lambda: 'ab',
             lambda: {'k': 1}, lambda: iter([1, 'a']), lambda: (x for x in (1, 2, 3)), lambda: [1, 2, 'a'],
             lambda: ['boom'], lambda: range(4), lambda: [None], lambda: b'ab', lambda: iter([]),
             lambda: ['a', 'b', 'c'], lambda: [[], {}], lambda: [1, 'a', 2.0], lambda: [1, 'a', 2.0, 3]]
NOT_ITERABLE = [None, 1, 1.5, object(), True]


def unpack_case(ex, constraint):
    args, kwargs = ex

    def fn():
        make = LooseUnpack if constraint is None else LooseUnpack.constrain(*constraint)
        f = field(Target, CheckStyle.check, make(*args, **kwargs))
        for mk in ITERABLES:
            elems = tuple(mk())
            if constraint is None:
                good = True
            elif len(constraint) == 2 and constraint[1] is ...:
                good = all(isinstance(e, constraint[0]) for e in elems)
            else:
                good = len(elems) == len(constraint) and all(isinstance(e, c) for e, c in zip(elems, constraint))
            o, calls = coerced(f, mk())
            if not good:
                require(not o.ok and not calls, '{} should be rejected: {}', elems, o)
                continue
            want = (*elems, *args)
            require(len(calls) == 1 and len(calls[0][0]) == len(want) and all(
                a is b or a == b for a, b in zip(calls[0][0], want)) and calls[0][1] == kwargs,
                '{}: built with {}', elems, calls)
            require(o.ok == ('boom' not in elems), '{}: {}', elems, o)
        for v in NOT_ITERABLE:
            expect_reject(f, v)
    return Case(f'LooseUnpack, constraint {constraint}, with {args} {kwargs}', fn)


MAPPINGS = [{}, {'a': 1}, {'p': 1}, {'p': 1, 'q': 'x'}, {'q': 'x', 'p': 2}, {'p': None}, {'q': 1}, {'p': True},
            {'p': 1, 'q': 'x', 'r': None}, {1: 2}, {'boom': 1}, {'r': []}]


def unpack_map_case(ex, constraint, wrap):
    args, kwargs = ex

    def fn():
        make = LooseUnpackMap if constraint is None else LooseUnpackMap.constrain(**constraint)
        f = field(Target, CheckStyle.check, make(*args, **kwargs))
        for d in MAPPINGS:
            v = wrap(d)
            good = constraint is None or all(k in constraint and isinstance(x, constraint[k]) for k, x in d.items())
            good = good and all(isinstance(k, str) and k not in kwargs for k in d)
            if good:
                expect_build(f, v, args, {**d, **kwargs})
            else:
                expect_reject(f, v)
        for v in [None, 1, [1], 'ab', [('p', 1)], object()]:
            expect_reject(f, v)
    return Case(f'LooseUnpackMap, constraint {constraint}, {wrap.__name__}, with {args} {kwargs}', fn)


def whole_case():
    def fn():
        f = field(int, CheckStyle.check, Whole())
        for v in [0, 1, -1, 10 ** 40]:
            require(outcome(f, v).value is v, '{!r} was not kept', v)
        for v in [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 1e15, -1e15, 2.0 ** 60, -2.0 ** 60, 1e22, 1e300, Fraction(4, 2),
                  Fraction(-3), Fraction(10 ** 40), 2 + 0j, -2 - 0j, 0j, 5e0, 255.0, float(2 ** 53), -float(2 ** 53) + 1,
                  complex(1e22)]:
            o = outcome(f, v)
            require(o.ok and type(o.value) is int and o.value == v, '{!r} became {}', v, o)
        for v in [0.5, -0.5, 1.5, 2.5, -1.5, 0.1, 0.9, 1.1, -0.1, 1e-3, 1 - 1e-3, 5e-324, 1e-5, Fraction(1, 2),
                  Fraction(-1, 3), Fraction(10 ** 40, 3), 1j, 2 + 1j, 2 + 1e-3j, 0.5 + 0j, float('nan'), float('inf'),
                  -float('inf'), complex('nan'), complex(float('inf'), 0), '1', '', None, [], b'1', [1], object(),
                  2.0 ** 51 + 0.5, 1e10 + 0.25, 12345.678]:
            o = outcome(f, v)
            require(not o.ok, '{!r} became {}', v, o)
        for v in [1 - 1e-12, 3 - 1e-12, 1e6 - 1e-10]:
            # as good as whole: if taken, then as the nearest integer
            o = outcome(f, v)
            require(not o.ok or o.value == round(v) and type(o.value) is int, '{!r} became {}', v, o)
    return Case('Whole', fn)


def eval_case(args, kwargs, with_target):
    names = {a.__name__: a for a in args} | kwargs

    def fn():
        from records import Eval
        token = Eval(*([...] if with_target else []), *args, **kwargs)
        first, second = field(Target, CheckStyle.check, token), field(Sub, CheckStyle.check, token)
        for f, cls in ((first, Target), (second, Sub), (first, Target)):
            for v in [1, None, b'Target()', [], ('Target()',), object, '1', '', '1 +', 'unknown', 'len', '__import__("os")',
                      'Target', 'Target()', 'Sub()', 'Sub(1, p=2)', 'made("Sub()")', 'x', 'twice(x)', 'Target(x)', '[Sub()][0]',
                      'Target(Sub)', '(Sub)()', ' Sub() ', '1 / 0', 'boom()', 'Target("boom")']:
                o = outcome(f, v)
                want = None
                if isinstance(v, str):
                    try:
                        r = eval(v, {'__builtins__': {**names, **({cls.__name__: cls} if with_target else {})}})
                        want = r if isinstance(r, cls) else None
                    except Exception:
                        pass
                if want is None:
                    require(not o.ok, '{}: {!r} became {}', cls.__name__, v, o)
                else:
                    require(o.ok and type(o.value) is type(want) and o.value.args == want.args and o.value.kwargs == want.kwargs,
                            '{}: {!r} became {}', cls.__name__, v, o)
    return Case(f'Eval with {sorted(names)}{" and the target" if with_target else ""}', fn)


def boom(): raise Boom


def twice(x): return Target(x, x)


LITERAL_TEXTS = ['1', '-1', '1.5', '1j', "'a'", '"1"', "'\"[1]\"'", '', 'x', '1 +', '()', '(1,)', '[]', '[1, "2"]', '{}', '{1: 2}',
                 '{1}', 'set()', 'True', 'None', '1 + 2', '1 + 2j', '__import__("os")', 'int', 'f"1"', ' 1', '0x10', "b'1'", '(' * 150,
                 'len([])', '"a" "b"', "'''1'''", '"' + "'1'" + '"', '"\'(1,)\'"']


def literal_case(t):
    def fn():
        import ast
        from records import LiteralEval
        f = field(t, CheckStyle.check, LiteralEval())
        for v in LITERAL_TEXTS + [b'1', None, 2, 2.5, (1,), [2], {3}, {4: 5}, False, 3j]:
            o = outcome(f, v)
            w = v
            if not isinstance(v, t):
                try:
                    while isinstance(w, str):
                        w = ast.literal_eval(w)
                except Exception:
                    w = Boom
            if w is Boom or not isinstance(w, t):
                require(not o.ok, '{!r} became {}', v, o)
            else:
                require(o.ok and type(o.value) is type(w) and o.value == w, '{!r} became {}', v, o)
    return Case(f'LiteralEval of {t.__name__}', fn)


def bytes_case(t, kw):
    def fn():
        from records.fillers.builtin_fillers.std_fillers import ToBytes
        f = field(t, CheckStyle.check, ToBytes(**kw))
        signed, order = kw.get('signed', False), kw.get('byteorder', 'big')
        for v in [0, 1, -1, 127, 128, -127, -128, -129, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 2 ** 31, 2 ** 32 - 1,
                  2 ** 32, -2 ** 31, -2 ** 31 - 1, 10 ** 30, -10 ** 30, True, False, 1.0, '1', None, Fraction(1), [1], 1j]:
            o = outcome(f, v)
            if not isinstance(v, int):
                require(not o.ok, '{!r} became {}', v, o)
                continue
            fits = v >= 0 or signed
            if 'length' in kw:
                n = 8 * kw['length']
                fits = (-2 ** (n - 1) <= v < 2 ** (n - 1) if n else v == 0) if signed else 0 <= v < 2 ** n
            require(o.ok == fits, '{!r} became {}', v, o)
            if o.ok:
                require(type(o.value) is t and int.from_bytes(o.value, order, signed=signed) == v, '{!r} became {}', v, o)
                if 'length' in kw:
                    require(len(o.value) == kw['length'], '{!r} became {}', v, o)
                else:
                    require(len(o.value) <= v.bit_length() // 8 + 1, '{!r} became {}', v, o)
    return Case(f'ToBytes of {t.__name__} with {kw}', fn)


def cases(tier, rng):
    global CheckStyle
    from records import TypeCheckStyle as CheckStyle
    for ex in EXTRAS:
        yield call_case(ex, False)
        yield call_case(ex, True)
        for cls in (Target, Sub):
            yield method_case(ex, cls)
        yield falsish_case(ex)
        for c in ['none', int, str, (int, str), (), (list,), collections.abc.Iterable, (type(None), (float, dict)),
                  bool, object]:
            for cls in (Target, Sub):
                yield loose_case(ex, c, cls)
        for c in [None, (), (int,), (int, str), (int, ...), (object, ...), ((int, str), ...), (int, int, str),
                  ((int, str), str), (str, ...), (int, (int, str), (float, str)), ((), ...)]:
            yield unpack_case(ex, c)
        for c in [None, {}, {'p': int}, {'p': int, 'q': str}, {'p': (int, str), 'q': object}, {'r': (type(None), list)},
                  {'p': bool, 'boom': int}]:
            for wrap in (dict, ReadOnly, collections.OrderedDict):
                yield unpack_map_case(ex, c, wrap)
    yield missing_method_case()
    for n in range(5):
        for failing in range(-1, n):
            for kinds in ('tokens', 'class'):
                yield compose_case(n, failing, kinds)
    keys = [(), (0,), (1, 2), (3,), (0, 1, None)]
    for vk in keys:
        for fk in keys:
            for wrap in (dict, ReadOnly, MakesUp):
                for how in ('plain', 'falsy'):
                    yield map_case(vk, fk, wrap, how)
    yield from_integer_case()
    yield whole_case()
    for args in ((), (Target,), (Target, Sub), (Sub, len, twice, boom)):
        for kwargs in ({}, {'x': 3}, {'made': eval, 'x': None}):
            for with_target in (False, True):
                yield eval_case(args, kwargs, with_target)
    for t in (int, str, float, complex, set, tuple, dict, list, bool):
        yield literal_case(t)
    for t in (bytes, bytearray):
        for kw in ({}, {'signed': True}, {'signed': False}, {'byteorder': 'little'}, {'byteorder': 'little', 'signed': True},
                   {'length': 1}, {'length': 2, 'signed': True}, {'length': 4, 'byteorder': 'little'}, {'length': 0}):
            yield bytes_case(t, kw)
    if tier == 'thorough':
        def random_whole(vs):
            def fn():
                f = field(int, CheckStyle.check, Whole())
                for v in vs:
                    o = outcome(f, v)
                    whole = v == int(v)
                    if whole:
                        require(o.ok and o.value == v and type(o.value) is int, '{!r} became {}', v, o)
                    elif abs(v - round(v)) > 1e-5:
                        require(not o.ok, '{!r} became {}', v, o)
            return Case(f'Whole of {vs[:3]}...', fn)
        for _ in range(400):
            yield random_whole([rng.uniform(-1e6, 1e6) for _ in range(50)] + [float(rng.randrange(-10 ** 18, 10 ** 18))
                               for _ in range(50)] + [Fraction(rng.randrange(-99, 99), rng.randrange(1, 9)) for _ in range(50)])
