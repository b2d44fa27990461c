"""C01: the field processing pipeline."""
from records import CallCoercion, CallValidation, AssertCallValidation, check, check_strict, hollow
from .common import *
from . import reentry


class A:
    pass


class B(A):
    pass


class X:
    pass


class FalsyA(A):
    def __bool__(self): return False


class Err(Exception):
    pass


class Odd(Exception):
    """cannot be built from a message"""
    def __init__(self, a, b): super().__init__(a, b)


ERRS = {'Err': Err, 'TypeError': TypeError, 'KeyError': KeyError, 'Odd': lambda m: Odd(m, m)}
VALUES = {'A': A, 'B': B, 'X': X, 'FalsyA': FalsyA, 'None': lambda: None, 'int': lambda: 0}


def accepts(style, v):
    return type(v) is A if style is check_strict else isinstance(v, A)


def make_coercer(spec, log, n):
    def coercer(v):
        log.append(('coerce', n, v))
        if spec.startswith('!'):
            e = ERRS[spec[1:]](f'coercer {n}')
            log.append(('raised', e))
            raise e
        if spec == 'same':
            return v
        r = VALUES[spec]()
        log.append(('result', r))
        return r
    return CallCoercion(coercer)


def make_validator(spec, log, n):
    def validator(v):
        log.append(('validate', n, v))
        if spec.startswith('!'):
            e = ERRS[spec[1:]](f'validator {n}')
            log.append(('raised', e))
            raise e
        if spec == 'same':
            return v
        r = VALUES[spec]()
        log.append(('result', r))
        return r
    if spec == 'true':
        def assertion(v):
            log.append(('validate', n, v))
            return [0]
        return AssertCallValidation(assertion)
    return CallValidation(validator)


def first(specs, n):
    """=0 is the very token of position 0 again, ~0 another token with the same function, @0 the very same function, and
    all of them without a wrapper"""
    return (int(specs[n][1:]), specs[int(specs[n][1:])]) if specs[n][0] in '=~@' else (n, specs[n])


def tokens_of(specs, make, log):
    out = []
    for n, c in enumerate(specs):
        k, _ = first(specs, n)
        out.append(make(c, log, n) if k == n else out[k] if c[0] == '=' else type(out[k])(out[k].func))
    return [BARE[type(t)](t.func) for t in out] if any(c[0] == '@' for c in specs) else out


class BareCoercion(CallCoercion):
    def __call__(self, *_): return self.func


class BareValidation(CallValidation):
    def __call__(self, *_): return self.func


BARE = {CallCoercion: BareCoercion, CallValidation: BareValidation, AssertCallValidation: AssertCallValidation}


def oracle(style, coercers, validators, v, log):
    """replays the log: (stored value or None, error expected to be the cause or an exception class)"""
    it = iter(log)

    def expect(*what):
        got = next(it, None)
        require(got is not None, 'expected {} next, and nothing more happened', what)
        require(got[0] == what[0] and (len(what) < 2 or got[1] == what[1]) and (len(what) < 3 or got[2] is what[2]),
                'expected {} next, and not {}', what, got)
        return got
    failed = None
    if style is not hollow and not accepts(style, v):
        ok = False
        failed = TypeError
        for n, c in enumerate(coercers):
            n, c = first(coercers, n)
            expect('coerce', n, v)
            if c.startswith('!'):
                failed = expect('raised')[1]
                continue
            r = v if c == 'same' else expect('result')[1]
            if accepts(style, r):
                ok, v = True, r
                break
            failed = TypeError
        if not ok:
            require(next(it, None) is None, 'calls after the failure: {}', log)
            return 'err', failed
    for n, c in enumerate(validators):
        n, c = first(validators, n)
        expect('validate', n, v)
        if c.startswith('!'):
            e = expect('raised')[1]
            require(next(it, None) is None, 'calls after the failure: {}', log)
            return 'err', e
        if c not in ('same', 'true'):
            v = expect('result')[1]
    require(next(it, None) is None, 'more calls than expected: {}', log)
    return 'ok', v


STYLES = {'hollow': hollow, 'check': check, 'check_strict': check_strict}


def case(style, how, coercers, validators, inputs, interleave=0):
    desc = f'x: A, {style} ({how}), coercers {list(coercers)}, validators {list(validators)} ({interleave}), given ' \
           f'{list(inputs)}'

    def fn():
        log = []
        cs = tokens_of(coercers, make_coercer, log)
        vs = tokens_of(validators, make_validator, log)
        tokens = cs + vs
        if interleave:
            tokens, a, b = [], cs[:], vs[:]
            k = interleave
            while a or b:
                src = (a, b)[k & 1] or a or b
                tokens.append(src.pop(0))
                k = k * 5 // 3 + 1
        st = STYLES[style]
        kw, body = {}, {}
        if how == 'token':
            tokens.insert(len(tokens) * interleave // 4, st)
        elif how == 'default':
            kw['default_type_check'] = st
        elif how == 'pre_bind':
            kw['default_type_check'] = st
            half = len(tokens) // 2
            late, tokens = [*cs, *vs], []

            def pre_bind(cls):
                for n, c in enumerate(cs):
                    cls.x.add_coercer(c.func)
                for n, c in enumerate(vs):
                    if hasattr(c, 'assert_'):
                        cls.x.add_assert_validator(c.func)
                    else:
                        cls.x.add_validator(c.func)
            body['pre_bind'] = classmethod(pre_bind)
        made = outcome(make_class, 'R', {'x': annotated(A, *tokens)}, body=body, **kw)
        if style == 'hollow' and coercers:
            require(not made.ok, 'coercers on a hollow field were accepted')
            return
        require(made.ok, 'the class definition {}', made)
        for i in inputs:
            v = VALUES[i]()
            del log[:]
            got = outcome(made.value, x=v)
            what, r = oracle(st, coercers, validators, v, log)
            if what == 'ok':
                require(got.ok and got.value.x is r, 'with {} construction {}, and should store {}', i, got, r)
                require(attrs(got.value).keys() == {'x'}, 'attributes {}', attrs(got.value))
            elif isinstance(r, type):
                require(not got.ok and isinstance(got.exc.__cause__, r), 'with {} construction {} ', i, got)
            else:
                require(not got.ok and got.exc.__cause__ is r, 'with {} construction {}, and the cause should be {!r}', i,
                        got, r)
                want = ValueError if isinstance(r, Odd) else type(r)
                require(type(got.exc) is want, 'with {} construction {}', i, got)
    return Case(desc, fn)


CO = ['A', 'B', 'X', 'None', 'FalsyA', 'same', '!Err', '!TypeError', '!KeyError', '!Odd']
VA = ['same', 'A', 'X', 'None', 'true', '!Err', '!TypeError', '!Odd']
INPUTS = list(VALUES)


def cases(tier, rng):
    yield Case('processing within processing', reentry.processing)
    for style in STYLES:
        for how in ('token', 'default', 'pre_bind'):
            yield case(style, how, (), (), INPUTS)
            for c in CO:
                yield case(style, how, (c,), (), INPUTS)
            for v in VA:
                yield case(style, how, (), (v,), INPUTS)
    for style in ('check', 'check_strict'):
        for c in products(CO, CO):
            yield case(style, 'token', c, ('same',), INPUTS)
        for c in products(['X', '!Err', 'same', '!TypeError'], ['X', '!Err', 'A', 'B'], ['X', '!Err', 'A', 'B']):
            yield case(style, 'default', c, ('same',), INPUTS)
    for a, b, k in products(CO, ['X', '!Err', 'A'], ['=0', '~0', '@0']):
        for how in ('token', 'pre_bind'):
            yield case('check', how, (a, k), (), INPUTS)
            yield case('check', how, (a, b, k), ('same',), INPUTS)
            yield case('check_strict', how, (a, b, k, 'A'), (), INPUTS)
    for a, b, k in products(VA, ['X', 'true', 'A'], ['=0', '~0', '@0']):
        for how in ('token', 'pre_bind'):
            yield case('hollow', how, (), (a, k), INPUTS)
            yield case('hollow', how, (), (a, b, k), INPUTS)
    for v in products(VA, VA):
        yield case('hollow', 'token', (), v, INPUTS)
        yield case('check', 'token', ('A',), v, INPUTS)
    for _ in range(1500 if tier == 'quick' else 30000):
        style = rng.choice(list(STYLES))
        nc = 0 if style == 'hollow' else rng.randrange(5)
        cs = [rng.choice(CO) for _ in range(nc)]
        vs = [rng.choice(VA[:5] if rng.random() < .8 else VA) for _ in range(rng.randrange(5))]
        for l in (cs, vs):
            while len(l) > 1 and rng.random() < .3:
                n = rng.randrange(1, len(l))
                k = rng.randrange(n)
                if l[k][0] not in '=~@' and not any(x[1:] == str(n) for x in l if x[0] in '=~@'):
                    l[n] = rng.choice('=~@') + str(k)
        yield case(style, rng.choice(('token', 'default', 'pre_bind')), cs, vs, [rng.choice(INPUTS) for _ in range(4)],
                   rng.randrange(5))
