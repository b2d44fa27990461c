"""C20: the built-in coercers."""
from numbers import Complex, Rational, Real
from .base import *
from records.fillers.builtin_fillers.std_fillers import (BoolFiller, Falsish, FromInteger, Loose, LooseUnpack,
                                                         LooseUnpackMap, Whole)
from records.fillers.coercers import CallCoercion, ClassMethodCoercion, CoercionToken, ComposeCoercer, MapCoercion
from records.fillers.validators import CallValidation

ASSUMES = [
    'user functions, constructors and class methods are arbitrary, but raise nothing but Exceptions; iterating and '
    'looking up in what they are given is pure, and attribute reads and truth values of user objects are pure',
    'keys of user mappings are hashable (an unhashable input is a TypeError of the mapping)',
    'Whole: numbers are mathematical (the limits of floats, and infinities, are left to the bounded cross-check); '
    'numerators and denominators of rationals are in lowest terms, as the numbers module requires']

ARG, ORIGIN, FIL = z3.Const('arg', V), z3.Const('origin', V), z3.Const('filler', V)
FUNC = z3.Const('func', V)
EXTRA = z3.Const('extra', SV)
KD, KM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)


def extra(p):
    """an unknown number of further arguments, and keyword arguments that are not parameters of the tokens"""
    for n in ('self', 'cls', 'func', 'method', 'v', 'origin'):
        p.assume(z3.Not(KD[p.const(n)]))
    return [Star(EXTRA)], [(KD, KM)]


def make(I, f, *pos, kw=None, maps=()):
    return attempt(I, lambda: I.call(f if isinstance(f, Val) else I.lift(f), Args(list(pos), kw or {}, maps)))


def bound(I, token, origin=None):
    """the coercer the token gives a filler"""
    return attempt(I, lambda: I.call(token, Args([origin or Sym(ORIGIN, type), Sym(FIL)])))


def built(I, p, m):
    p.prove('can be built', z3.BoolVal(m.ok))
    return m.ok


def result(w, f, args, kd=KD, km=KM):
    return call_ok(w, f, args, kd, km), call_val(w, f, args, kd, km), call_exc(w, f, args, kd, km), \
        call_w(w, f, args, kd, km)


def prove_call(I, p, out, w, f, args, kd=KD, km=KM, exact=True):
    """the outcome is that of this one call"""
    ok, val, exc, w2 = result(w, f, args, kd, km)
    p.prove('one call, with the right arguments', p.world == w2)
    if out.ok:
        p.prove('succeeds only if the call does', ok)
        p.prove('its result', p.box(out.value) == val)
    else:
        p.prove('fails only if the call does', z3.Not(ok))
    return ok


def apply(I, f, v):
    return attempt(I, lambda: I.call(f, Args([v])))


def cat(*parts): return z3.Concat(*parts)


def unit(t): return z3.Unit(t)


def call_with_args(cls):
    def run(I, p):
        p.observe(arg=ARG, extra=EXTRA)
        pos, maps = extra(p)
        w = p.world
        m = make(I, cls, Sym(FUNC), *pos, maps=maps)
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not p.prove('can be bound', z3.BoolVal(b.ok)):
            return
        p.prove('nothing is called before there is a value', p.world == w)
        for _ in range(2):  # a coercer is used again
            w = p.world
            out = apply(I, b.value, Sym(ARG))
            prove_call(I, p, out, w, FUNC, cat(unit(ARG), EXTRA))
            prove_user_error(I, p, out, w, FUNC, cat(unit(ARG), EXTRA))
    return run


def prove_user_error(I, p, out, w, f, args, kd=KD, km=KM):
    if not out.ok:
        t = out.exc_term()
        p.prove('with the error of the function', z3.BoolVal(False) if t is None else t == result(w, f, args, kd, km)[2])


METHOD = z3.Const('method', V)


def run_class_method(I, p):
    p.observe(arg=ARG, extra=EXTRA)
    pos, maps = extra(p)
    w = p.world
    m = make(I, ClassMethodCoercion, Sym(METHOD, str), *pos, maps=maps)
    if not built(I, p, m):
        return
    b = bound(I, m.value, Sym(ORIGIN, type))
    has = uf('hasattr', V, V, B)(ORIGIN, METHOD)
    f = uf('getattr', V, V, V)(ORIGIN, METHOD)
    if not b.ok:
        p.prove('can be bound if there is such a method', z3.Not(has))
        return
    p.prove('nothing is called before there is a value', p.world == w)
    out = apply(I, b.value, Sym(ARG))
    if not p.branch(has):
        p.prove('fails without the method', z3.BoolVal(not out.ok))
        return
    prove_call(I, p, out, w, f, cat(unit(ARG), EXTRA))


# ---------------------------------------------------------------- compose

PARTS = z3.Const('parts', SV)


class FillerStub:
    """stands for the class of the filler the token is bound to"""


def get_coercer(I, v):
    def fn(I, a):
        return Sym(COERCER(I.p.box(a.pos[0])))
    return NativeV(fn, 'get_coercer')


COERCER = uf('coercer_of', V, V)
models.SCHEMA[FillerStub, 'get_coercer'] = get_coercer


def coercers_body(rec, i, acc):
    end = z3.Or(i < 0, i >= z3.Length(PARTS))
    return z3.If(end, acc, rec(i + 1, z3.Concat(acc, z3.Unit(COERCER(PARTS[i]))))[0]),


COERCERS_OF = Rec('coercers_of', ['seq'], [SV], coercers_body)


def instances_body(rec, i, acc):
    end = z3.Or(i < 0, i >= z3.Length(PARTS))
    return z3.If(end, acc, rec(i + 1, z3.Concat(acc, z3.Unit(PARTS[i])))[0]),


INSTANCES = Rec('instances', ['seq'], [SV], instances_body)


def compose_body(rec, i, fs, v, w):
    ok, val, exc, w2 = (g(w, fs[i], seq(v)) for g in (call_ok, call_val, call_exc, call_w))
    nxt = rec(i + 1, fs, val, w2)
    end = z3.Or(i < 0, i >= z3.Length(fs))
    return (z3.If(end, z3.BoolVal(True), z3.And(ok, nxt[0])),
            z3.If(end, v, z3.If(ok, nxt[1], exc)),
            z3.If(end, w, z3.If(ok, nxt[2], w2)))


COMPOSE = Rec('compose', ['seq!', 'V', 'W'], [B, V, W], compose_body)


def run_compose(I, p):
    p.observe(arg=ARG, parts=PARTS)
    w = p.world
    m = make(I, ComposeCoercer, Star(PARTS, CoercionToken))
    if not built(I, p, m):
        return
    b = attempt(I, lambda: I.call(m.value, Args([Sym(ORIGIN, type), Sym(FIL, FillerStub)])))
    if not p.prove('can be bound', z3.BoolVal(b.ok)):
        return
    p.prove('nothing is called before there is a value', p.world == w)
    inst, = INSTANCES.at(p, 0, EMPTY_SEQ)
    p.assume(inst == PARTS)  # by induction on the parts
    fs, = COERCERS_OF.at(p, 0, EMPTY_SEQ)
    rev = models.reverse_term(I, fs)
    for _ in range(2):
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        ok, val, w2 = COMPOSE.at(p, 0, rev, ARG, w)
        p.prove('the parts are called last to first, each on the result of the one before', p.world == w2)
        if out.ok:
            p.prove('succeeds only if all parts do', ok)
            p.prove('the last result', p.box(out.value) == val)
        else:
            t = out.exc_term()
            p.prove('fails only if a part does', z3.Not(ok))
            p.prove('with its error', z3.BoolVal(False) if t is None else t == val)


# ---------------------------------------------------------------- maps

VM, FM = z3.Const('value_map', V), z3.Const('factory_map', V)


def run_map(I, p):
    import collections.abc
    p.observe(arg=ARG)
    Map = collections.abc.Mapping
    kw = {}
    k = p.choose(4)
    if k & 1:
        kw['value_map'] = Sym(VM, Map)
    if k & 2:
        kw['factory_map'] = Sym(FM, Map)
    m = make(I, MapCoercion, kw=kw)
    if not built(I, p, m):
        return
    b = bound(I, m.value)
    if not p.prove('can be bound', z3.BoolVal(b.ok)):
        return
    in_v = dictdom(VM)[ARG] if k & 1 else z3.BoolVal(False)
    in_f = dictdom(FM)[ARG] if k & 2 else z3.BoolVal(False)
    for _ in range(2):
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        ok, val, exc, w2 = result(w, dictmap(FM)[ARG], EMPTY_SEQ, EMPTY_DOM, EMPTY_MAP)
        calls = z3.And(z3.Not(in_v), in_f)
        p.prove('the factory is called once, and only if it is to be', p.world == z3.If(calls, w2, w))
        if out.ok:
            p.prove('succeeds only for mapped values', z3.Or(in_v, z3.And(in_f, ok)))
            p.prove('the mapped value, or else what the mapped factory makes',
                    p.box(out.value) == z3.If(in_v, dictmap(VM)[ARG], val))
        else:
            p.prove('fails only for others', z3.And(z3.Not(in_v), z3.Or(z3.Not(in_f), z3.Not(ok))))


# ---------------------------------------------------------------- booleans from integers

def run_from_integer(I, p):
    p.observe(arg=ARG)
    f = I.alloc('filler', ObjO(BoolFiller, {'origin': Con(bool)}))
    t = make(I, FromInteger)
    if not built(I, p, t):
        return
    w = p.world
    g = attempt(I, lambda: I.call(models.getattr_(I, f, 'get_coercer'), Args([t.value])))
    if not p.prove('boolean hints take the token', z3.BoolVal(g.ok)):
        return
    out = apply(I, g.value, Sym(ARG))
    zero, one = pyeq(ARG, p.const(0)), pyeq(ARG, p.const(1))
    p.assume(z3.Not(z3.And(zero, one)))
    if out.ok:
        r = p.box(out.value)
        p.prove('zero is False and one is True', z3.Or(z3.And(zero, r == p.const(False)),
                                                       z3.And(one, r == p.const(True))))
    else:
        p.prove('only what is neither is rejected', z3.Not(z3.Or(zero, one)))
    p.prove('calls nothing', p.world == w)


# ---------------------------------------------------------------- falsish

def run_falsish(I, p):
    p.observe(arg=ARG, extra=EXTRA)
    pos, maps = extra(p)
    m = make(I, Falsish, *pos, maps=maps)
    if not built(I, p, m):
        return
    b = bound(I, m.value)
    if not p.prove('can be bound', z3.BoolVal(b.ok)):
        return
    for _ in range(2):
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        if p.branch(truthy(ARG)):
            p.prove('a true input is rejected', z3.BoolVal(not out.ok))
            p.prove('calls nothing', p.world == w)
        else:
            prove_call(I, p, out, w, ORIGIN, EXTRA)


# ---------------------------------------------------------------- loose

def concrete(I, p, b):
    """whether the token could be bound: it is to be, unless the target is abstract"""
    if not b.ok:
        p.prove('only abstract targets are rejected', uf('isabstract', V, B)(ORIGIN))
    return b.ok


T1, T2 = z3.Const('T1', V), z3.Const('T2', V)


def constrained(I, p, cls, pos, kw=None, maps=()):
    """the factory that constrain gives"""
    f = make(I, models.getattr_(I, Con(cls), 'constrain'), *pos, kw=kw, maps=maps)
    p.prove('can be constrained', z3.BoolVal(f.ok))
    return f.value if f.ok else None


def loose(kind):
    def run(I, p):
        p.observe(arg=ARG, extra=EXTRA)
        pos, maps = extra(p)
        factory, meets = Con(Loose), z3.BoolVal(True)
        if kind != 'plain':
            if kind == 'type':
                c, meets = Sym(T1, type), isinst(ARG, T1)
            else:
                k = p.choose(3)
                ts = [T1, T2][:k]
                c, meets = TupV([Sym(t, type) for t in ts]), z3.Or(*[isinst(ARG, t) for t in ts]) if ts else z3.BoolVal(False)
            factory = constrained(I, p, Loose, [c])
            if factory is None:
                return
        m = make(I, factory, *pos, maps=maps)
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not concrete(I, p, b):
            return
        for _ in range(2):
            w = p.world
            out = apply(I, b.value, Sym(ARG))
            if p.branch(meets):
                prove_call(I, p, out, w, ORIGIN, cat(unit(ARG), EXTRA))
            else:
                p.prove('other inputs are rejected', z3.BoolVal(not out.ok))
                p.prove('calls nothing', p.world == w)
    return run


ELEMS = seqof(ARG)
CONSTRAINTS = z3.Const('constraints', SV)


def each_body(rec, i):
    end = z3.Or(i < 0, i >= z3.Length(ELEMS))
    return z3.Or(end, z3.And(isinst(ELEMS[i], T1), rec(i + 1)[0])),


def both_body(rec, i):
    end = z3.Or(i < 0, i >= z3.Length(ELEMS), i >= z3.Length(CONSTRAINTS))
    return z3.Or(end, z3.And(isinst(ELEMS[i], CONSTRAINTS[i]), rec(i + 1)[0])),


EACH = Rec('each', [], [B], each_body)
BOTH = Rec('both', [], [B], both_body)


def loose_unpack(kind):
    def run(I, p):
        p.observe(arg=ARG, elements=ELEMS, extra=EXTRA)
        pos, maps = extra(p)
        factory = Con(LooseUnpack)
        if kind == 'each':
            factory = constrained(I, p, LooseUnpack, [Sym(T1, type), Con(...)])
        elif kind == 'respective':
            # at least three: two might be a type and an ellipsis
            p.assume(z3.Length(CONSTRAINTS) != 2)
            factory = constrained(I, p, LooseUnpack, [Star(CONSTRAINTS, type)])
        elif kind == 'two':
            p.assume(CONSTRAINTS == seq(T1, T2))
            factory = constrained(I, p, LooseUnpack, [Sym(T1, type), Sym(T2, type)])
        if factory is None:
            return
        m = make(I, factory, *pos, maps=maps)
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not concrete(I, p, b):
            return
        iterable = uf('iterable', V, B)(ARG)
        if kind == 'each':
            meets, = EACH.at(p, 0)
        elif kind == 'plain':
            meets = z3.BoolVal(True)
        else:
            meets, = BOTH.at(p, 0)
            if kind == 'two':
                BOTH.unfold(p, 1)
                BOTH.unfold(p, 2)
            meets = z3.And(meets, z3.Length(ELEMS) == z3.Length(CONSTRAINTS))
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        if p.branch(z3.And(iterable, meets)):
            prove_call(I, p, out, w, ORIGIN, cat(ELEMS, EXTRA))
        else:
            p.prove('other inputs are rejected', z3.BoolVal(not out.ok))
            p.prove('calls nothing', p.world == w)
    return run


ID, IM = z3.Const('items.dom', AB), z3.Const('items.map', AV)
MD, MM = dictdom(ARG), dictmap(ARG)


def classlike(t): return uf('classlike', V, B)(t)


def the_constraints(I, t):
    """the values given to constrain are classes"""
    if z3.is_app_of(t, z3.Z3_OP_SELECT) and t.arg(0).eq(IM):
        I.p.assume(classlike(t))
        return True
    return False


def setup_items(ex):
    ex.handlers['classlike'] = the_constraints


def items_body(rec, i):
    end = z3.Or(i < 0, i >= z3.Length(ELEMS))
    k = ELEMS[i]
    return z3.Or(end, z3.And(ID[k], classlike(IM[k]), isinst(MM[k], IM[k]), rec(i + 1)[0])),


ITEMS = Rec('items', [], [B], items_body)


def loose_unpack_map(kind):
    def run(I, p):
        p.observe(arg=ARG, extra=EXTRA)
        pos, maps = extra(p)
        none = p.const(None)
        p.assume(z3.Not(classlike(none)))  # None is no class
        factory = Con(LooseUnpackMap)
        if kind == 'constrained':
            p.assume(z3.Not(ID[p.const('cls')]))
            factory = constrained(I, p, LooseUnpackMap, [], maps=[(ID, IM)])
        if factory is None:
            return
        m = make(I, factory, *pos, maps=maps)
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not concrete(I, p, b):
            return
        meets, = ITEMS.at(p, 0) if kind == 'constrained' else (z3.BoolVal(True),)
        mapping = uf('is_mapping', V, B)(ARG)
        clash = z3.SetIntersect(MD, KD) != EMPTY_DOM
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        if p.branch(z3.And(mapping, meets, z3.Not(clash))):
            kd, km = I.override(MD, MM, KD, KM)
            prove_call(I, p, out, w, ORIGIN, EXTRA, kd, km)
        else:
            p.prove('other inputs are rejected', z3.BoolVal(not out.ok))
            p.prove('calls nothing', p.world == w)
    return run


# ---------------------------------------------------------------- whole numbers

def whole(kind):
    def run(I, p):
        pos, maps = extra(p)
        m = make(I, Whole, *pos, maps=maps)
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not p.prove('can be bound', z3.BoolVal(b.ok)):
            return
        w = p.world
        if kind == 'rational':
            num, den = uf('Rational.numerator', V, INT)(ARG), uf('Rational.denominator', V, INT)(ARG)
            p.assume(den > 0)
            p.observe(numerator=num, denominator=den)
            out = apply(I, b.value, Sym(ARG, Rational))
            if p.branch(den == 1):
                prove_call(I, p, out, w, ORIGIN, cat(unit(p.box(SInt(num))), EXTRA))
            else:
                p.prove('other numbers are rejected', z3.BoolVal(not out.ok))
                p.prove('calls nothing', p.world == w)
        elif kind == 'other':
            for c in (Rational, Real, Complex):
                p.assume(z3.Not(isinst(ARG, p.const(c))))
            out = apply(I, b.value, Sym(ARG))
            p.prove('what is not a number is rejected', z3.BoolVal(not out.ok))
            p.prove('calls nothing', p.world == w)
        else:
            # any number is a whole one and a fraction
            k, f = z3.Int('whole'), z3.Real('fraction')
            x = z3.Real('x')
            models.decompose(p, x, k, f)
            im = z3.RealVal(0)
            p.observe(whole=k, fraction=f)
            v = SReal(x)
            if kind == 'complex':
                v = Sym(ARG, Complex)
                p.assume(z3.Not(isinst(ARG, p.const(Real))))
                p.assume(z3.Not(isinst(ARG, p.const(Rational))))
                im = uf('Complex.imag', V, R)(ARG)
                models.decompose(p, uf('Complex.real', V, R)(ARG), k, f)
                p.observe(imaginary=im)
            out = apply(I, b.value, v)
            if p.branch(z3.And(f == 0, im == 0)):
                prove_call(I, p, out, w, ORIGIN, cat(unit(p.box(SInt(k))), EXTRA))
                return
            for near, n in ((f < z3.RealVal('1/100000'), k), (f > z3.RealVal('99999/100000'), k + 1)):
                if p.branch(z3.And(near, im == 0)):
                    # as good as whole, up to rounding
                    if out.ok:
                        prove_call(I, p, out, w, ORIGIN, cat(unit(p.box(SInt(n))), EXTRA))
                    return
            p.prove('other numbers are rejected', z3.BoolVal(not out.ok))
            p.prove('calls nothing', p.world == w)
    return run


models.SCHEMA[Rational, 'numerator'] = models.SCHEMA[Rational, 'denominator'] = 'int'
models.SCHEMA[Complex, 'imag'] = lambda I, v: SReal(uf('Complex.imag', V, R)(v.t))
models.SCHEMA[Complex, 'real'] = lambda I, v: SReal(uf('Complex.real', V, R)(v.t))

TOKEN = ['OriginDependant.__init__', 'OriginDependant.__call__']
LOOSE = TOKEN + ['LooseMixin.__call__']
CONTRACTS = [
    Contract('CallCoercion', call_with_args(CallCoercion), ['CallCoercion.__init__', 'CallCoercion.__call__',
                                                            'CallCoercion.inner']),
    Contract('CallValidation', call_with_args(CallValidation), ['CallValidation.__init__', 'CallValidation.__call__',
                                                                'CallValidation.inner']),
    Contract('ClassMethodCoercion', run_class_method, ['ClassMethodCoercion.__init__', 'ClassMethodCoercion.__call__']),
    Contract('ComposeCoercer', run_compose, ['ComposeCoercer.__init__', 'ComposeCoercer.__call__'],
             [INSTANCES, COERCERS_OF, COMPOSE]),
    Contract('MapCoercion', run_map, ['MapCoercion.__init__', 'MapCoercion.__call__', 'MapCoercion.inner']),
    Contract('FromInteger', run_from_integer, ['BoolFiller.get_coercer', 'BoolFiller._bool_from_int']),
    Contract('Falsish', run_falsish, ['Falsish.func_args', *TOKEN]),
    Contract('Loose', loose('plain'), ['Loose.__init__', 'Loose.func_args', *LOOSE]),
    Contract('Loose.constrain(type)', loose('type'), ['Loose.constrain', 'Loose.func_args', *LOOSE]),
    Contract('Loose.constrain(types)', loose('types'), ['Loose.constrain', 'Loose.func_args', *LOOSE]),
    Contract('LooseUnpack', loose_unpack('plain'), ['LooseUnpack.__init__', 'LooseUnpack.func_args', *LOOSE]),
    Contract('LooseUnpack.constrain(type, ...)', loose_unpack('each'), ['LooseUnpack.constrain'], [EACH]),
    Contract('LooseUnpack.constrain(two types)', loose_unpack('two'), ['LooseUnpack.constrain'], [BOTH]),
    Contract('LooseUnpack.constrain(types)', loose_unpack('respective'), ['LooseUnpack.constrain'], [BOTH]),
    Contract('LooseUnpackMap', loose_unpack_map('plain'), ['LooseUnpackMap.__init__', 'LooseUnpackMap.func_args', *LOOSE]),
    Contract('LooseUnpackMap.constrain', loose_unpack_map('constrained'), ['LooseUnpackMap.constrain'], [ITEMS],
             setup_ex=setup_items),
    *[Contract(f'Whole({k})', whole(k), ['Whole.func_args', *TOKEN]) for k in ('rational', 'real', 'complex', 'other')],
]
