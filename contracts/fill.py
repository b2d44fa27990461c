"""The specification of filling a value, shared by contracts."""
from .base import *
from records.fillers.filler import AnnotatedFiller, Filler, FillingSuccess, TypeCheckStyle, TypeMatch, TypePassKind

OKC, EXC, TYPEERR = 0, 1, 2  # a value; this very exception; a TypeError
no = z3.IntVal


def func_of_method(I, cls, name):
    return I.lift(models.mro_lookup(cls, name))


def run_method(I, cls, name, *args, **kw):
    return attempt(I, lambda: I.call(func_of_method(I, cls, name), Args(list(args), kw)))


def call1(w, f, *args):
    """(ok, value, exception, world) of an opaque call"""
    s = seq(*args)
    return call_ok(w, f, s), call_val(w, f, s), call_exc(w, f, s), call_w(w, f, s)


def exact(v): return uf('tc_exact', V, B)(v)
def inexact(v): return uf('tc_inexact', V, B)(v)


STRICT = z3.Bool('strict')
COERCERS, VALIDATORS = z3.Const('coercers', SV), z3.Const('validators', SV)
ARG = z3.Const('arg', V)


def accepted(v):
    return z3.Or(exact(v), z3.And(z3.Not(STRICT), inexact(v)))


def type_check_contract(I, a):
    """type_check has no effects, and depends on its argument alone"""
    v = I.p.box(a.pos[1])
    if I.p.branch(exact(v)):
        return Con(TypeMatch.exact)
    if I.p.branch(inexact(v)):
        return Con(TypeMatch.inexact)
    return NONE


def coerce_body(rec, i, w):
    ok, val, exc, w2 = call1(w, COERCERS[i], ARG)
    good = z3.And(ok, accepted(val))
    last = i == z3.Length(COERCERS) - 1
    nxt = rec(i + 1, w2)
    end = z3.Or(i < 0, i >= z3.Length(COERCERS))
    return (z3.If(end, no(TYPEERR), z3.If(good, no(OKC), z3.If(last, z3.If(ok, no(TYPEERR), no(EXC)), nxt[0]))),
            z3.If(end, UNDEF, z3.If(good, val, z3.If(last, z3.If(ok, UNDEF, exc), nxt[1]))),
            z3.If(end, w, z3.If(z3.Or(good, last), w2, nxt[2])))


def validate_body(rec, i, v, w):
    ok, val, exc, w2 = call1(w, VALIDATORS[i], v)
    nxt = rec(i + 1, val, w2)
    end = z3.Or(i < 0, i >= z3.Length(VALIDATORS))
    return (z3.If(end, no(OKC), z3.If(ok, nxt[0], no(EXC))),
            z3.If(end, v, z3.If(ok, nxt[1], exc)),
            z3.If(end, w, z3.If(ok, nxt[2], w2)))


COERCE = Rec('coerce', ['W'], [INT, V, W], coerce_body)
VALIDATE = Rec('validate', ['V', 'W'], [INT, V, W], validate_body)


def fill_spec(p, arg, w, hollow, coercers=None, validators=None):
    """(code, value or exception, world, kind of pass)"""
    strict, inx = exact(arg), z3.And(inexact(arg), z3.Not(STRICT), z3.Not(exact(arg)))
    direct = z3.Or(hollow, strict, inx)
    c, v, w1 = COERCE.at(p, 0, w)
    w1 = z3.If(direct, w, w1)
    v1 = z3.If(direct, arg, v)
    kind = z3.If(hollow, no(3), z3.If(strict, no(0), z3.If(inx, no(1), no(2))))
    bad = z3.And(z3.Not(direct), c != OKC)
    c2, v2, w2 = VALIDATE.at(p, 0, v1, w1)
    return z3.If(bad, c, c2), z3.If(bad, v, v2), z3.If(bad, w1, w2), kind


STYLES = [TypeCheckStyle.hollow, TypeCheckStyle.check, TypeCheckStyle.check_strict]


def a_filler(I, p, cls=AnnotatedFiller, style=None, **attrs):
    s = style or STYLES[p.choose(3)]
    p.assume(STRICT == (s is TypeCheckStyle.check_strict))
    cs = I.alloc('coercers', ListO(seq=COERCERS))
    vs = I.alloc('validators', ListO(seq=VALIDATORS))
    f = I.alloc('filler', ObjO(cls, dict(type_checking_style=Con(s), coercers=cs, validators=vs, **attrs)))
    return f, s


def prove_outcome(I, p, out, code, val, w, what=lambda v: v):
    if out.ok:
        p.prove('succeeds only if it should', code == OKC)
        p.prove('the right value', p.box(what(out.value)) == val)
    else:
        p.prove('fails only if it should', code != OKC)
        t = out.exc_term()
        p.prove('the right error', z3.Or(z3.And(code == EXC, t == val) if t is not None else z3.BoolVal(False),
                                         z3.And(code == TYPEERR, out.exc_is(TypeError))))
    p.prove('the right calls, in the right order', p.world == w)


# ---------------------------------------------------------------- fillers in the role of a part

class Part:
    """stands for the class of a filler whose behaviour is known by its contract only"""
    def __iter__(self): raise NotImplementedError


def part_attr(fn): return lambda I, v: NativeV(lambda I2, a: fn(I2, v, a), 'part')


def schema_part():
    S = models.SCHEMA
    S[Part, 'is_passthrough'] = 'pure', 'bool'
    S[Part, 'is_hollow'] = 'pure', 'bool'
    S[Part, 'bind'] = part_attr(lambda I, v, a: NONE)
    S[Part, 'apply'] = part_attr(lambda I, v, a: NONE)
    S[Part, '__bool__'] = 'pure', 'bool'


schema_part()


def passthrough(t): return uf('Part.is_passthrough', V, B)(t)
def part_hollow(t): return uf('Part.is_hollow', V, B)(t)


OWNER = z3.Const('owner', V)


def inner_attrs(I, style):
    vs = I.alloc('inner validators', ListO(items=[]))
    cs = I.alloc('inner coercers', ListO(seq=COERCERS))
    return I.alloc('inner', ObjO(AnnotatedFiller, dict(
        type_checking_style=Con(style), coercers=cs, validators=vs, args=TupV([]), owner=NONE)))


def added_validators(I, inner):
    o = I.get(I.get(inner).attrs['validators'])
    if o.items is None:
        raise Unsupported('validators')
    return o.items


def inner_bind_contract(I, a):
    """binding the inner filler leaves its style and validators alone: its tokens are applied to it in C18"""
    o = I.get(a.pos[0])
    if o.cls is AnnotatedFiller:
        return NONE
    return NotImplemented
