"""C18: tokens reach the fillers, fillers are bound once, and nothing is dropped."""
from .fill import *
from . import c03, c04, c05
import records.fillers.get_filler as gf
from records.fillers import util
from records.fillers.coercers import CoercionToken
from records.fillers.validators import ValidationToken
from records.fillers.builtin_fillers import std_fillers as sf, typing_fillers as tf
from records.fillers.builtin_fillers.recurse import GetFiller
from records.record import RecordBase

ASSUMES = [
    'what instances, subclasses and attributes an annotation is or has does not change',
    'a token is called with effects of its own only', 'calling a class of tokens gives an object, and not None']

TOK = z3.Const('token', V)
ORIGIN = z3.Const('origin', V)
TOKENS = z3.Const('tokens', SV)
DEFAULT, STYLE0 = z3.Const('class default', V), z3.Const('style before', V)
S = models.SCHEMA


def subclass(t, cls, p): return uf('issub', V, V, B)(t, p.const(cls))
def is_(t, cls, p): return isinst(t, p.const(cls))


def wrapped_class(t, cls, p):
    n = p.const('__wrapped__')
    w = uf('getattr', V, V, V)(t, n)
    return z3.And(uf('hasattr', V, V, B)(t, n), is_(w, type, p), subclass(w, cls, p))


def by_class(t, cls, p): return z3.And(z3.Not(is_(t, cls, p)), z3.Or(z3.And(is_(t, type, p), subclass(t, cls, p)), wrapped_class(t, cls, p)))


def is_token(t, cls, p): return z3.Or(is_(t, cls, p), by_class(t, cls, p))


# ---------------------------------------------------------------- tokens and classes of tokens

def run_as_instance(cls):
    def run(I, p):
        w0 = p.world
        p.observe(token=TOK)
        out = attempt(I, lambda: I.call(I.lift(util._as_instance), Args([Sym(TOK), Con(cls)])))
        ok, val, exc, w = call1(w0, TOK)
        inst, cl = is_(TOK, cls, p), by_class(TOK, cls, p)
        if out.ok:
            r = p.box(out.value)
            p.prove('a token is taken as it is', z3.Implies(inst, r == TOK))
            p.prove('a class of tokens is called without arguments', z3.Implies(cl, z3.And(ok, r == val)))
            p.prove('anything else is none', z3.Implies(z3.Not(z3.Or(inst, cl)), r == p.const(None)))
        else:
            p.prove('only the class may fail', z3.And(cl, z3.Not(ok), z3.BoolVal(False) if out.exc_term() is None else
                                                      out.exc_term() == exc))
        p.prove('nothing else is called', p.world == z3.If(cl, w, w0))
    return run


def as_instance_contract(I, a):
    p = I.p
    t, cls = p.box(a.pos[0]), a.pos[1].obj
    if p.branch(is_(t, cls, p)):
        return a.pos[0] if isinstance(a.pos[0], Ref) else Sym(t, cls)
    if p.branch(by_class(t, cls, p)):
        r = I.opaque_call(t, Args([]))
        p.assume(p.box(r) != p.const(None))
        return r
    return NONE


# ---------------------------------------------------------------- AnnotatedFiller.apply and bind

def callable_(t): return uf('callable', V, B)(t)


def taken(p, t, me, w):
    """(code, exception, style?, coercer?, validator?, what is added, world) of applying a token"""
    style = is_(t, TypeCheckStyle, p)
    out = []
    for cls in CoercionToken, ValidationToken:
        inst = is_(t, cls, p)
        ok1, val1, exc1, w1 = call1(w, t)
        good1 = z3.Or(inst, ok1)
        tok, w2 = z3.If(inst, t, val1), z3.If(inst, w, w1)
        call = callable_(tok)
        ok2, val2, exc2, w3 = call1(w2, tok, ORIGIN, me)
        code = z3.If(good1, z3.If(call, z3.If(ok2, no(OKC), no(EXC)), no(TYPEERR)), no(EXC))
        out.append((code, z3.If(good1, exc2, exc1), val2, z3.If(good1, z3.If(call, w3, w2), w1)))
    co, va = is_token(t, CoercionToken, p), is_token(t, ValidationToken, p)
    (cc, ce, cv, cw), (vc, ve, vv, vw) = out
    pick = lambda a, b, c, d: z3.If(style, a, z3.If(co, b, z3.If(va, c, d)))
    return (pick(no(OKC), cc, vc, no(OKC)), pick(UNDEF, ce, ve, UNDEF), style, z3.And(z3.Not(style), co),
            z3.And(z3.Not(style), z3.Not(co), va), z3.If(co, cv, vv), pick(w, cw, vw, w))


class State:
    p = me = None


def apply_body(rec, i, st, cs, vs, w):
    t = TOKENS[i]
    code, exc, s, c, v, add, w2 = taken(State.p, t, State.me, w)
    end = z3.Or(i < 0, i >= z3.Length(TOKENS))
    nxt = rec(i + 1, z3.If(s, t, st), z3.If(c, z3.Concat(cs, z3.Unit(add)), cs), z3.If(v, z3.Concat(vs, z3.Unit(add)), vs), w2)
    stop = (code, exc, st, cs, vs, w2)
    return tuple(z3.If(end, b, z3.If(code != OKC, x, y)) for b, x, y in zip((no(OKC), UNDEF, st, cs, vs, w), stop, nxt))


APPLY = Rec('applied tokens', ['V', 'seq', 'seq', 'W'], [INT, V, V, SV, SV, W], apply_body)


def an_annotated(I, p, cls=AnnotatedFiller, owner=NONE):
    cs, vs = I.alloc('coercers', ListO(seq=COERCERS)), I.alloc('validators', ListO(seq=VALIDATORS))
    style = Sym(STYLE0, TypeCheckStyle)
    p.assume(z3.Or(*[STYLE0 == p.const(s) for s in TypeCheckStyle]))
    f = I.alloc('filler', ObjO(cls, dict(type_checking_style=style, coercers=cs, validators=vs, owner=owner,
                                         args=SeqV(TOKENS), origin=Sym(ORIGIN))))
    State.p, State.me = p, p.box(f)
    # the enumeration has no other members
    return f


def state(I, p, f):
    o = I.get(f).attrs
    return (p.box(o['type_checking_style']), I.list_seq(I.get(o['coercers'])), I.list_seq(I.get(o['validators'])))


def exc_matches(p, out, code, exc):
    t = out.exc_term()
    return z3.Or(z3.And(code == EXC, t == exc) if t is not None else z3.BoolVal(False),
                 z3.And(code == TYPEERR, out.exc_is(TypeError)))


def run_apply(I, p):
    f = an_annotated(I, p)
    w0 = p.world
    bound = p.choose(2)
    if bound:
        I.set_attr(f, 'owner', Sym(OWNER, type))
    out = run_method(I, AnnotatedFiller, 'apply', f, Sym(TOK))
    st, cs, vs = state(I, p, f)
    if bound:
        p.prove('no token is added once the filler is bound', z3.BoolVal(not out.ok) if out.ok else out.exc_is(RuntimeError))
        p.prove('and nothing changes', z3.And(st == STYLE0, cs == COERCERS, vs == VALIDATORS, p.world == w0))
        return
    code, exc, s, c, v, add, w = taken(p, TOK, State.me, w0)
    if out.ok:
        p.prove('no error is swallowed', code == OKC)
        p.prove('a check style is taken, and nothing else is', st == z3.If(s, TOK, STYLE0))
        p.prove('a coercer is added last, and nothing else is', cs == z3.If(c, z3.Concat(COERCERS, z3.Unit(add)), COERCERS))
        p.prove('a validator is added last, and nothing else is', vs == z3.If(v, z3.Concat(VALIDATORS, z3.Unit(add)), VALIDATORS))
    else:
        p.prove('fails with the error of the token', exc_matches(p, out, code, exc))
    p.prove('the token is called as it should be', p.world == w)


def a_class(I, p):
    p.assume(z3.Or(*[DEFAULT == p.const(s) for s in (TypeCheckStyle.hollow, TypeCheckStyle.check, TypeCheckStyle.check_strict)]))
    return I.alloc('class', ClassO(RecordBase, dict(_default_type_check_style=Sym(DEFAULT, TypeCheckStyle))))


def run_bind(cls, strict_abstract=False):
    def run(I, p):
        f = an_annotated(I, p, cls)
        owner = a_class(I, p)
        w0 = p.world
        p.observe(tokens=TOKENS, style=STYLE0, default=DEFAULT)
        out = run_method(I, cls, 'bind', f, owner)
        code, exc, st, cs, vs, w = APPLY.at(p, 0, STYLE0, COERCERS, VALIDATORS, w0)
        default, hollow = p.const(TypeCheckStyle.default), p.const(TypeCheckStyle.hollow)
        style = z3.If(st == default, DEFAULT, st)
        bad = z3.And(style == hollow, z3.Length(cs) > 0)
        if strict_abstract:
            abstract = z3.And(style == p.const(TypeCheckStyle.check_strict), uf('isabstract', V, B)(ORIGIN))
        else:
            abstract = z3.BoolVal(False)
        if out.ok:
            s2, c2, v2 = state(I, p, f)
            p.prove('no error is swallowed', code == OKC)
            p.prove('coercers on a hollow filler are rejected', z3.Not(bad))
            p.prove('a strict check of an abstract class is rejected', z3.Not(abstract))
            p.prove('the last check style counts, or else that of the class', s2 == style)
            p.prove('every coercer is added, in order', c2 == cs)
            p.prove('every validator is added, in order', v2 == vs)
            p.prove('the filler is bound', p.box(I.get(f).attrs['owner']) == p.box(owner))
        else:
            p.prove('fails with the error of a token, or because the tokens contradict each other', z3.Or(
                exc_matches(p, out, code, exc), z3.And(code == OKC, bad, out.exc_is(ValueError)),
                z3.And(code == OKC, abstract, out.exc_is(TypeError))))
        p.prove('each token is applied once, in order', p.world == w)
    return run


def setup(ex):
    ex.handlers[util._as_instance.__code__] = as_instance_contract
    ex.handlers['con', id(sf.isabstract)] = lambda I, a: SBool(uf('isabstract', V, B)(I.p.box(a.pos[0])))


CONTRACTS = [
    Contract('_as_instance of a coercion token', run_as_instance(CoercionToken), ['_as_instance']),
    Contract('_as_instance of a validation token', run_as_instance(ValidationToken), ['_as_instance']),
    Contract('AnnotatedFiller.apply', run_apply, ['AnnotatedFiller.apply', 'AnnotatedFiller.get_coercer',
                                                 'AnnotatedFiller.get_validator', 'Filler.apply'], setup_ex=setup),
    Contract('AnnotatedFiller.bind', run_bind(AnnotatedFiller), ['AnnotatedFiller.bind', 'Filler.bind'], [APPLY], setup_ex=setup),
    Contract('SimpleFiller.bind', run_bind(sf.SimpleFiller, True), ['SimpleFiller.bind'], [APPLY], setup_ex=setup),
]
