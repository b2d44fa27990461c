"""C02: which types a checked field accepts."""
from .fill import *
from records.fillers.builtin_fillers import std_fillers as sf, typing_fillers as tf
from records.fillers.builtin_fillers.std_fillers import SimpleFiller, NoneFiller, EllipsisFiller, CallableFiller
from records.fillers.builtin_fillers.typing_fillers import LiteralFiller, TypeFiller

ORIGIN = z3.Const('origin', V)
EX, INEX, REJ = 0, 1, 2


def verdict(I, p, v):
    """exact, inexact or falsish"""
    if isinstance(v, Con) and v.obj is TypeMatch.exact:
        return EX
    if isinstance(v, Con) and v.obj is TypeMatch.inexact:
        return INEX
    if isinstance(v, Con) and not v.obj:
        return REJ
    raise Unsupported(f'type check result {v!r}')


def prove_verdict(I, p, out, ex, inex):
    p.prove('no error', out.ok)
    if out.ok:
        r = verdict(I, p, out.value)
        p.prove('exactly the objects of the type match exactly', ex == z3.BoolVal(r == EX))
        p.prove('exactly the other instances match inexactly', z3.And(inex, z3.Not(ex)) == z3.BoolVal(r == INEX))


def run_simple(I, p):
    f = I.alloc('filler', ObjO(SimpleFiller, dict(origin=Sym(ORIGIN, type), coercers=NONE, validators=NONE)))
    out = run_method(I, SimpleFiller, 'type_check', f, Sym(ARG))
    p.assume(z3.Implies(typeof(ARG) == ORIGIN, isinst(ARG, ORIGIN)))
    prove_verdict(I, p, out, typeof(ARG) == ORIGIN, isinst(ARG, ORIGIN))


def const_check(cls, obj):
    def run(I, p):
        f = I.alloc('filler', ObjO(cls, dict(origin=Con(type(obj)))))
        v = Sym(ARG) if p.choose(2) else Con(obj)
        out = run_method(I, cls, 'type_check', f, v)
        same = p.box(v) == p.const(obj)
        prove_verdict(I, p, out, same, same)
    return run


def run_callable(I, p):
    f = I.alloc('filler', ObjO(CallableFiller, {}))
    out = run_method(I, CallableFiller, 'type_check', f, Sym(ARG))
    c = models.truth(I, I.call(Con(callable), Args([Sym(ARG)])))
    c = z3.BoolVal(c) if isinstance(c, bool) else c
    prove_verdict(I, p, out, c, c)


ABSTRACT = z3.Bool('abstract')


def run_fill(style):
    def run(I, p):
        """whatever is stored unconverted or comes out of a coercer is of an accepted type"""
        f, s = a_filler(I, p, style=style)
        w0 = p.world
        p.assume(VALIDATORS == EMPTY_SEQ)
        out = run_method(I, AnnotatedFiller, 'fill', f, Sym(ARG))
        if out.ok:
            v = p.box(models.getattr_(I, out.value, 'value'))
            p.prove('only accepted types pass', z3.Or(exact(v), z3.And(inexact(v), z3.BoolVal(s is TypeCheckStyle.check))))
            p.prove('accepted inputs pass unchanged', z3.Implies(accepted(ARG), v == ARG))
        else:
            p.prove('accepted inputs are not rejected', z3.Not(accepted(ARG)))
    return run


def setup(ex):
    ex.handlers[AnnotatedFiller.type_check.__code__] = type_check_contract


CONTRACTS = [
    Contract('SimpleFiller.type_check', run_simple, ['SimpleFiller.type_check']),
    Contract('NoneFiller.type_check', const_check(NoneFiller, None), ['NoneFiller.type_check']),
    Contract('EllipsisFiller.type_check', const_check(EllipsisFiller, ...), ['EllipsisFiller.type_check']),
    Contract('CallableFiller.type_check', run_callable, ['CallableFiller.type_check']),
    Contract('AnnotatedFiller.fill (check)', run_fill(TypeCheckStyle.check), ['AnnotatedFiller.fill'], [COERCE, VALIDATE], setup_ex=setup),
    Contract('AnnotatedFiller.fill (strict)', run_fill(TypeCheckStyle.check_strict), ['AnnotatedFiller.fill'], [COERCE, VALIDATE], setup_ex=setup),
]
