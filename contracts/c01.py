"""C01: check, then coerce, then validate."""
from .fill import *

ASSUMES = ['type_check is a pure function of its argument (decided for the built-in fillers in C02)']


def run_fill(I, p):
    f, style = a_filler(I, p)
    hollow = z3.BoolVal(style is TypeCheckStyle.hollow)
    p.observe(arg=ARG, coercers=COERCERS, validators=VALIDATORS)
    w0 = p.world
    out = run_method(I, AnnotatedFiller, 'fill', f, Sym(ARG))
    code, val, w, kind = fill_spec(p, ARG, w0, hollow)
    prove_outcome(I, p, out, code, val, w, lambda v: models.getattr_(I, v, 'value'))
    if out.ok:
        p.prove('the right kind of pass', models.num(models.getattr_(I, out.value, 'type_pass_kind')) == kind)
    same_lists(I, p, f)


def same_lists(I, p, f):
    o = I.get(f)
    p.prove('coercers and validators stay', z3.And(I.list_seq(I.get(o.attrs['coercers'])) == COERCERS,
                                                   I.list_seq(I.get(o.attrs['validators'])) == VALIDATORS))


def run_call(I, p):
    f, style = a_filler(I, p)
    hollow = z3.BoolVal(style is TypeCheckStyle.hollow)
    w0 = p.world
    out = run_method(I, AnnotatedFiller, '__call__', f, Sym(ARG))
    code, val, w, kind = fill_spec(p, ARG, w0, hollow)
    prove_outcome(I, p, out, code, val, w)


def setup(ex):
    ex.handlers[AnnotatedFiller.type_check.__code__] = type_check_contract


CONTRACTS = [
    Contract('AnnotatedFiller.fill', run_fill, ['AnnotatedFiller.fill'], [COERCE, VALIDATE], setup_ex=setup),
    Contract('AnnotatedFiller.__call__', run_call, ['AnnotatedFiller.__call__', 'Filler.__call__', 'AnnotatedFiller.is_passthrough'],
             [COERCE, VALIDATE], setup_ex=setup),
]
