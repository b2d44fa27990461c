"""C01: a filler that wraps another gives what that gives."""
from .base import *
from records.fillers.builtin_fillers import typing_fillers as tf
from records.fillers.filler import Filler

ARG, INNER = z3.Const('value', V), z3.Const('inner filler', V)


class Fills:
    """stands for the class of the inner filler"""


models.SCHEMA[Fills, 'fill'] = 'V'


def run_fill(I, p):
    f = I.alloc('self', ObjO(tf.WrapperFiller, dict(inner_filler=Sym(INNER, Fills), owner=NONE)))
    w0 = p.world
    g = p.box(models.getattr_(I, Sym(INNER, Fills), 'fill'))
    out = attempt(I, lambda: I.call(I.lift(tf.WrapperFiller.fill), Args([f, Sym(ARG)])))
    ok, val, exc, w = (h(w0, g, seq(ARG)) for h in (call_ok, call_val, call_exc, call_w))
    if out.ok:
        p.prove('what the inner filler gives', z3.And(ok, p.box(out.value) == val))
    else:
        t = out.exc_term()
        p.prove('the error of the inner filler', z3.And(z3.Not(ok), t == exc) if t is not None else z3.BoolVal(False))
    p.prove('the inner filler fills once, and nothing else happens', p.world == w)


def run_call(I, p):
    """the default way to call a filler: the value of what fill gives, or its error"""
    class Other(Filler):
        fill = bind = is_hollow = apply = None
    f = I.alloc('self', ObjO(tf.WrapperFiller, dict(inner_filler=Sym(INNER, Fills), owner=NONE)))
    w0 = p.world
    res, err = z3.Const('what fill gives', V), z3.Const('error of fill', V)
    good = z3.Bool('fill succeeds')
    val = z3.Const('filled value', V)

    def fill(I, a):
        p.filled = [p.box(x) for x in a.pos[1:]]
        if p.branch(good):
            from records.fillers.filler import FillingSuccess
            return I.call(Con(FillingSuccess), Args([Sym(val), Sym(z3.Const('kind', V))]))
        p.assume(isinst(err, p.const(Exception)))
        raise PyRaise(Sym(err, Exception))
    I.ex.handlers[tf.WrapperFiller.fill.__code__] = fill
    out = attempt(I, lambda: I.call(I.lift(Filler.__call__), Args([f, Sym(ARG)])))
    p.prove('it fills the very value', z3.BoolVal(len(getattr(p, 'filled', ())) == 1) if not getattr(p, 'filled', None)
            else z3.And(z3.BoolVal(len(p.filled) == 1), p.filled[0] == ARG))
    if out.ok:
        p.prove('the value', z3.And(good, p.box(out.value) == val))
    else:
        t = out.exc_term()
        p.prove('the error', z3.And(z3.Not(good), t == err) if t is not None else z3.BoolVal(False))


CONTRACTS = [
    Contract('WrapperFiller.fill', run_fill, ['WrapperFiller.fill']),
    Contract('Filler.__call__', run_call, ['Filler.__call__']),
]
