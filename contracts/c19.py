"""C19: the built-in validators."""
import re
import logging
from .base import *
from records.fillers.builtin_validators import Clamp, Cyclic, FullMatch, Truth, Within, greatest, least
from records.fillers.validators import AssertCallValidation, AssertValidation

ASSUMES = [
    'the values and bounds that are compared are ordered by their comparison operators (totally for Clamp, perhaps '
    'partially for Within: NaN, sets), which have no effects and agree with ==, and do not know the sentinels for a '
    'missing bound',
    'Cyclic: numbers and their arithmetic are mathematical (the rounding of floats is left to the bounded cross-check), '
    'and the minimum is less than the maximum',
    'truth values of user objects are pure; a match object is true, and fullmatch returns one exactly for full matches',
    'warnings.warn and Logger.warning do what they are for, or raise']

ARG = z3.Const('v', V)
GE, LE = z3.Const('ge', V), z3.Const('le', V)
TYP, FIL = z3.Const('stored_type', V), z3.Const('filler', V)


def rank(t): return uf('rank', V, R)(t)


def total_order(p, *ts):
    for a in ts:
        for s in (least, greatest):
            c = p.const(s)
            p.assume(z3.And(a != c, z3.Not(pyeq(a, c)), z3.Not(pyeq(c, a))))
        for b in ts:
            for op, f in (('<', lambda x, y: x < y), ('<=', lambda x, y: x <= y), ('>', lambda x, y: x > y),
                          ('>=', lambda x, y: x >= y)):
                p.assume(uf('py' + op, V, V, B)(a, b) == f(rank(a), rank(b)))
            p.assume(pyeq(a, b) == (rank(a) == rank(b)))


def less(a, b): return uf('is less', V, V, B)(a, b)


def partial_order(p, *ts):
    """some may be neither less nor equal nor greater"""
    for a in ts:
        for s in (least, greatest):
            c = p.const(s)
            p.assume(z3.And(a != c, z3.Not(pyeq(a, c)), z3.Not(pyeq(c, a))))
        for b in ts:
            for op, f in (('<', less(a, b)), ('<=', z3.Or(less(a, b), pyeq(a, b))), ('>', less(b, a)),
                          ('>=', z3.Or(less(b, a), pyeq(a, b)))):
                p.assume(uf('py' + op, V, V, B)(a, b) == f)
            p.assume(pyeq(a, b) == pyeq(b, a))
            p.assume(z3.Not(z3.And(less(a, b), z3.Or(less(b, a), pyeq(a, b)))))
            for c in ts:
                p.assume(z3.Implies(z3.And(less(a, b), less(b, c)), less(a, c)))
                p.assume(z3.Implies(z3.And(pyeq(a, b), pyeq(b, c)), pyeq(a, c)))
                p.assume(z3.Implies(z3.And(pyeq(a, b), less(b, c)), less(a, c)))
                p.assume(z3.Implies(z3.And(less(a, b), pyeq(b, c)), less(a, c)))


def make(I, cls, *pos, **kw):
    return attempt(I, lambda: models.construct(I, cls, Args(list(pos), kw)))


def apply(I, token, v):
    """the validator that the token gives a filler, called"""
    def go():
        f = I.call(token, Args([Sym(TYP, type), Sym(FIL)]))
        return I.call(f, Args([v]))
    return attempt(I, go)


def bounds(I, p, names):
    """positional or keyword bounds, each possibly left out"""
    out, lo, hi = {}, None, None
    k = p.choose(4)
    if k & 1:
        out[names[0]], lo = Sym(GE), GE
    if k & 2:
        out[names[1]], hi = Sym(LE), LE
    return out, lo, hi


def run_clamp(I, p):
    kw, lo, hi = bounds(I, p, ('ge', 'le'))
    total_order(p, ARG, GE, LE)
    p.observe(v=rank(ARG), ge=rank(GE), le=rank(LE))
    w0 = p.world
    m = make(I, Clamp, **kw)
    contradiction = z3.And(z3.BoolVal(lo is not None and hi is not None), rank(GE) > rank(LE))
    if not m.ok:
        p.prove('only contradictory bounds are rejected', contradiction)
        p.prove('with a ValueError', m.exc_is(ValueError))
        return
    p.prove('contradictory bounds are rejected', z3.Not(contradiction))
    for _ in range(2):  # a validator is used again
        out = apply(I, m.value, Sym(ARG))
        if not p.prove('no error', z3.BoolVal(out.ok)):
            return
        r = p.box(out.value)
        below = rank(ARG) < rank(GE) if lo is not None else z3.BoolVal(False)
        above = rank(ARG) > rank(LE) if hi is not None else z3.BoolVal(False)
        p.prove('a value between the bounds is returned', z3.Implies(z3.Not(z3.Or(below, above)), r == ARG))
        p.prove('a value below the lower bound becomes that', z3.Implies(below, z3.Or(
            r == GE, z3.And(r == LE, rank(GE) == rank(LE)))))
        p.prove('a value above the upper bound becomes that', z3.Implies(above, z3.Or(
            r == LE, z3.And(r == GE, rank(GE) == rank(LE)))))
    p.prove('no effects', p.world == w0)


def run_cyclic(I, p):
    lo, hi, v = z3.Real('minimum'), z3.Real('maximum'), z3.Real('v')
    p.assume(lo < hi)
    p.observe(minimum=lo, maximum=hi, v=v)
    w0 = p.world
    m = make(I, Cyclic, SReal(lo), SReal(hi))
    p.prove('bounds are accepted', z3.BoolVal(m.ok))
    if not m.ok:
        return
    for _ in range(2):
        out = apply(I, m.value, SReal(v))
        if not p.prove('no error', z3.BoolVal(out.ok)):
            return
        r = models.real(out.value)
        if not p.prove('a number', z3.BoolVal(r is not None)):
            return
        inside = z3.And(lo <= v, v < hi)
        p.prove('a value inside is returned unchanged', z3.Implies(inside, r == v))
        p.prove('the result is inside', z3.And(lo <= r, r < hi))
        ks = [z3.IntVal(0)] + [k for q in p.__dict__.get('quotients', ()) for k in (q, -q, q + 1, -q - 1)]
        p.prove('by whole periods', z3.Or(*[r == v + z3.ToReal(k) * (hi - lo) for k in ks]))
    p.prove('no effects', p.world == w0)


# ---------------------------------------------------------------- assertions

ERR = z3.Const('err', V)


class LoggerStub:
    """stands for the class of the configured logger"""


def notify(which):
    def fn(I, a):
        I.told.append((which, a))
        if I.p.choose(2):
            e = I.p.fresh('warn_error', V)
            I.p.assume(isinst(e, I.p.const(Exception)))
            I.failed_notice = e
            raise PyRaise(Sym(e, Exception))
        return NONE
    return fn


S = models.SCHEMA
S[LoggerStub, 'warning'] = lambda I, v: NativeV(notify('logger'), 'warning')
S[LoggerStub, '__bool__'] = ('pure', 'bool')


def setup(ex):
    ex.handlers['con', id(warnings.warn)] = notify('warnings')
    ex.handlers['con', id(re.compile)] = lambda I, a: compiled(I, a)


def mode(I, p):
    """how the assertion is configured: keyword arguments and what they mean"""
    kw = {}
    err, warn = p.choose(3), p.choose(4)
    I.told, I.failed_notice = [], None
    if err == 1:
        kw['err'] = Sym(ERR, str)
        p.assume(z3.Not(isinst(ERR, p.const(Exception))))
    elif err == 2:
        kw['err'] = Sym(ERR, Exception)
    if warn == 1:
        kw['warn'] = Con(False)
    elif warn == 2:
        kw['warn'] = Con(True)
    elif warn == 3:
        lg = z3.Const('logger', V)
        p.assume(uf('LoggerStub.__bool__', V, B)(lg))
        kw['warn'] = Sym(lg, LoggerStub)
    return kw, err, {0: None, 1: None, 2: 'warnings', 3: 'logger'}[warn]


def right_error(I, e, err, cls):
    """e is the configured error: itself, or a new one of this class with the configured message"""
    p = I.p
    if isinstance(e, Ref):
        o = I.get(e)
        msg = o.attrs.get('args')
        good = isinstance(o.cls, type) and issubclass(o.cls, cls) and err != 2 and isinstance(msg, TupV) and \
            len(msg.items) == 1
        if not good:
            return z3.BoolVal(False)
        return p.box(msg.items[0]) == ERR if err == 1 else z3.BoolVal(True)
    return z3.And(z3.BoolVal(err == 2), p.box(e) == ERR)


def prove_assertion(I, p, out, holds, v, err, notice):
    """the outcome of a validator whose condition is `holds`"""
    told, I.told = I.told, []
    if out.ok:
        p.prove('the very value is returned', p.box(out.value) == v)
        if notice is None:
            p.prove('passes only if the condition is met', holds)
            p.prove('nothing is warned of', z3.BoolVal(not told))
        elif told:
            p.prove('warns only if the condition is not met', z3.Not(holds))
        else:
            p.prove('silent only if the condition is met', holds)
    else:
        p.prove('fails only if the condition is not met', z3.Not(holds))
        if notice is None:
            p.prove('the configured error', right_error(I, out.exc, err, ValueError))
            p.prove('nothing is warned of', z3.BoolVal(not told))
        else:
            t = out.exc_term()
            p.prove('only warns', z3.BoolVal(False) if t is None or I.failed_notice is None else t == I.failed_notice)
    if told:
        p.prove('warns once, through what was configured', z3.BoolVal(len(told) == 1 and told[0][0] == notice))
        a = told[0][1]
        x = models.arg(a, 0, 'message')
        p.prove('the warning is the configured one', right_error(I, x, err, Warning) if x is not None else z3.BoolVal(False))


def run_within(I, p):
    kw, lo, hi = bounds(I, p, ('ge', 'lt'))
    partial_order(p, ARG, GE, LE)
    p.observe(v=ARG, ge=GE, lt=LE)
    g_eq, l_eq = z3.BoolVal(True), z3.BoolVal(False)
    if p.choose(2):
        g_eq = z3.Bool('g_eq')
        kw['g_eq'] = SBool(g_eq)
    if p.choose(2):
        l_eq = z3.Bool('l_eq')
        kw['l_eq'] = SBool(l_eq)
    m_kw, err, notice = mode(I, p)
    w0 = p.world
    m = make(I, Within, **kw, **m_kw)
    both = z3.BoolVal(lo is not None and hi is not None)
    contradiction = z3.And(both, z3.Or(less(LE, GE), z3.And(pyeq(GE, LE), z3.Not(z3.And(g_eq, l_eq)))))
    if not m.ok:
        p.prove('only contradictory bounds are rejected', contradiction)
        p.prove('with a ValueError', m.exc_is(ValueError))
        return
    p.prove('contradictory bounds are rejected', z3.Not(contradiction))
    out = apply(I, m.value, Sym(ARG))
    holds = z3.And(z3.Or(less(GE, ARG), z3.And(g_eq, pyeq(ARG, GE))) if lo is not None else z3.BoolVal(True),
                   z3.Or(less(ARG, LE), z3.And(l_eq, pyeq(ARG, LE))) if hi is not None else z3.BoolVal(True))
    prove_assertion(I, p, out, holds, ARG, err, notice)
    p.prove('no effects', p.world == w0)


def run_truth(I, p):
    m_kw, err, notice = mode(I, p)
    w0 = p.world
    m = make(I, Truth, **m_kw)
    if not p.prove('can be built', z3.BoolVal(m.ok)):
        return
    out = apply(I, m.value, Sym(ARG))
    prove_assertion(I, p, out, truthy(ARG), ARG, err, notice)
    p.prove('no effects', p.world == w0)


class PatternStub:
    """stands for the class of compiled patterns"""


PATTERN = z3.Const('pattern', V)
FULLMATCH = uf('fullmatch', V, V)  # the bound method of a compiled pattern


def compiled(I, a):
    return Sym(uf('compiled', V, V)(I.p.box(models.arg(a, 0, 'pattern'))), PatternStub)


def match_fn(I, v):
    def fn(I, a):
        return I.opaque_call(FULLMATCH(v.t), a)
    return NativeV(fn, 'fullmatch')


S[PatternStub, 'fullmatch'] = match_fn


def run_fullmatch(I, p):
    m_kw, err, notice = mode(I, p)
    m = make(I, FullMatch, Sym(PATTERN), **m_kw)
    if not p.prove('can be built', z3.BoolVal(m.ok)):
        return
    w0 = p.world
    out = apply(I, m.value, Sym(ARG))
    f = FULLMATCH(uf('compiled', V, V)(PATTERN))
    ok, val, exc, w = (g(w0, f, seq(ARG)) for g in (call_ok, call_val, call_exc, call_w))
    if not p.branch(ok):
        # not something the pattern can be matched with
        t = out.exc_term() if not out.ok else None
        p.prove('an error of matching is raised', z3.BoolVal(False) if t is None else t == exc)
        return
    p.prove('matched once', p.world == w)
    prove_assertion(I, p, out, truthy(val), ARG, err, notice)


FUNC = z3.Const('func', V)


def run_assert_call(I, p):
    m_kw, err, notice = mode(I, p)
    m = make(I, AssertCallValidation, Sym(FUNC), **m_kw)
    if not p.prove('can be built', z3.BoolVal(m.ok)):
        return
    w0 = p.world
    out = apply(I, m.value, Sym(ARG))
    ok, val, exc, w = (g(w0, FUNC, seq(ARG)) for g in (call_ok, call_val, call_exc, call_w))
    p.prove('the function is called once, with the value', p.world == w)
    if not p.branch(ok):
        t = out.exc_term() if not out.ok else None
        p.prove('an error of the function is raised', z3.BoolVal(False) if t is None else t == exc)
        return
    prove_assertion(I, p, out, truthy(val), ARG, err, notice)


BASE = ['AssertValidation.__init__', 'AssertValidation.__call__', 'AssertValidation.inner', 'AssertValidation._raise',
        'AssertValidation._exc']
CONTRACTS = [
    Contract('Clamp', run_clamp, ['Clamp.__init__', 'Clamp.__call__', 'Clamp.inner']),
    Contract('Cyclic', run_cyclic, ['Cyclic.__init__', 'Cyclic.__call__', 'Cyclic.inner']),
    Contract('Within', run_within, ['Within.__init__', 'Within.assert_', *BASE], setup_ex=setup),
    Contract('Truth', run_truth, ['Truth.assert_', *BASE], setup_ex=setup),
    Contract('FullMatch', run_fullmatch, ['FullMatch.__init__', 'FullMatch.assert_', *BASE], setup_ex=setup),
    Contract('AssertCallValidation', run_assert_call, ['AssertCallValidation.__init__', 'AssertCallValidation.assert_',
                                                       *BASE], setup_ex=setup),
]
