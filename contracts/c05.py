"""C05: union hints pick the unique best-matching member."""
from .fill import *
from records.fillers.builtin_fillers.typing_fillers import UnionFiller
from pyvc.loops import INF

ASSUMES = ['a member filler is called with effects of its own only (its result and effects are those of its contract)',
           'a union has at least one member (typing guarantees it)']

SUBS, TOKENS, APPLIED = z3.Const('sub_fillers', SV), z3.Const('args', SV), z3.Const('applied', SV)
NOTHING, DIFFERENT = 3, 2


class Member:
    """stands for the class of a member filler, whose behaviour is known by its contract only"""


def fill_of(t): return uf('fill_of', V, V)(t)
def apply_of(t): return uf('apply_of', V, V)(t)
def bind_of(t): return uf('bind_of', V, V)(t)
def value_of(r): return uf('FillingSuccess.value', V, V)(r)
def kind_of(r): return uf('FillingSuccess.type_pass_kind', V, INT)(r)
def m_plain(t): return uf('Member.is_passthrough', V, B)(t)
def m_hollow(t): return uf('Member.is_hollow', V, B)(t)


def member_fill(I, v):
    def fn(I, a):
        r = I.opaque_call(fill_of(v.t), a)
        I.p.assume(z3.And(kind_of(r.t) >= 0, kind_of(r.t) <= 3))
        return I.alloc('success', ObjO(FillingSuccess, dict(value=I.p.unbox(value_of(r.t)),
                                                            type_pass_kind=SInt(kind_of(r.t), TypePassKind))))
    return NativeV(fn, 'fill')


def member_call(I, v, a):
    r = I.opaque_call(fill_of(v.t), a)
    return I.p.unbox(value_of(r.t))


S = models.SCHEMA
S[Member, 'fill'] = member_fill
S[Member, 'is_passthrough'] = 'pure', 'bool'
S[Member, 'is_hollow'] = 'pure', 'bool'
S[Member, 'apply'] = lambda I, v: NativeV(lambda I2, a: I2.opaque_call(apply_of(v.t), a), 'apply')
S[Member, 'bind'] = lambda I, v: NativeV(lambda I2, a: I2.opaque_call(bind_of(v.t), a), 'bind')


def best_body(rec, i, best, key, w):
    """(code, exception, results of the best kind so far, that kind, world)"""
    ok, r, exc, w2 = call1(w, fill_of(SUBS[i]), ARG)
    val, kind = value_of(r), kind_of(r)
    n = z3.Length(SUBS)
    end = z3.Or(i < 0, i >= n)
    b2 = z3.If(kind < key, z3.Unit(val), z3.If(kind == key, z3.Concat(best, z3.Unit(val)), best))
    k2 = z3.If(kind < key, kind, key)
    nxt = rec(i + 1, z3.If(ok, b2, best), z3.If(ok, k2, key), w2)
    failed = z3.And(z3.Not(ok), i == n - 1, z3.Length(best) == 0)
    base = (no(OKC), UNDEF, best, key, w)
    fail = (no(EXC), exc, best, key, w2)
    return tuple(z3.If(end, b, z3.If(failed, f, x)) for b, f, x in zip(base, fail, nxt))


BEST = Rec('best', ['seq', 'num', 'W'], [INT, V, SV, INT, W], best_body)


def allsame_body(rec, i, best):
    return z3.Or(i < 0, i >= z3.Length(best), z3.And(best[i] == best[0], rec(i + 1, best)[0])),


ALLSAME = Rec('allsame', ['seq!'], [B], allsame_body)
ALLPLAIN = Rec('allplain', [], [B], lambda rec, i: (z3.Or(i < 0, i >= z3.Length(SUBS), z3.And(m_plain(SUBS[i]), rec(i + 1)[0])),))
ALLHOLLOW = Rec('allhollow', [], [B], lambda rec, i: (z3.Or(i < 0, i >= z3.Length(SUBS), z3.And(m_hollow(SUBS[i]), rec(i + 1)[0])),))


def a_union(I, p):
    p.assume(z3.Length(SUBS) > 0)
    applied = I.alloc('applied', ListO(seq=APPLIED))
    return I.alloc('union', ObjO(UnionFiller, dict(sub_fillers=SeqV(SUBS, Member), args=SeqV(TOKENS), applied=applied,
                                                   owner=NONE, sub_types=Sym(z3.Const('sub_types', V))))), applied


def tidy_state(I, ctx, entry):
    """there is a best kind exactly if there are results, and there are results once the last member did not fail"""
    out = []
    if ctx.view is None:
        return out
    slots = [s for s in ctx.slots() if s[0] == 'var' and ctx.changing(s)]
    for s in slots:
        if entry.term(s, 'seq') is None:
            continue
        out.append((('ended', s), lambda i, c, s=s: loops.none_or(
            c.term(s, 'seq'), lambda x: z3.Or(i < ctx.view.n, z3.Length(x) > 0))))
        for k in slots:
            if entry.term(k, 'num') is not None:
                out.append((('started', s, k), lambda i, c, s=s, k=k: loops.none_or(c.term(s, 'seq'), lambda x: loops.none_or(
                    c.term(k, 'num'), lambda y: (z3.Length(x) == 0) == (y == INF)))))
    return out


def run_fill(name, what):
    def run(I, p):
        f, _ = a_union(I, p)
        p.observe(arg=ARG, members=SUBS)
        w0 = p.world
        out = run_method(I, UnionFiller, name, f, Sym(ARG))
        plain, = ALLPLAIN.at(p, 0)
        code, exc, best, key, w = BEST.at(p, 0, EMPTY_SEQ, z3.IntVal(INF), w0)
        same, = ALLSAME.at(p, 0, best)
        ALLSAME.at(p, 1, best)
        if out.ok:
            v = out.value if what == 'call' else models.getattr_(I, out.value, 'value')
            p.prove('succeeds only if a member does and the best results are identical',
                    z3.Or(plain, z3.And(code == OKC, same, z3.Length(best) > 0)))
            p.prove('an input no member checks is stored untouched', z3.Implies(plain, p.box(v) == ARG))
            p.prove('the result of the best-matching members', z3.Or(plain, p.box(v) == best[0]))
            if what == 'fill':
                k = models.num(models.getattr_(I, out.value, 'type_pass_kind'))
                p.prove('the best kind of match', k == z3.If(plain, no(3), key))
        else:
            t = out.exc_term()
            p.prove('fails with the error of the last member, or because the best results differ', z3.And(z3.Not(plain), z3.Or(
                z3.And(code == EXC, t == exc) if t is not None else z3.BoolVal(False),
                z3.And(code == OKC, z3.Not(same), out.exc_is(ValueError)))))
        p.prove('every member is offered the input, once', p.world == z3.If(plain, w0, w))
    return run


def apply_body(which):
    seq_ = {'args': TOKENS, 'applied': APPLIED}[which]

    def body(rec, i, w, sf):
        ok, _, exc, w2 = call1(w, apply_of(sf), seq_[i])
        end = z3.Or(i < 0, i >= z3.Length(seq_))
        nxt = rec(i + 1, w2, sf)
        return (z3.If(end, no(OKC), z3.If(ok, nxt[0], no(EXC))), z3.If(end, UNDEF, z3.If(ok, nxt[1], exc)),
                z3.If(end, w, z3.If(ok, nxt[2], w2)))
    return body


APPLY1 = Rec('apply_args', ['W', 'V!'], [INT, V, W], apply_body('args'))
APPLY2 = Rec('apply_applied', ['W', 'V!'], [INT, V, W], apply_body('applied'))


def bind_body(rec, i, w):
    sf = SUBS[i]
    c1, e1, w1 = APPLY1(0, w, sf)
    c2, e2, w2 = APPLY2(0, w1, sf)
    ok, _, e3, w3 = call1(w2, bind_of(sf), OWNER)
    end = z3.Or(i < 0, i >= z3.Length(SUBS))
    nxt = rec(i + 1, w3)
    stages = [(c1 == OKC, e1, w1), (c2 == OKC, e2, w2), (ok, e3, w3)]
    r = nxt
    for good, e, w_ in reversed(stages):
        r = tuple(z3.If(good, a, b) for a, b in zip(r, (no(EXC), e, w_)))
    return tuple(z3.If(end, b, x) for b, x in zip((no(OKC), UNDEF, w), r))


BIND = Rec('bind_members', ['W'], [INT, V, W], bind_body)


def run_bind(I, p):
    f, applied = a_union(I, p)
    w0 = p.world
    out = run_method(I, UnionFiller, 'bind', f, Sym(OWNER, type))
    code, exc, w = BIND.at(p, 0, w0)
    if out.ok:
        p.prove('no error is swallowed', code == OKC)
        p.prove('the filler is bound', p.box(I.get(f).attrs['owner']) == OWNER)
    else:
        t = out.exc_term()
        p.prove('fails with the error of the member', z3.And(code == EXC, t == exc) if t is not None else z3.BoolVal(False))
    p.prove('every token goes to every member, which is then bound', p.world == w)


def run_apply(I, p):
    f, applied = a_union(I, p)
    bound = p.choose(2)
    if bound:
        I.set_attr(f, 'owner', Sym(OWNER, type))
    tok = z3.Const('token', V)
    w0 = p.world
    out = run_method(I, UnionFiller, 'apply', f, Sym(tok))
    s = I.list_seq(I.get(I.get(f).attrs['applied']))
    if out.ok:
        p.prove('accepted only before it is bound', not bound)
        p.prove('the token is kept, last', s == z3.Concat(APPLIED, z3.Unit(tok)))
    else:
        p.prove('rejected only after it is bound', z3.And(z3.BoolVal(bool(bound)), out.exc_is(RuntimeError)))
    p.prove('calls nothing', p.world == w0)


def run_query(name, rec):
    def run(I, p):
        f, applied = a_union(I, p)
        out = run_method(I, UnionFiller, name, f)
        want, = rec.at(p, 0)
        p.prove('no error', out.ok)
        c = models.truth(I, out.value)
        p.prove('exactly if every member is', want == (z3.BoolVal(c) if isinstance(c, bool) else c))
    return run


def setup(ex):
    ex.handlers['call', Member] = member_call


CONTRACTS = [
    Contract('UnionFiller.fill', run_fill('fill', 'fill'), ['UnionFiller.fill', 'UnionFiller.is_passthrough'],
             [BEST, ALLSAME, ALLPLAIN, tidy_state], setup_ex=setup),
    Contract('UnionFiller.__call__', run_fill('__call__', 'call'), ['Filler.__call__'], [BEST, ALLSAME, ALLPLAIN, tidy_state], setup_ex=setup),
    Contract('UnionFiller.apply', run_apply, ['UnionFiller.apply', 'Filler.apply']),
    Contract('UnionFiller.bind', run_bind, ['UnionFiller.bind', 'Filler.bind'], [APPLY1, APPLY2, BIND], setup_ex=setup),
    Contract('UnionFiller.is_hollow', run_query('is_hollow', ALLHOLLOW), ['UnionFiller.is_hollow'], [ALLHOLLOW]),
    Contract('UnionFiller.is_passthrough', run_query('is_passthrough', ALLPLAIN), ['UnionFiller.is_passthrough'], [ALLPLAIN]),
]
