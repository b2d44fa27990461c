"""C18: every filler of a hint is bound once, to the class, before it is asked whether it checks anything; what it
checks is added to the filler it belongs to, or the definition raises."""
from .fill import *
from records.record import RecordBase
from records.fillers.builtin_fillers import typing_fillers as tf
from records.fillers.get_filler import DumbFiller, get_filler

ASSUMES = ['sub-fillers are distinct objects (get_filler makes a new one of each hint; proved in c18_get up to the '
           'constructors of fillers)',
           'binding a filler binds no other filler but its own sub-fillers']

F = z3.Const('a filler', V)
FILLERS, HINTS = z3.Const('sub_fillers', SV), z3.Const('hints', SV)
J = z3.Int('j')
S = models.SCHEMA
HOLLOW = z3.Bool('the outer filler is hollow')


class Bindable:
    """stands for the class of a sub-filler"""


def binds(w): return uf('times bound', W, INT)(w)
def plain(t): return uf('Bindable.is_passthrough', V, B)(t)
def hollow(t): return uf('Bindable.is_hollow', V, B)(t)
def bind_ok(t): return uf('bind succeeds', V, B)(t)
def bind_exc(t): return uf('error of bind', V, V)(t)
def apply_of(t): return uf('Bindable.apply', V, V)(t)
def filler_of(h): return uf('filler of hint', V, V)(h)


def effect(p, more):
    w, w2 = p.world, p.fresh('w', W)
    p.assume(binds(w2) == binds(w) + more)
    p.set_world(w2)


def raise_(I, e, what):
    p = I.p
    p.assume(isinst(e, p.const(Exception)))
    p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
    p.keep = [*getattr(p, 'keep', []), e]
    p.failed = (what, e)
    raise PyRaise(Sym(e, Exception))


def mark(k): return uf('index looked at', INT, B)(k)


def nth(t):
    """the sequence and the index a term reads"""
    while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        t = t.arg(1)
    if z3.is_app(t) and t.num_args() == 2 and t.arg(0).sort() == SV and t.decl().name().startswith('seq.nth'):
        return t.arg(0), t.arg(1)


def where(p, t):
    """sub-fillers are distinct: only one of them is F"""
    of = z3.is_app(t) and t.decl().name() == 'filler of hint'
    read = nth(t.arg(0) if of else t)
    if read is None:
        return
    s, k = read
    if of and not s.eq(HINTS):
        return
    if s.eq(FILLERS):
        p.assume(z3.Implies(z3.And(k >= 0, k < z3.Length(s)), (t == F) == (k == uf('posof', SV, V, INT)(s, F))))
    else:
        p.assume(mark(k))
        p.assume(z3.Implies(z3.And(k >= 0, k < z3.Length(HINTS)), (filler_of(HINTS[k]) == F) == (k == J)))


def bind_sub(I, v):
    def bind(I, a):
        p = I.p
        where(p, v.t)
        p.prove('fillers are bound to the class', z3.BoolVal(False) if len(a.pos) != 1 or a.kw else p.box(a.pos[0]) == OWNER)
        effect(p, z3.If(v.t == F, no(1), no(0)))
        if p.branch(bind_ok(v.t)):
            return NONE
        raise_(I, bind_exc(v.t), 'bind')
    return NativeV(bind, 'bind')


def asked(fn):
    def attr(I, v):
        def ask(I, a):
            p = I.p
            where(p, v.t)
            p.prove('a filler is asked once it is bound', z3.Implies(v.t == F, binds(p.world) > 0))
            return SBool(fn(v.t))
        return NativeV(ask, 'asked')
    return attr


def call_sub(I, v, a):
    raise Unsupported('a filler is called while binding')


S[Bindable, 'bind'] = bind_sub
S[Bindable, 'is_passthrough'] = asked(plain)
S[Bindable, 'is_hollow'] = asked(hollow)
S[Bindable, 'apply'] = lambda I, v: NativeV(lambda I, a: I.opaque_call(apply_of(v.t), a), 'apply')
S[Bindable, '__bool__'] = 'pure', 'bool'


def inner_bind(I, a):
    """the filler of the container itself (proved in c18)"""
    p = I.p
    o = I.get(a.pos[0])
    if o.cls is not AnnotatedFiller:
        return NotImplemented
    p.prove('the filler is bound to the class', p.box(a.pos[1]) == OWNER)
    p.prove('once', z3.BoolVal(not p.inner_bound))
    p.inner_bound = True
    effect(p, no(0))
    if p.branch(bind_ok(p.box(a.pos[0]))):
        return NONE
    raise_(I, bind_exc(p.box(a.pos[0])), 'bind')


def inner_hollow(I, a):
    p = I.p
    if I.get(a.pos[0]).cls is not AnnotatedFiller:
        return NotImplemented
    p.prove('the filler is asked once it is bound', z3.BoolVal(p.inner_bound))
    return SBool(HOLLOW)


def inner(I, p):
    p.inner_bound = False
    vs = I.alloc('inner validators', ListO(items=[]))
    cs = I.alloc('inner coercers', ListO(seq=COERCERS))
    return I.alloc('inner', ObjO(AnnotatedFiller, dict(
        type_checking_style=Sym(z3.Const('style', V), TypeCheckStyle), coercers=cs, validators=vs, args=TupV([]), owner=NONE)))


def distinct(p, s):
    """posof gives where a filler is"""
    pos = uf('posof', SV, V, INT)(s, F)
    p.among = z3.And(pos >= 0, pos < z3.Length(s), s[pos] == F)
    p.assume(p.among)


def run_bind(cls, subs, attrs):
    def run(I, p):
        i = inner(I, p)
        at = attrs(I, p)
        f = I.alloc('self', ObjO(cls, dict(inner_filler=i, owner=NONE, **at)))
        p.assume(binds(p.world) == 0)
        if subs == 'seq':
            distinct(p, FILLERS)
            mine, all_plain = p.among, None
        else:
            ts = [p.box(at[s]) for s in subs]
            p.assume(z3.Distinct(*ts) if len(ts) > 1 else z3.BoolVal(True))
            mine = z3.Or(*[F == t for t in ts]) if ts else z3.BoolVal(False)
        finish(I, p, cls, f, i, mine)
    return run


def finish(I, p, cls, f, i, mine):
    p.failed = None
    out = run_method(I, cls, 'bind', f, Sym(OWNER, type))
    if not out.ok:
        if p.failed:
            t = out.exc_term()
            p.prove('the error of a filler propagates', z3.BoolVal(False) if t is None else t == p.failed[1])
        else:
            p.prove('raises only in a hollow container, a TypeError', z3.And(HOLLOW, out.exc_is(TypeError)))
        return
    p.prove('no error is swallowed', z3.BoolVal(p.failed is None))
    p.prove('the filler is bound', z3.And(z3.BoolVal(p.inner_bound), p.box(I.get(f).attrs['owner']) == OWNER))
    p.prove('each sub-filler is bound exactly once', z3.Implies(mine, binds(p.world) == 1))
    vs = added_validators(I, i)
    p.prove('what a sub-filler checks is enforced', z3.Implies(z3.And(mine, z3.Not(plain(F))), z3.And(
        z3.Not(HOLLOW), z3.BoolVal(len(vs) > 0))))


def variadic(I, p):
    p.assume(z3.BoolVal(True))
    return dict(sub_fillers=TupV([Sym(z3.Const('E', V), Bindable)]), inner_args=TupV([Sym(z3.Const('hint', V)), Con(...)]))


def run_variadic(I, p):
    i = inner(I, p)
    e = z3.Const('E', V)
    f = I.alloc('self', ObjO(tf.TupleFiller, dict(inner_filler=i, owner=NONE, **variadic(I, p))))
    p.assume(binds(p.world) == 0)
    finish(I, p, tf.TupleFiller, f, i, F == e)


def fixed(I, p):
    p.assume(z3.Length(HINTS) == z3.Length(FILLERS))
    p.assume(z3.Not(z3.And(z3.Length(HINTS) == 2, HINTS[1] == p.const(...))))
    return dict(sub_fillers=SeqV(FILLERS, Bindable), inner_args=SeqV(HINTS))


def one(name): return lambda I, p: {name: Sym(z3.Const('E', V), Bindable)}


def run_wrapper_apply(I, p):
    e, t = z3.Const('E', V), z3.Const('token', V)
    owner = [NONE, Sym(OWNER, type)][p.choose(2)]
    f = I.alloc('self', ObjO(tf.WrapperFiller, dict(inner_filler=Sym(e, Bindable), owner=owner)))
    w0 = p.world
    out = run_method(I, tf.WrapperFiller, 'apply', f, Sym(t))
    ok, val, exc, w = call1(w0, apply_of(e), t)
    if out.ok:
        p.prove('no error is swallowed', ok)
    else:
        x = out.exc_term()
        p.prove('fails with the error of the filler', z3.BoolVal(False) if x is None else z3.And(z3.Not(ok), x == exc))
    p.prove('the token goes to the filler, once', p.world == w)


def run_wrapper_ask(name, fn):
    def run(I, p):
        e = z3.Const('E', V)
        p.assume(binds(p.world) == 1)
        f = I.alloc('self', ObjO(tf.WrapperFiller, dict(inner_filler=Sym(e, Bindable), owner=Sym(OWNER, type))))
        out = run_method(I, tf.WrapperFiller, name, f)
        p.prove('no error', out.ok)
        p.prove('what the filler says', models.zbool(models.truth(I, out.value)) == fn(e))
    return run


# fillers that are given hints they do not fill

def get_filler_contract(I, a):
    p = I.p
    h = p.box(a.pos[0])
    if p.branch(uf('get_filler succeeds', V, B)(h)):
        return Sym(filler_of(h), Bindable)
    raise_(I, uf('error of get_filler', V, V)(h), 'get_filler')


def run_n(I, p):
    i = inner(I, p)
    f = I.alloc('self', ObjO(tf.GenericFillerN, dict(inner_filler=i, owner=NONE, inner_types=SeqV(HINTS))))
    p.assume(binds(p.world) == 0)
    p.assume(z3.And(J >= 0, J < z3.Length(HINTS)))
    # each hint has a filler of its own (see where)
    p.assume(filler_of(HINTS[J]) == F)
    p.failed = None
    out = run_method(I, tf.GenericFillerN, 'bind', f, Sym(OWNER, type))
    if not out.ok:
        if p.failed:
            t = out.exc_term()
            p.prove('the error of a filler propagates', z3.BoolVal(False) if t is None else t == p.failed[1])
        else:
            p.prove('a TypeError', out.exc_is(TypeError))
        return
    p.prove('no error is swallowed', z3.BoolVal(p.failed is None))
    p.prove('the filler is bound', z3.And(z3.BoolVal(p.inner_bound), p.box(I.get(f).attrs['owner']) == OWNER))
    p.prove('the class accepts tokens in no parameter', plain(F))
    p.prove('each filler is bound exactly once', binds(p.world) == 1)


def pointwise(I, ctx, entry):
    out = []
    if ctx.view is None:
        return out
    w0 = entry.world
    for b, off in loops.distinct_bases(ctx.view):
        pos = uf('posof', SV, V, INT)(b, F)
        out.append((('bound', str(b)), lambda i, c, b=b, off=off, pos=pos: binds(c.p.world) == binds(w0) + z3.If(
            z3.And(pos >= 0, pos < z3.Length(b), b[pos] == F, pos < off + i), no(1), no(0))))
        out.append((('plain', str(b)), lambda i, c, b=b, off=off, pos=pos: z3.Implies(
            z3.And(pos >= 0, pos < z3.Length(b), b[pos] == F, pos < off + i), plain(F))))
    out.append((('binds',), lambda i, c: binds(c.p.world) == binds(w0)))
    out.append((('bound j',), lambda i, c: binds(c.p.world) == binds(w0) + z3.If(i > J, no(1), no(0))))
    out.append((('plain j',), lambda i, c: z3.Implies(i > J, plain(F))))
    for s in ctx.slots():
        if ctx.changing(s) and entry.term(s, 'seq') is not None:
            out.append((('filler j', s), lambda i, c, s=s: loops.none_or(c.term(s, 'seq'), lambda x: z3.And(
                z3.Length(x) == i, z3.Implies(i > J, x[J] == F)))))
            k = z3.Int('k')
            out.append((('fillers', s), lambda i, c, s=s: loops.none_or(c.term(s, 'seq'), lambda x: z3.ForAll(
                [k], z3.Implies(z3.And(mark(k), k >= 0, k < i), x[k] == filler_of(HINTS[k])), patterns=[mark(k)]))))
    return out


def owner_class(I, p, style):
    return I.alloc('class', ClassO(RecordBase, dict(_default_type_check_style=Con(style))))


def run_dumb_bind(I, p):
    style = STYLES[p.choose(3)]
    owner = owner_class(I, p, style)
    bound = p.choose(2)
    f = I.alloc('self', ObjO(DumbFiller, dict(owner=owner if bound else NONE, origin=Sym(z3.Const('origin', V)))))
    out = run_method(I, DumbFiller, 'bind', f, owner)
    if out.ok:
        p.prove('a class that checks by default does not accept it', z3.BoolVal(style is TypeCheckStyle.hollow))
        p.prove('bound once', z3.BoolVal(not bound))
    else:
        p.prove('only because of that, or twice', z3.Or(
            z3.And(z3.BoolVal(bool(bound)), out.exc_is(RuntimeError)),
            z3.And(z3.BoolVal(style is not TypeCheckStyle.hollow), out.exc_is(TypeError))))


def run_dumb_apply(I, p):
    f = I.alloc('self', ObjO(DumbFiller, dict(owner=NONE, origin=Sym(z3.Const('origin', V)))))
    out = run_method(I, DumbFiller, 'apply', f, Sym(z3.Const('token', V)))
    p.prove('no token is accepted', z3.BoolVal(False) if out.ok else out.exc_is(TypeError))


def setup(ex):
    ex.handlers[AnnotatedFiller.bind.__code__] = inner_bind
    ex.handlers[AnnotatedFiller.is_hollow.__code__] = inner_hollow
    ex.handlers[get_filler.__code__] = get_filler_contract


def con(name, run, functions, templates=()): return Contract(name, run, functions, list(templates), setup_ex=setup)


CONTRACTS = [
    con('binding WrapperFiller', run_bind(tf.WrapperFiller, (), lambda I, p: {}), ['WrapperFiller.bind', 'Filler.bind']),
    con('WrapperFiller.apply', run_wrapper_apply, ['WrapperFiller.apply']),
    con('WrapperFiller.is_hollow', run_wrapper_ask('is_hollow', hollow), ['WrapperFiller.is_hollow']),
    con('WrapperFiller.is_passthrough', run_wrapper_ask('is_passthrough', plain), ['WrapperFiller.is_passthrough']),
    con('binding GenericIterableFiller', run_bind(tf.GenericIterableFiller, ['element_filler'], one('element_filler')), ['GenericIterableFiller.bind']),
    con('binding GenericDequeFiller', run_bind(tf.GenericDequeFiller, ['element_filler'], one('element_filler')), ['GenericIterableFiller.bind']),
    *[con('binding ' + c.__name__, run_bind(c, ['key_filler', 'value_filler'], lambda I, p: dict(
        key_filler=Sym(z3.Const('KF', V), Bindable), value_filler=Sym(z3.Const('VF', V), Bindable))),
          ['GenericMappingFiller.bind']) for c in (tf.GenericMappingFiller, tf.DefaultDictFiller)],
    con('binding TupleFiller (variadic)', run_variadic, ['TupleFiller.bind']),
    con('binding TupleFiller (fixed)', run_bind(tf.TupleFiller, 'seq', fixed), ['TupleFiller.bind'], [pointwise]),
    con('binding GenericFillerN', run_n, ['GenericFillerN.bind'], [pointwise]),
    Contract('DumbFiller.bind', run_dumb_bind, ['DumbFiller.bind']),
    Contract('DumbFiller.apply', run_dumb_apply, ['DumbFiller.apply']),
]
