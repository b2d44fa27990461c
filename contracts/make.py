"""The specification of making a record of a class, shared by contracts."""
from .rec import *

K = z3.Const('a name', V)
KD, KM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)

ASSUMES_MAKE = ASSUMES_CLASS + [
    'what a filler or a default factory makes of a call does not depend on the calls before it',
    'calling an exception class gives an instance of that very class or fails', 'forming the text of a message does not fail',
    'the keywords cls, arg and self, which the signature of the constructor takes for itself, are not given']


def fill_ok(f, v): return uf('fill_ok', V, V, B)(f, v)
def fill_val(f, v): return uf('fill_val', V, V, V)(f, v)
def fill_exc(f, v): return uf('fill_exc', V, V, V)(f, v)
def made_ok(f): return uf('made_ok', V, B)(f)
def made_val(f): return uf('made_val', V, V)(f)
def made_exc(f): return uf('made_exc', V, V)(f)
def fills(w, k): return uf('fills', W, V, INT)(w, k)
def makes(w, k): return uf('makes', W, V, INT)(w, k)


def filler_of(k): return field_filler(FM[k])


def default_of(k):
    return z3.If(field_factory(FM[k]), made_val(FM[k]), field_default(FM[k]))


class Ghost:
    """what the verified execution did"""
    def __init__(self, dom, mp):
        self.dom, self.map = dom, mp  # the values given, by name
        self.failed = []              # (kind, exception) of the calls that failed
        self.posted = None            # the record handed to the hook, its state, and what the hook gave


def ghost(p): return p.__dict__['ghost']


def step(p, kind, k):
    """another call on behalf of the field k"""
    w, w2 = p.world, p.fresh('w', W)
    for name, count in (('fill', fills), ('make', makes)):
        p.assume(count(w2, K) == count(w, K) + (z3.If(k == K, no(1), no(0)) if name == kind else no(0)))
    p.set_world(w2)


def fails(I, kind, e):
    p = I.p
    p.assume(isinst(e, p.const(Exception)))
    p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
    p.keep = [*getattr(p, 'keep', []), e]
    g = ghost(p)
    g.failed = g.failed + [(kind, e)]
    raise PyRaise(Sym(e, Exception))


def field_of(t, getter):
    """the field whose attribute the term is"""
    t = z3.simplify(t)
    if z3.is_app(t) and t.num_args() == 1 and t.decl().eq(getter(z3.Const('?', V)).decl()):
        return t.arg(0)
    return None


def fill_contract(I, f, a):
    p = I.p
    g, v = ghost(p), p.box(a.pos[0])
    fld = field_of(f.t, field_filler)
    if fld is None or len(a.pos) != 1 or a.kw or a.maps:
        raise Unsupported('call of a filler')
    k = field_name(fld)
    p.prove('a field processes only the value given for it', z3.And(FD[k], FM[k] == fld, g.dom[k], g.map[k] == v))
    step(p, 'fill', k)
    if p.branch(fill_ok(f.t, v)):
        return p.unbox(fill_val(f.t, v))
    p.failed_name = k
    fails(I, 'fill', fill_exc(f.t, v))


def call_contract(I, f, a):
    """calls of things of unknown kind: default factories, exception classes"""
    p = I.p
    fld = field_of(f.t, field_default)
    e = field_of(f.t, typeof)
    if e is not None and any(e.eq(x) for _, x in ghost(p).failed):
        return build_contract(I, f, a)
    if fld is None:
        return I.opaque_call(f.t, a)
    g, k = ghost(p), field_name(fld)
    p.prove('a factory is called only for a field that is not given', z3.And(
        FD[k], FM[k] == fld, OPT[k], field_factory(fld), z3.Not(g.dom[k])))
    p.prove('a factory is called without arguments', z3.BoolVal(not a.pos and not a.kw and not a.maps))
    step(p, 'make', k)
    if p.branch(made_ok(fld)):
        return p.unbox(made_val(fld))
    p.failed_name = k
    fails(I, 'make', made_exc(fld))


def build_contract(I, f, a):
    """an error of the same class, if there is one made of these arguments"""
    p = I.p
    p.built, p.built_of, p.built_args = bool(p.choose(2)), f.t, list(a.pos)
    e = p.fresh('another error', V)
    p.assume(isinst(e, p.const(Exception)))
    p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
    p.keep = [*getattr(p, 'keep', []), e]
    if not p.built:
        raise PyRaise(Sym(e, Exception))
    p.assume(typeof(e) == f.t)
    p.built_val = e
    return Sym(e, Exception)


def post_contract(I, a):
    """the hook: it may fail, and it may give another record"""
    p, g = I.p, ghost(I.p)
    r = a.pos[0]
    p.prove('the hook runs once', z3.BoolVal(g.posted is None))
    p.prove('the hook is given the record alone', z3.BoolVal(
        len(a.pos) == 1 and not a.kw and not a.maps and isinstance(r, Ref) and isinstance(I.get(r), ObjO)))
    prove_record(I, p, r)
    p.set_world(p.fresh('w', W))
    state = I.get(r), I.get(I.get(r).dyn)
    n = p.choose(3)
    e, other = z3.Const('hook error', V), z3.Const('replacement', V)
    g.posted = r, state, (None, None, other)[n], p.world
    if n == 1:
        fails(I, 'hook', e)
    if n == 0:
        return NONE
    p.assume(other != p.box(NONE))
    return Sym(other)


def prove_record(I, p, r):
    """the record is as it should be, and all that is done for it has been done exactly once"""
    g = ghost(p)
    o = I.get(r)
    p.prove('a record of the class', z3.BoolVal(isinstance(o.cls, Ref) and o.cls.id == p.cls_ref.id))
    dom, mp = I.dict_terms(I.get(o.dyn))
    p.prove('exactly the fields of the class', dom[K] == FD[K])
    p.prove('what the field makes of a value given for it', z3.Implies(g.dom[K], mp[K] == fill_val(filler_of(K), g.map[K])))
    p.prove('the default of a field that is not given', z3.Implies(z3.And(FD[K], z3.Not(g.dom[K])), mp[K] == default_of(K)))
    p.prove('a value is processed once', fills(p.world, K) == z3.If(g.dom[K], no(1), no(0)))
    p.prove('a factory is called once for a field that is not given', makes(p.world, K) == z3.If(
        z3.And(OPT[K], field_factory(FM[K]), z3.Not(g.dom[K])), no(1), no(0)))
    p.prove('only keywords that name fields', z3.Implies(g.dom[K], FD[K]))
    p.prove('every field without default is given', z3.Implies(REQ[K], g.dom[K]))
    p.prove('every value given is accepted', z3.Implies(g.dom[K], fill_ok(filler_of(K), g.map[K])))


def pointwise(I, ctx, entry):
    """invariants at the name K of loops over names"""
    p, out = I.p, []
    view = ctx.view
    if view is None:
        return out
    g = p.__dict__.get('ghost')
    for b, off in loops.distinct_bases(view):
        def done(i, b=b, off=off):
            pos = uf('posof', SV, V, INT)(b, K)
            return z3.And(pos >= 0, pos < z3.Length(b), b[pos] == K, pos < off + i)
        made = z3.And(OPT[K], field_factory(FM[K]))
        kinds = {'all': lambda d: d, 'given': lambda d: z3.And(d, g.dom[K]), 'rest': lambda d: z3.And(d, z3.Not(g.dom[K])),
                 'optional': lambda d: z3.And(d, OPT[K], z3.Not(g.dom[K]))}
        vals = {'given': fill_val(filler_of(K), g.map[K]), 'default': default_of(K),
                'either': z3.If(g.dom[K], fill_val(filler_of(K), g.map[K]), default_of(K))}
        w0 = entry.world
        for kn, kf in kinds.items():
            for s in ctx.slots():
                if not ctx.changing(s):
                    continue
                d0 = entry.term(s, 'dict')
                if d0 is None:
                    continue
                out.append((('pw.dom', str(b), kn, s), lambda i, c, s=s, d0=d0, kf=kf, done=done: loops.none_or(
                    c.term(s, 'dict'), lambda d: d[0][K] == z3.Or(d0[0][K], kf(done(i))))))
                for vn, v in vals.items():
                    out.append((('pw.map', str(b), kn, vn, s), lambda i, c, s=s, d0=d0, kf=kf, v=v, done=done: loops.none_or(
                        c.term(s, 'dict'), lambda d: d[1][K] == z3.If(kf(done(i)), v, d0[1][K]))))
            out.append((('pw.ok', str(b), kn), lambda i, c, kf=kf, done=done: z3.Implies(
                kf(done(i)), fill_ok(filler_of(K), g.map[K]))))
            out.append((('pw.fills', str(b), kn), lambda i, c, kf=kf, done=done: fills(c.p.world, K) == fills(
                w0, K) + z3.If(kf(done(i)), no(1), no(0))))
            out.append((('pw.makes', str(b), kn), lambda i, c, kf=kf, done=done: makes(c.p.world, K) == makes(
                w0, K) + z3.If(z3.And(made, kf(done(i))), no(1), no(0))))
        out.append((('pw.nofills',), lambda i, c: fills(c.p.world, K) == fills(w0, K)))
        out.append((('pw.nomakes',), lambda i, c: makes(c.p.world, K) == makes(w0, K)))
    return out


def parse_contract(I, a):
    """the other reading of a positional argument, known from the contract of parse (C08)"""
    p = I.p
    p.prove('a positional argument is parsed once', z3.BoolVal('parsed' not in p.__dict__))
    ok, val, e = z3.Bool('parse ok'), z3.Const('parsed', V), z3.Const('parse error', V)
    p.parsed = p.box(a.pos[1])
    if p.branch(ok):
        return p.unbox(val)
    p.assume(isinst(e, p.const(TypeError)))
    p.assume(isinst(e, p.const(Exception)))
    p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
    raise PyRaise(Sym(e, Exception))


def start(I, p, dom, mp, **attrs):
    I.keys_of_interest.append(K)
    cls, frozen = a_class(I, p, **attrs)
    p.cls_ref = cls
    p.ghost = Ghost(dom, mp)
    p.assume(fills(p.world, K) == 0)
    p.assume(makes(p.world, K) == 0)
    field_facts(I, FM[K])
    for n in ('cls', 'arg', 'self'):
        p.assume(z3.Not(KD[p.const(n)]))
        p.assume(z3.Not(FD[p.const(n)]))
    return cls, frozen


def setup_make(ex):
    ex.handlers['call', FillerStub] = fill_contract
    ex.handlers['call', None] = ex.handlers['call', type] = call_contract
    ex.handlers['method', 'post_new'] = post_contract
    ex.handlers[models.mro_lookup(RecordBase, 'parse').__func__.__code__] = parse_contract


def make(I, cls, *pos):
    raw = models.mro_lookup(RecordBase, '__new__')
    return attempt(I, lambda: I.call(I.lift(getattr(raw, '__func__', raw)), Args([cls, *pos], {}, [(KD, KM)])))


def misnamed(): return z3.Not(z3.IsSubset(KD, FD))


def is_made_record(I, p, out):
    """the record given to the hook as the hook left it, or its replacement"""
    g = ghost(p)
    if g.posted is None:
        return p.prove('the hook has run', z3.BoolVal(False))
    r, state, other, w = g.posted
    p.prove('the hook runs last', p.world == w)
    if other is not None:
        p.prove('the record the hook gave', p.box(out.value) == other)
    else:
        p.prove('the record given to the hook', z3.BoolVal(isinstance(out.value, Ref) and out.value.id == r.id))
        p.prove('which is left as the hook left it', z3.BoolVal(I.get(r) is state[0] and I.get(I.get(r).dyn) is state[1]))


def prove_error(I, p, out, dom):
    """the error says why no record could be made"""
    g = ghost(p)
    if not g.failed:
        p.prove('fails only for a misnamed or missing keyword', z3.Or(
            z3.Not(z3.IsSubset(dom, FD)), z3.Not(z3.IsSubset(REQ, dom))))
        p.prove('with a TypeError', out.exc_is(TypeError))
        return
    kind, e = g.failed[-1]
    x = out.exc
    if kind != 'fill':
        t = out.exc_term()
        p.prove('the error of a factory or of the hook propagates', t == e if t is not None else z3.BoolVal(False))
        return
    o = I.get(x) if isinstance(x, Ref) else None
    cause = o.attrs.get('__cause__') if o is not None else getattr(p, 'causes', {}).get(x.t.get_id(), (0, None))[1]
    p.prove('the cause is the original error', p.box(cause) == e if cause is not None else z3.BoolVal(False))
    cls = typeof(e)
    if o is not None:
        args = o.attrs.get('args', TupV(())).items
        p.prove('a ValueError if no error of the same class can be built from a message', z3.And(
            z3.BoolVal(o.cls is ValueError), z3.BoolVal(p.__dict__.get('built') is False)))
    else:
        p.prove('an error of the same class', z3.And(z3.BoolVal(p.__dict__.get('built') is True),
                                                     p.__dict__.get('built_of', UNDEF) == cls,
                                                     x.t == p.__dict__.get('built_val', UNDEF)))
        args = p.__dict__.get('built_args', [])
    parts = [q for m in args for q in I.text_parts(m)]
    p.prove('the error names the field', z3.Or(*[p.box(q) == p.failed_name for q in parts]) if parts
            else z3.BoolVal(False))
