"""C17: what the definition of a class makes of it."""
from .rec import *
import inspect
import warnings
import records.record
from records.fillers.filler import TypeCheckStyle

ASSUMES = [
    'get_type_hints gives a hint for every name that is annotated in the class body (typing)',
    'what becomes of a hint depends on the hint alone (RecordField.from_type_hint, whose contract is in c17_field)',
    'dir() lists attributes of the class', 'warnings are not made errors',
    'a pre-bind hook adds tokens to fillers, and does not change what fields there are',
    'the fields of a record class are kept by _fields, in order, each named like its key (proved below for the class itself)']

K = z3.Const('a name', V)
OD, OM = z3.Const('body.dom', AB), z3.Const('body.map', AV)
ANN = z3.Const('annotations', V)
HD, HM, HORDER = z3.Const('hints.dom', AB), z3.Const('hints.map', AV), z3.Const('hints.order', SV)
ANN_ORDER = z3.Const('annotations.order', SV)
ANN_DOM = z3.Const('annotations.dom', AB)
NAMES = z3.Const('dir', SV)
FIELD, SKIP, BAD = 0, 1, 2


def hint_kind(h): return uf('hint kind', V, INT)(h)
def hint_exc(h): return uf('hint error', V, V)(h)
def new_field(k): return uf('field made', V, V)(k)
def owner_of(f): return uf('RecordField.owner', V, V)(f)
def binds(w, k): return uf('binds', W, V, INT)(w, k)
def static(k): return uf('static attribute', V, V)(k)
def attribute(k): return uf('class attribute', V, V)(k)
def marked(v): return z3.And(uf('hasattr', V, V, B)(v, parser_name()), truthy(uf('getattr', V, V, V)(v, parser_name())))


NAME_OF_MARK = []


def parser_name(): return NAME_OF_MARK[-1]


def default_of(k, p): return z3.If(OD[k], OM[k], p.const(NO_DEFAULT))


# the fields of the body: (code, error, dom, map, order)
def own_body(rec, i, st):
    dom, mp, order = st
    k = ANN_ORDER[i]
    kind = hint_kind(HM[k])
    f = new_field(k)
    d2, m2, o2 = z3.Store(dom, k, True), z3.Store(mp, k, f), z3.If(dom[k], order, z3.Concat(order, z3.Unit(k)))
    nxt = rec(i + 1, tuple(z3.If(kind == FIELD, a, b) for a, b in zip((d2, m2, o2), st)))
    end = z3.Or(i < 0, i >= z3.Length(ANN_ORDER))
    bad = z3.Not(z3.Or(kind == FIELD, kind == SKIP))
    stop = z3.Or(end, bad)
    return (z3.If(z3.And(bad, z3.Not(end)), no(EXC), z3.If(end, no(OKC), nxt[0])),
            z3.If(stop, hint_exc(HM[k]), nxt[1]), *[z3.If(stop, a, b) for a, b in zip(st, nxt[2:])])


OWN = Rec('own fields', ['odict'], [INT, V, AB, AV, SV], own_body, over=[ANN_ORDER, seqof(ANN)])
OWN_DOM, OWN_MAP, OWN_ORDER = z3.Const('own.dom', AB), z3.Const('own.map', AV), z3.Const('own.order', SV)


# the fields of one parent: (code, dom, map, order)
def inherit_rec(n):
    order, mp = parent_terms(n)[2], parent_terms(n)[1]

    def body(rec, i, st):
        dom, m, o = st
        k = order[i]
        twice = z3.Or(OWN_DOM[k], dom[k])
        nxt = rec(i + 1, (z3.Store(dom, k, True), z3.Store(m, k, mp[k]), z3.Concat(o, z3.Unit(k))))
        end = z3.Or(i < 0, i >= z3.Length(order))
        stop = z3.Or(end, twice)
        return (z3.If(end, no(OKC), z3.If(twice, no(EXC), nxt[0])), *[z3.If(stop, a, b) for a, b in zip(st, nxt[1:])])
    return Rec(f'fields of parent {n}', ['odict'], [INT, AB, AV, SV], body, over=[order])


def parent_terms(n):
    return z3.Const(f'parent{n}.dom', AB), z3.Const(f'parent{n}.map', AV), z3.Const(f'parent{n}.order', SV)


INHERIT = [inherit_rec(n) for n in range(2)]


def pars_body(rec, i, acc):
    k = NAMES[i]
    nxt = rec(i + 1, z3.If(marked(static(k)), z3.Concat(acc, z3.Unit(attribute(k))), acc))
    return z3.If(z3.Or(i < 0, i >= z3.Length(NAMES)), acc, nxt[0]),


PARSERS = Rec('parsers', ['seq'], [SV], pars_body, over=[NAMES])


def pointwise(I, ctx, entry):
    """invariants at the name K"""
    p, out, view = I.p, [], ctx.view
    if view is None:
        return out
    o = fields_now(I, p)[1]
    F = None if o is None or o.items is not None else I.dict_terms(o)[1]
    r = I.get(p.cls_ref).attrs.get('_required_keys')
    r = I.get(r) if isinstance(r, Ref) else None
    r = r.dom if isinstance(r, SetO) and r.items is None else None
    x = z3.Const('x', V)
    posx = lambda b: uf('posof', SV, V, INT)(b, x)
    for b, off in loops.distinct_bases(view):
        def done(i, k=K, b=b, off=off):
            pos = uf('posof', SV, V, INT)(b, k)
            return z3.And(pos >= 0, pos < z3.Length(b), b[pos] == k, pos < off + i)
        for s in ctx.slots():
            if not ctx.changing(s):
                continue
            d0 = entry.term(s, 'dict')
            if d0 is not None:
                def isfield(i, done=done): return z3.And(done(i), hint_kind(HM[K]) == FIELD)
                out.append((('set', str(b), s), lambda i, c, s=s, d0=d0, isfield=isfield: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.And(
                        d[0][K] == z3.Or(d0[0][K], isfield(i)),
                        d[1][K] == z3.If(isfield(i), new_field(K), d0[1][K])))))
                out.append((('later', str(b), s), lambda i, c, s=s, d0=d0, b=b, off=off: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.ForAll([x], z3.Implies(
                        d[0][x], z3.Or(d0[0][x], z3.And(posx(b) >= 0, posx(b) < off + i)))))))
                out.append((('mine', str(b), s), lambda i, c, s=s: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.ForAll([x], z3.Implies(d[0][x], d[1][x] == new_field(x))))))
                out.append((('theirs', s), lambda i, c, s=s: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.Implies(d[0][K], z3.And(
                        owner_of(d[1][K]) != p.box(p.cls_ref), field_name(d[1][K]) == K)))))
                out.append((('apart', str(b), s), lambda i, c, s=s: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.SetIntersect(d[0], OWN_DOM) == EMPTY_DOM)))
            e0 = entry.term(s, 'set')
            if e0 is not None and F is not None:
                for name, cond in (('required', field_default(F[K]) == p.const(NO_DEFAULT)),
                                   ('optional', field_default(F[K]) != p.const(NO_DEFAULT)),
                                   ('not required', None if r is None else z3.Not(r[K]))):
                    if cond is not None:
                        out.append(((name, str(b), s), lambda i, c, s=s, e0=e0, cond=cond, done=done: loops.none_or(
                            c.term(s, 'set'), lambda d: d[K] == z3.Or(e0[K], z3.And(done(i), cond)))))
        if F is not None:
            w0 = entry.world
            out.append((('binds', str(b)), lambda i, c, w0=w0, done=done, F=F: binds(c.p.world, K) == binds(
                w0, K) + z3.If(z3.And(done(i), owner_of(F[K]) == p.box(p.cls_ref)), no(1), no(0))))
    out.append((('nobinds',), lambda i, c: binds(c.p.world, K) == binds(entry.world, K)))
    return out


def raise_(I, what, e):
    p = I.p
    p.assume(isinst(e, p.const(Exception)))
    p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
    p.keep = [*getattr(p, 'keep', []), e]
    p.failed = p.__dict__.get('failed', []) + [(what, e)]
    raise PyRaise(Sym(e, Exception))


def hint_contract(I, a):
    """what becomes of a name of the body (from_type_hint, below)"""
    p = I.p
    kw = dict(a.kw)
    th = a.pos[1] if len(a.pos) > 1 else kw.pop('th', None)
    name, owner, default = kw.pop('name', None), kw.pop('owner', None), kw.pop('default', None)
    if th is None or name is None or default is None or owner is None or kw or a.maps:
        raise Unsupported('from_type_hint')
    n = p.box(name)
    p.prove('only names of the body are fields', ANN_DOM[n])
    p.prove('a field is made of the hint of its name', p.box(th) == HM[n])
    p.prove('the default is what the body assigns, if anything', p.box(default) == default_of(n, p))
    p.prove('the default is read before the class attribute is replaced', z3.Not(I.dict_terms(I.get(p.set_attrs))[0][n]))
    p.prove('the class owns the field', z3.BoolVal(isinstance(owner, Ref) and owner.id == p.cls_ref.id))
    f = I.get(p.cls_ref).attrs.get('_frozen')
    p.prove('it is known whether the class is frozen', z3.BoolVal(False) if f is None else truth(I, f) == p.frozen)
    kind = hint_kind(HM[n])
    if p.branch(kind == SKIP):
        return Con(records.record.SKIP_FIELD)
    if not p.branch(kind == FIELD):
        raise_(I, 'hint', hint_exc(HM[n]))
    t = new_field(n)
    field_is(p, n)
    return Sym(t, RecordField)


def field_is(p, n):
    t = new_field(n)
    p.assume(z3.And(field_name(t) == n, owner_of(t) == p.box(p.cls_ref), t != p.const(records.record.SKIP_FIELD),
                    (field_default(t) == p.const(NO_DEFAULT)) == z3.Not(OD[n])))


FD, FM, FO = z3.Const('fields.dom', AB), z3.Const('fields.map', AV), z3.Const('fields.order', SV)


def about(p, mp, k):
    """what is known of every field of the class (proved of K when the fields are named)"""
    return z3.And(field_name(mp[k]) == k, (owner_of(mp[k]) == p.box(p.cls_ref)) == OWN_DOM[k],
                  z3.Implies(OWN_DOM[k], mp[k] == new_field(k)))


def name_own(I, p):
    """give the own fields their names, if they are those of the body"""
    f, o = fields_now(I, p)
    if o is None or o.items is not None or o.order is None or o.dom.eq(OWN_DOM):
        return
    if p.implied(z3.And(o.dom == OWN_DOM, o.order == OWN_ORDER, z3.Implies(OWN_DOM[K], z3.And(
            o.map[K] == OWN_MAP[K], about(p, o.map, K))))):
        p.assume(z3.Implies(OWN_DOM[K], about(p, OWN_MAP, K)))
        p.implied(p.own_code == OKC) and p.assume(p.own_code == OKC)
        p.forget('own fields', quantified)
        p.heap[f.id] = DictO(dom=OWN_DOM, map=OWN_MAP, order=OWN_ORDER, velem=RecordField, cls=o.cls)


def name_fields(I, p):
    """give the fields names, if they are those of the parents and of the body"""
    f, o = fields_now(I, p)
    if o is None or o.items is not None or o.order is None or o.dom.eq(FD) or p.__dict__.get('named'):
        return
    code, err, dom, mp, order = p.spec
    if p.implied(z3.And(o.dom == dom, o.order == order, z3.Implies(dom[K], z3.And(o.map[K] == mp[K], about(p, o.map, K))))):
        p.heap[f.id] = DictO(dom=FD, map=FM, order=FO, velem=RecordField, cls=o.cls)
        p.spec = code, err, FD, FM, FO
        p.named = True
        p.assume(FD[K] == dom[K])
        p.assume(z3.Implies(dom[K], FM[K] == mp[K]))
        p.assume(z3.Implies(FD[K], about(p, FM, K)))
        p.assume((FD == EMPTY_DOM) == (dom == EMPTY_DOM))
        models.order_facts(I, FD, FO)
        p.implied(code == OKC) and p.assume(code == OKC)
        p.forget('fields', quantified)


def quantified(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() not in seen:
            seen.add(t.get_id())
            todo += t.children()
    return False


def set_fields(I, v, x):
    I.set_attr(v, '_fields', x)
    if v.id == I.p.cls_ref.id:
        name_fields(I, I.p)


def owner(I, v):
    t = z3.simplify(v.t)
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT and t.arg(0).sort() == AV:
        m, k = t.arg(0), t.arg(1)
        for named, dom in (FM, FD), (OWN_MAP, OWN_DOM):
            if m.eq(named):
                I.p.assume(z3.Implies(dom[k], about(I.p, m, k)))
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SELECT:
        k = t.arg(1)
        I.p.assume(z3.Implies(t == new_field(k), z3.And(field_name(t) == k, owner_of(t) == I.p.box(I.p.cls_ref))))
    return Sym(owner_of(v.t))


S[RecordField, 'owner'] = owner


def bind_of(I, v):
    def bind(I, a):
        p = I.p
        f = v.t
        s = z3.simplify(f)
        if not (z3.is_app(s) and s.num_args() == 1 and s.decl().eq(field_filler(K).decl())):
            raise Unsupported('bind')
        fld = s.arg(0)
        p.prove('fillers are bound to the class', z3.BoolVal(len(a.pos) == 1 and isinstance(
            a.pos[0], Ref) and a.pos[0].id == p.cls_ref.id))
        p.prove('only fillers of own fields are bound', owner_of(fld) == p.box(p.cls_ref))
        p.prove('after the pre-bind hook', z3.BoolVal('hooked' in p.__dict__))
        style = I.get(p.cls_ref).attrs.get('_default_type_check_style')
        p.prove('the default check style is known', z3.BoolVal(style is not None) if style is None else
                p.box(style) == p.box(p.style))
        n = field_name(fld)
        w, w2 = p.world, p.fresh('w', W)
        p.assume(binds(w2, K) == binds(w, K) + z3.If(n == K, no(1), no(0)))
        p.set_world(w2)
        if p.branch(uf('bind ok', V, B)(f)):
            return NONE
        raise_(I, 'bind', uf('bind error', V, V)(f))
    return NativeV(bind, 'bind')


S[FillerStub, 'bind'] = bind_of


def hook(I, v):
    def pre_bind(I, a):
        p = I.p
        p.prove('the pre-bind hook runs once', z3.BoolVal('hooked' not in p.__dict__))
        p.prove('no filler is bound before the hook', binds(p.world, K) == 0)
        prove_fields(I, p)
        p.hooked = True
        w, w2 = p.world, p.fresh('w', W)
        p.assume(binds(w2, K) == binds(w, K))
        p.set_world(w2)
        if p.choose(2):
            raise_(I, 'hook', z3.Const('hook error', V))
        return NONE
    return NativeV(pre_bind, 'pre_bind')


def static_contract(I, a):
    """getattr_static(cls, name[, default])"""
    p = I.p
    if not (isinstance(a.pos[0], Ref) and a.pos[0].id == p.cls_ref.id):
        raise Unsupported('getattr_static')
    n = p.box(a.pos[1])
    if len(a.pos) > 2:
        d = I.get(p.body)
        p.prove('what the body assigns is read before it is replaced', z3.Not(I.dict_terms(I.get(p.set_attrs))[0][n]))
        # a name that the body does not assign may be an attribute of a base or of the metaclass
        other = z3.If(uf('attribute of a base', V, B)(n), static(n), p.box(a.pos[2]))
        return p.unbox(z3.simplify(z3.If(d.dom[n], d.map[n], other)))
    return Sym(static(n))


def set_attribute(I, a):
    p = I.p
    o, n, v = a.pos
    if not (isinstance(o, Ref) and o.id == p.cls_ref.id):
        raise Unsupported('setattr')
    models.setitem(I, p.set_attrs, n, v)
    return NONE


def get_attribute(I, a):
    p = I.p
    if len(a.pos) == 2 and isinstance(a.pos[0], Ref) and a.pos[0].id == p.cls_ref.id and not isinstance(a.pos[1], Con):
        return Sym(attribute(p.box(a.pos[1])))
    return models.b_getattr(I, a)


def hints(I, a):
    p = I.p
    p.prove('the hints are those of the class', z3.BoolVal(isinstance(a.pos[0], Ref) and a.pos[0].id == p.cls_ref.id))
    p.assume(z3.IsSubset(ANN_DOM, HD))
    return I.alloc('hints', DictO(dom=HD, map=HM, order=HORDER))


def fields_now(I, p):
    f = I.get(p.cls_ref).attrs.get('_fields')
    o = I.get(f) if isinstance(f, Ref) else None
    return (f, o) if isinstance(o, DictO) else (None, None)


def prove_fields(I, p):
    """the fields are those of the parents and then those of the body"""
    f, o = fields_now(I, p)
    p.prove('the fields are kept in a FieldDict', z3.BoolVal(o is not None and o.cls is FieldDict))
    if o is None:
        return
    terms = loops.term_of(I, f, 'odict')
    if terms is None:
        raise Unsupported('order of the fields')
    code, err, dom, mp, order = p.spec
    p.prove('no declaration is refused', code == OKC)
    p.prove('there are fields', dom != EMPTY_DOM)
    p.prove('the fields of the parents and of the body', terms[0] == dom)
    p.prove('inherited and own fields are what was declared', z3.Implies(dom[K], terms[1][K] == mp[K]))
    p.prove('parents first, in order, and then the body in order', terms[2] == order)


FORBIDDEN = '__init__', '__setattr__', '__hash__'


def run(n, mixin='', has_annotations=True, defining=()):
    def run(I, p):
        NAME_OF_MARK.append(p.const('__parser__'))
        I.keys_of_interest.append(K)
        p.frozen = z3.Bool('frozen')
        attrs = {}
        cls = I.alloc('class', ClassO(RecordBase, attrs))
        p.cls_ref = cls
        for f in FORBIDDEN:
            p.assume(OD[p.const(f)] == (f in defining))
        key = p.const('__annotations__')
        p.assume(OD[key] == has_annotations)
        p.body = I.alloc('body', DictO(dom=OD, map=z3.Store(OM, key, ANN) if has_annotations else OM))
        p.boxed[ANN.get_id()] = (ANN, Sym(ANN, dict))
        p.assume(z3.Implies(z3.BoolVal(has_annotations), z3.And(dictdom(ANN) == ANN_DOM, seqof(ANN) == ANN_ORDER)))
        if not has_annotations:
            p.assume(z3.And(ANN_DOM == EMPTY_DOM, ANN_ORDER == EMPTY_SEQ))
        p.assume(z3.Implies(OD[K], OM[K] != p.const(NO_DEFAULT)))
        x = z3.Const('x', V)
        p.assume(z3.ForAll([x], OM[x] != p.const(NO_DEFAULT)))
        p.assume(z3.Not(ANN_DOM[key]))
        p.set_attrs = I.alloc('set attributes', DictO(dom=EMPTY_DOM, map=OM))
        y = z3.Const('y', V)
        field_is(p, K)
        I.ex.handlers['classattr', '__dict__'] = lambda I, v: p.body if v.id == cls.id else p.unbox(p.fresh('d', V))
        parents, recs = [], []
        code, err, dom, mp, order = OWN.at(p, 0, (EMPTY_DOM, EMPTY_MAP, EMPTY_SEQ))
        p.own_code = code
        p.assume(z3.And(OWN_DOM == dom, OWN_MAP == mp, OWN_ORDER == order))
        dom, mp, order = EMPTY_DOM, EMPTY_MAP, EMPTY_SEQ
        for j in range(n):
            d, m, o = parent_terms(j)
            f = I.alloc(f'parent{j}._fields', DictO(dom=d, map=m, order=o, velem=RecordField, cls=FieldDict))
            base = I.alloc(f'parent{j}', ClassO(RecordBase, dict(_fields=f)))
            parents.append(base)
            models.order_facts(I, d, o)
            c2, dom, mp, order = INHERIT[j].at(p, 0, (dom, mp, order))
            models.order_facts(I, dom, order)
            code = z3.If(code != OKC, code, z3.If(c2 != OKC, no(TYPEERR), no(OKC)))
            # fields of a parent were made for the parent or one of its own parents
            p.assume(z3.Implies(d[K], z3.And(owner_of(m[K]) != p.box(cls), field_name(m[K]) == K)))
        bases = list(parents)
        if not n or mixin == 'first':
            bases.insert(0, Con(RecordBase) if not mixin else Con(object))
        elif mixin:
            bases.append(Con(object))

        def bases_of(I, v):
            if v.id != cls.id:
                return TupV([Con(RecordBase)])
            if n:
                name_own(I, I.p)
            return TupV(bases)
        I.ex.handlers['classattr', '__bases__'] = bases_of
        fdom = z3.SetUnion(dom, OWN_DOM)
        fmap = z3.Lambda([x], z3.If(OWN_DOM[x], OWN_MAP[x], mp[x]))
        p.fields = (fdom, z3.Const('fields.map', AV))
        p.assume(p.fields[1][K] == z3.If(OWN_DOM[K], OWN_MAP[K], mp[K]))
        p.spec = code, err, fdom, p.fields[1], z3.Concat(order, OWN_ORDER)
        p.assume(binds(p.world, K) == 0)
        p.observe(annotations=ANN_ORDER, hints=HM, body=OD, a_name=K)
        p.style = SInt(z3.Int('style'), enum=TypeCheckStyle)
        p.assume(z3.And(z3.Int('style') >= 0, z3.Int('style') <= 2))
        kw = dict(default_type_check=p.style)
        ordered, unary = SBool(z3.Bool('ordered')), None
        kw['frozen'], kw['ordered'] = SBool(p.frozen), ordered
        if p.choose(2):
            kw['unary_parse'] = unary = SBool(z3.Bool('unary'))
        before = dict(p.heap)
        raw = models.mro_lookup(RecordBase, '__init_subclass__')
        out = attempt(I, lambda: I.call(I.lift(raw.__func__), Args([cls], kw)))
        finish(I, p, out, before, unary, p.frozen, ordered)
    return run


def finish(I, p, out, before, unary, frozen, ordered):
    code, err, dom, mp, order = p.spec
    failed = p.__dict__.get('failed', [])
    for i, o in before.items():
        if i not in (p.cls_ref.id, p.set_attrs.id):
            p.prove('parents are not changed', z3.BoolVal(p.heap[i] is o or same_dict(o, p.heap[i])))
    if not out.ok:
        t = out.exc_term()
        if failed:
            what, e = failed[-1]
            p.prove('the error of a hint, of the hook or of a filler propagates',
                    z3.BoolVal(False) if t is None else t == e)
        else:
            p.prove('an error is a name declared twice or the lack of fields', z3.Or(code == TYPEERR, z3.And(
                code == OKC, dom == EMPTY_DOM)))
            p.prove('a ValueError', out.exc_is(ValueError))
        return
    p.prove('no error is swallowed', z3.BoolVal(not failed))
    prove_fields(I, p)
    c = I.get(p.cls_ref)
    f, o = fields_now(I, p)
    if o is None:
        return
    F = I.dict_terms(o)

    def members(attr):
        r = c.attrs.get(attr)
        ob = I.get(r) if isinstance(r, Ref) else None
        if not isinstance(ob, SetO):
            raise Unsupported(attr)
        if ob.items is not None:
            raise Unsupported(attr)
        return ob
    req, opt = members('_required_keys'), members('_optional_keys')
    has = field_default(F[1][K]) != p.const(NO_DEFAULT)
    p.prove('required are the fields without a default', req.dom[K] == z3.And(F[0][K], z3.Not(has)))
    p.prove('optional are the fields with a default', opt.dom[K] == z3.And(F[0][K], has))
    p.prove('an own field has a default exactly if the body assigns it', z3.Implies(
        OWN_DOM[K], opt.dom[K] == OD[K]))
    p.prove('frozen as defined', truth(I, c.attrs['_frozen']) == frozen)
    p.prove('ordered as defined', truth(I, c.attrs['_ordered']) == truth(I, ordered))
    p.prove('the default check style as defined', p.box(c.attrs['_default_type_check_style']) == p.box(p.style))
    u = truth(I, c.attrs['_unary_parse'])
    if unary is not None:
        p.prove('unary parsing as defined', u == unary.t)
    else:
        n = models.num(models.length(I, c.attrs['_required_keys']))
        p.prove('unary parsing unless exactly one field is required', u == (n != 1))
    sa, ha = c.attrs.get('__setattr__'), c.attrs.get('__hash__')
    if p.branch(frozen):
        p.prove('a frozen class guards its attributes and hashes', z3.BoolVal(
            is_live(sa, RecordBase.__setattr__) and is_live(ha, RecordBase.__hash__)))
    else:
        p.prove('any other class does neither', z3.BoolVal(
            is_live(sa, object.__setattr__) and isinstance(ha, Con) and ha.obj is None))
    p.prove('the pre-bind hook has run', z3.BoolVal('hooked' in p.__dict__))
    p.prove('the fillers of own fields are bound once', z3.Implies(OWN_DOM[K], binds(p.world, K) == 1))
    p.prove('no other fillers are', z3.Implies(z3.Not(OWN_DOM[K]), binds(p.world, K) == 0))
    sd, sm = I.dict_terms(I.get(p.set_attrs))
    p.prove('the class attributes of own fields are the fields', z3.And(
        sd[K] == OWN_DOM[K], z3.Implies(sd[K], sm[K] == new_field(K))))
    ps = c.attrs.get('_parsers')
    ob = I.get(ps) if isinstance(ps, Ref) else None
    p.prove('the parsers are the attributes marked as such', z3.BoolVal(False) if not isinstance(ob, ListO) else
            I.list_seq(ob) == PARSERS.at(p, 0, EMPTY_SEQ)[0])


def is_live(v, obj):
    return isinstance(v, Con) and v.obj is obj or isinstance(v, FuncV) and v.live is obj


def same_dict(a, b):
    return isinstance(a, DictO) and isinstance(b, DictO) and a.items is None and b.items is None and \
        a.dom.eq(b.dom) and a.map.eq(b.map) and (a.order is None or b.order is not None and a.order.eq(b.order))


def con(ex, fn, h): ex.handlers['con', id(fn)] = h


def setup(ex):
    con(ex, warnings.warn, lambda I, a: NONE)
    con(ex, records.record.get_type_hints, hints)
    con(ex, inspect.getattr_static, static_contract)
    con(ex, dir, lambda I, a: SeqV(NAMES, str))
    con(ex, getattr, get_attribute)
    ex.handlers['setattr'] = set_attribute
    ex.handlers['classattr', 'pre_bind'] = hook
    ex.handlers['setclassattr', '_fields'] = set_fields
    ex.handlers[inspect.getattr_static.__code__] = static_contract
    ex.handlers[models.mro_lookup(RecordField, 'from_type_hint').__func__.__code__] = hint_contract


FORMS = [('no record parent', 0, ''), ('one record parent', 1, ''), ('two record parents', 2, ''),
         ('another parent and a record parent', 1, 'first')]
FUNCTIONS = ['RecordBase.__init_subclass__', 'RecordField.has_default']


def made(n): return [OWN, *INHERIT[:n], PARSERS, pointwise]


CONTRACTS = [Contract(f'RecordBase.__init_subclass__ with {what}', run(n, m), FUNCTIONS, made(n), setup_ex=setup)
             for what, n, m in FORMS] + [
    Contract(f'RecordBase.__init_subclass__ without annotations, with {what}', run(n, m, False), FUNCTIONS, made(n),
             setup_ex=setup) for what, n, m in FORMS] + [
    Contract('RecordBase.__init_subclass__ when the body defines __init__, __setattr__ and __hash__', run(
        0, '', True, FORBIDDEN), FUNCTIONS, made(0), setup_ex=setup)]
