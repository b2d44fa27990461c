"""C17, C18: what becomes of the hint of a field, and of its tags and default."""
from typing import ClassVar, Final
from .rec import *
import records.field
from records.field import Factory, SKIP_FIELD

ASSUMES = [
    'what split_annotation, get_origin and get_args tell of a hint does not change',
    'a hint equals ClassVar or Final only if it is that',
    'a hint that is nested in Final becomes what from_type_hint, called with it, makes of it']

TH, ORIGIN, ARGS = z3.Const('hint', V), z3.Const('origin', V), z3.Const('annotations', SV)
META, INNER = z3.Const('origin of the origin', V), z3.Const('arguments of the origin', SV)
NAME, DEFAULT, OWNER = z3.Const('name', V), z3.Const('default', V), z3.Const('owner', V)
FACTORY_FUNC = uf('Factory.func', V, V)(DEFAULT)
ANNOTATED = uf('Annotated', SV, V)


def same(p, t, obj): return t == p.const(obj)


def is_tag(p, t): return isinst(t, p.const(Tag))


def split(I, a):
    I.p.prove('the hint is split', I.p.box(a.pos[0]) == TH)
    return TupV([Sym(ORIGIN), I.alloc('annotations', ListO(seq=ARGS))])


def origin_of(I, a):
    I.p.prove('the origin is looked through', I.p.box(a.pos[0]) == ORIGIN)
    return Sym(META)


def args_of(I, a):
    I.p.prove('the origin is looked into', I.p.box(a.pos[0]) == ORIGIN)
    return SeqV(INNER)


def make_filler(I, a):
    p = I.p
    p.prove('one filler is made, of the whole hint', z3.And(p.box(a.pos[0]) == TH, z3.BoolVal(not p.filled)))
    p.filled = True
    if p.branch(z3.Bool('get_filler succeeds')):
        return Sym(z3.Const('filler', V), FillerStub)
    e = z3.Const('error of get_filler', V)
    p.assume(isinst(e, p.const(Exception)))
    raise PyRaise(Sym(e, Exception))


def annotated(I, k):
    return Sym(ANNOTATED(seq_of(I, k)))


def seq_of(I, k):
    if isinstance(k, TupV):
        return seq(*[I.p.box(x) for x in k.items])
    if isinstance(k, SeqV):
        return k.seq
    raise Unsupported('Annotated[...]')


def again(I, a):
    """from_type_hint of what is nested"""
    p = I.p
    kw = dict(a.kw)
    if not p.started:
        p.started = True
        return NotImplemented
    th = a.pos[1] if len(a.pos) > 1 else kw.pop('th')
    inner = z3.If(z3.Length(ARGS) == 0, INNER[0], ANNOTATED(z3.Concat(z3.Unit(INNER[0]), ARGS)))
    p.prove('what is nested in Final keeps the annotations around it', p.box(th) == inner)
    p.prove('with the same owner, name and default', z3.And(
        p.box(kw.pop('owner')) == OWNER, p.box(kw.pop('name')) == NAME, p.box(kw.pop('default')) == DEFAULT))
    p.prove('once', z3.BoolVal(not kw and not p.nested))
    p.nested = True
    if p.branch(z3.Bool('nested succeeds')):
        return Sym(z3.Const('nested result', V))
    e = z3.Const('nested error', V)
    p.assume(isinst(e, p.const(Exception)))
    raise PyRaise(Sym(e, Exception))


class OwnerStub:
    pass


S[OwnerStub, 'is_frozen'] = 'pure', 'bool'
S[Factory, 'func'] = lambda I, v: I.p.unbox(uf('Factory.func', V, V)(v.t))


def run(I, p):
    p.started = p.nested = p.filled = False
    p.observe(hint=TH, origin=ORIGIN, annotations=ARGS, meta=META)
    p.assume(z3.Implies(same(p, META, Final), z3.Length(INNER) == 1))
    for t in (TH, ORIGIN, META):
        for form in (ClassVar, Final):
            f = p.const(form)
            p.assume(z3.And(pyeq(t, f) == (t == f), pyeq(f, t) == (t == f)))
    # a factory or not
    default = Sym(DEFAULT, Factory) if p.branch(isinst(DEFAULT, p.const(Factory))) else Sym(DEFAULT)
    raw = models.mro_lookup(RecordField, 'from_type_hint')
    out = attempt(I, lambda: I.call(I.lift(raw.__func__), Args([Con(RecordField), Sym(TH)], dict(
        owner=Sym(OWNER, OwnerStub), name=Sym(NAME, str), default=default))))
    finish(I, p, out)


def finish(I, p, out):
    # == of special forms may be asked for or not
    bare = same(p, TH, Final)
    cv = z3.Or(models.zbool(models.equal(I, Sym(META), Con(ClassVar))), same(p, ORIGIN, ClassVar))
    final = z3.And(z3.Not(bare), z3.Not(cv), same(p, META, Final))
    frozen = uf('OwnerStub.is_frozen', V, B)(OWNER)
    nested = z3.And(final, frozen)
    plain = z3.And(z3.Not(bare), z3.Not(cv), z3.Not(final))
    p.prove('the nested hint is used exactly if it is the one of a Final of a frozen class', z3.BoolVal(p.nested) == nested)
    p.prove('a filler is made exactly of the hint of a field', z3.BoolVal(p.filled) == plain)
    if not out.ok:
        t = out.exc_term()
        if t is None:
            p.prove('a bare Final, and Final in a class that is not frozen, are refused, and nothing else is', z3.And(
                out.exc_is(TypeError), z3.Or(bare, z3.And(final, z3.Not(frozen)))))
        else:
            p.prove('errors of what is made of the hint propagate', z3.Or(
                z3.And(nested, z3.Not(z3.Bool('nested succeeds')), t == z3.Const('nested error', V)),
                z3.And(plain, z3.Not(z3.Bool('get_filler succeeds')), t == z3.Const('error of get_filler', V))))
        return
    r = out.value
    p.prove('a bare Final, and Final in a class that is not frozen, are refused', z3.Not(z3.Or(
        bare, z3.And(final, z3.Not(frozen)))))
    o = I.get(r) if isinstance(r, Ref) else None
    if o is None:
        t = p.box(r)
        p.prove('class variables are skipped, and nothing else is', z3.Or(
            z3.And(cv, t == p.const(SKIP_FIELD)), z3.And(nested, z3.Bool('nested succeeds'), t == z3.Const('nested result', V))))
        return
    p.prove('a field is made exactly of a hint that is to be a field', z3.And(plain, z3.Bool('get_filler succeeds'),
                                                                              z3.BoolVal(o.cls is RecordField)))
    at = o.attrs
    fac = isinst(DEFAULT, p.const(Factory))
    p.prove('its filler is that of the hint', p.box(at['filler']) == z3.Const('filler', V))
    p.prove('its name and owner are those given', z3.And(p.box(at['name']) == NAME, p.box(at['owner']) == OWNER))
    p.prove('its default is what was given, or the function of the factory', p.box(at['default']) == z3.If(
        fac, FACTORY_FUNC, DEFAULT))
    p.prove('it is known whether the default is a factory', truth(I, at['default_is_factory']) == fac)
    tags = I.get(at['tags']) if isinstance(at['tags'], Ref) else None
    if not isinstance(tags, SetO):
        raise Unsupported('tags')
    if tags.items is not None:
        dom = EMPTY_DOM
        for x in tags.items:
            dom = z3.Store(dom, p.box(x), True)
    else:
        dom = tags.dom
    p.prove('its tags are the tags among the annotations', dom == TAGS.at(p, 0, EMPTY_DOM)[0])


class Now:
    p = None


def tags_body(rec, i, acc):
    t = ARGS[i]
    nxt = rec(i + 1, z3.If(is_tag(Now.p, t), z3.Store(acc, t, True), acc))
    return z3.If(z3.Or(i < 0, i >= z3.Length(ARGS)), acc, nxt[0]),


TAGS = Rec('tags', ['set'], [AB], tags_body, over=[ARGS])


def with_now(run):
    def go(I, p):
        Now.p = p
        run(I, p)
    return go


# ---------------------------------------------------------------- defaults

def a_field(I, p):
    return I.alloc('field', ObjO(RecordField, dict(
        filler=Sym(z3.Const('filler', V), FillerStub), name=Sym(NAME, str), owner=Sym(OWNER, OwnerStub),
        default=Sym(z3.Const('the default', V)), default_is_factory=SBool(z3.Bool('factory')))))


def run_make_default(I, p):
    f, w0, d = a_field(I, p), p.world, z3.Const('the default', V)
    out = attempt(I, lambda: I.call(method_of(I, 'make_default', RecordField), Args([f])))
    ok, val, exc, w = call_ok(w0, d, EMPTY_SEQ), call_val(w0, d, EMPTY_SEQ), call_exc(w0, d, EMPTY_SEQ), call_w(w0, d, EMPTY_SEQ)
    fac = z3.Bool('factory')
    if out.ok:
        p.prove('the default, or what the factory makes', p.box(out.value) == z3.If(fac, val, d))
        p.prove('an error of the factory is not swallowed', z3.Implies(fac, ok))
    else:
        p.prove('fails with the error of the factory', z3.BoolVal(False) if out.exc_term() is None else z3.And(
            fac, z3.Not(ok), out.exc_term() == exc))
    p.prove('the factory is called once, if it is one', p.world == z3.If(fac, w, w0))


def run_has_default(I, p):
    f = a_field(I, p)
    out = attempt(I, lambda: models.getattr_(I, f, 'has_default'))
    p.prove('no error', out.ok)
    p.prove('exactly if it is given', truth(I, out.value) == (z3.Const('the default', V) != p.const(NO_DEFAULT)))


def run_is_default(I, p):
    f, v = a_field(I, p), z3.Const('v', V)
    w0 = p.world
    out = attempt(I, lambda: I.call(method_of(I, 'is_default', RecordField), Args([f, Sym(v)])))
    p.prove('no error', out.ok)
    d = z3.Const('the default', V)
    p.prove('exactly if it equals a default that is no factory', truth(I, out.value) == z3.And(
        z3.Not(z3.Bool('factory')), models.zbool(models.equal(I, Sym(d), Sym(v)))))
    p.prove('calls nothing', p.world == w0)


def setup(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(records.field.get_origin, origin_of)
    con(records.field.get_args, args_of)
    ex.handlers[records.field.split_annotation.__code__] = split
    ex.handlers[records.field.get_filler.__code__] = make_filler
    ex.handlers['getitem', id(records.field.Annotated)] = annotated
    ex.handlers[models.mro_lookup(RecordField, 'from_type_hint').__func__.__code__] = again


CONTRACTS = [
    Contract('RecordField.from_type_hint', with_now(run), [
        'RecordField.from_type_hint', 'RecordField.__init__', 'RecordField._apply_factory', 'RecordField._apply'],
        [TAGS], setup_ex=setup),
    Contract('RecordField.make_default', run_make_default, ['RecordField.make_default']),
    Contract('RecordField.has_default', run_has_default, ['RecordField.has_default']),
    Contract('RecordField.is_default', run_is_default, ['RecordField.is_default']),
]
