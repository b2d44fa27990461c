"""C18, C14: equality of tags, the fields that have a tag, and the default check style of a class."""
from .rec import *
from records.fillers.filler import TypeCheckStyle

ASSUMES = ['values within tags have a hash, and equal ones have the same']

A, X, Y, TAG = z3.Const('tag', V), z3.Const('value of the tag', V), z3.Const('value of the other', V), z3.Const('a tag', V)


class SubTag(Tag):
    """a subclass of Tag"""


def run_eq(I, p):
    w0 = p.world
    n = p.choose(4)
    a = I.alloc('tag', ObjO(Tag, dict(inner=Sym(X))))
    if n == 3:
        b = Sym(A)
        p.assume(z3.Not(isinst(A, p.const(Tag))))
        p.assume(typeof(A) != p.const(Tag))
    else:
        b = I.alloc('other', ObjO([Tag, SubTag, Tag][n], dict(inner=Sym(Y))))
        if n == 2:
            a = I.alloc('sub', ObjO(SubTag, dict(inner=Sym(X))))
    p.observe(value=X, other=Y)
    f = I.lift(Tag.__eq__)
    out = attempt(I, lambda: I.call(f, Args([a, b])))
    p.prove('no error', z3.BoolVal(out.ok))
    if out.ok:
        if isinstance(out.value, Con) and out.value.obj is NotImplemented:
            r = z3.BoolVal(False)  # left to the other, or to identity
        else:
            r = models.zbool(models.truth(I, out.value))
        same = z3.Or(models.zbool(models.equal(I, Sym(X), Sym(Y))))
        p.prove('equal exactly if they are of one class and hold equal values', r == z3.And(z3.BoolVal(n == 0), same))
    p.prove('calls nothing', p.world == w0)


def run_hash(I, p):
    a = I.alloc('tag', ObjO(Tag, dict(inner=Sym(X))))
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(Tag.__hash__), Args([a])))
    want = attempt(I, lambda: I.call(Con(hash), Args([Sym(X)])))
    if out.ok and want.ok:
        p.prove('the hash is that of its value, as equality needs', p.box(out.value) == p.box(want.value))
    else:
        p.prove('it has one', z3.BoolVal(out.ok == want.ok))
    p.prove('calls nothing', p.world == w0)


def run_init(I, p):
    out = attempt(I, lambda: I.call(Con(Tag), Args([Sym(X)])))
    p.prove('no error', z3.BoolVal(out.ok))
    if out.ok:
        p.prove('it holds the value', p.box(I.get(out.value).attrs.get('inner', NONE)) == X)


def with_tag(d, order, tag):
    def body(rec, i, state):
        acc, m, o = state
        k = order[i]
        end = z3.Or(i < 0, i >= z3.Length(order))
        has = setdom(field_tags(FM[k]))[tag]
        n = rec(i + 1, (z3.If(has, z3.Store(acc, k, True), acc), z3.If(has, z3.Store(m, k, FM[k]), m),
                        z3.If(z3.And(has, z3.Not(acc[k])), z3.Concat(o, z3.Unit(k)), o)))
        return tuple(z3.If(end, a, b) for a, b in zip((acc, m, o), n))
    return body


FILTER = Rec('fields with the tag', ['odict'], [AB, AV, SV], with_tag(FD, FORDER, TAG), over=[FORDER])


def run_filter(I, p):
    c, _ = a_class(I, p, frozen=False)
    fields = I.get(c).attrs['_fields']
    w0 = p.world
    p.assume(TAG != UNDEF)
    out = attempt(I, lambda: I.call(I.lift(FieldDict.filter_by_tag), Args([fields, Sym(TAG, Tag)])))
    p.prove('no error', z3.BoolVal(out.ok))
    if not out.ok:
        return
    r = out.value
    good = isinstance(r, Ref) and isinstance(I.get(r), DictO)
    p.prove('a new FieldDict', z3.BoolVal(good and I.get(r).cls is FieldDict and r.id != fields.id))
    if not good:
        return
    d, m, o = FILTER.at(p, 0, (EMPTY_DOM, EMPTY_MAP, EMPTY_SEQ))
    rd, rm = I.dict_terms(I.get(r))
    k = z3.Const('a name', V)
    p.prove('exactly the fields that have the tag', rd == d)
    p.prove('under their names', z3.Implies(rd[k], rm[k] == m[k]))
    ord_ = loops.term_of(I, r, 'odict')
    if ord_ is None:
        raise Unsupported('order of the fields')
    p.prove('in their order', ord_[2] == o)
    p.prove('the fields stay', z3.And(*[a == b for a, b in zip(loops.term_of(I, fields, 'odict'), (FD, FM, FORDER))]))
    p.prove('calls nothing', p.world == w0)


def run_style(I, p):
    s = z3.Const('style', V)
    c, _ = a_class(I, p, _default_type_check_style=Sym(s, TypeCheckStyle))
    f = RecordBase.__dict__['default_type_check_style'].__func__
    out = attempt(I, lambda: I.call(I.lift(f), Args([c])))
    p.prove('no error', z3.BoolVal(out.ok))
    if out.ok:
        p.prove('the style of the class', p.box(out.value) == s)


CONTRACTS = [
    Contract('Tag.__init__', run_init, ['Tag.__init__']),
    Contract('Tag.__eq__', run_eq, ['Tag.__eq__']),
    Contract('Tag.__hash__', run_hash, ['Tag.__hash__']),
    Contract('FieldDict.filter_by_tag', run_filter, ['FieldDict.filter_by_tag'], [FILTER]),
    Contract('RecordBase.default_type_check_style', run_style, ['RecordBase.default_type_check_style']),
]
