"""Record classes and records of unknown fields, shared by contracts."""
from .base import *
from records.record import NO_ARG, RecordBase, ParseFailure, exclude_from_ordering
from records.field import NO_DEFAULT, FieldDict, RecordField
from records.select import Select
from records.tags import Tag

no = z3.IntVal
OKC, EXC, TYPEERR = 0, 1, 2

FD, FM, FORDER = z3.Const('fields.dom', AB), z3.Const('fields.map', AV), z3.Const('fields.order', SV)
REQ, OPT = z3.Const('required', AB), z3.Const('optional', AB)
RORDER, OORDER = z3.Const('required.order', SV), z3.Const('optional.order', SV)

ASSUMES_CLASS = [
    'a record class is what __init_subclass__ makes of it: _required_keys and _optional_keys partition the names in '
    '_fields, a field is named like its key and has a default exactly if its name is in _optional_keys',
]


def field_default(t): return uf('RecordField.default', V, V)(t)
def field_factory(t): return uf('RecordField.default_is_factory', V, B)(t)
def field_filler(t): return uf('RecordField.filler', V, V)(t)
def field_tags(t): return uf('RecordField.tags', V, V)(t)
def field_name(t): return uf('RecordField.name', V, V)(t)


def field_facts(I, t):
    """what the class guarantees of its field"""
    p = I.p
    s = z3.simplify(t)
    if z3.is_app_of(s, z3.Z3_OP_SELECT) and s.arg(0).eq(FM):
        k = s.arg(1)
        p.assume(z3.Implies(FD[k], z3.And(field_name(t) == k, (field_default(t) != p.const(NO_DEFAULT)) == OPT[k])))


def field_attr(kind, fn):
    def get(I, v):
        field_facts(I, v.t)
        return kind(I, fn(v.t))
    return get


class FillerStub:
    """stands for the class of a field's filler, whose behaviour is known by its contract only"""


S = models.SCHEMA
S[RecordField, 'filler'] = field_attr(lambda I, t: Sym(t, FillerStub), field_filler)
S[RecordField, 'default'] = field_attr(lambda I, t: I.p.unbox(t), field_default)
S[RecordField, 'default_is_factory'] = field_attr(lambda I, t: SBool(t), field_factory)
S[RecordField, 'tags'] = field_attr(lambda I, t: Sym(t, set), field_tags)
S[RecordField, 'name'] = field_attr(lambda I, t: Sym(t, str), field_name)


def a_class(I, p, frozen=None, ordered=None, unary=None, **attrs):
    """an unknown record class; its options are decided by forking unless given"""
    p.assume(FD == z3.SetUnion(REQ, OPT))
    p.assume(z3.SetIntersect(REQ, OPT) == EMPTY_DOM)
    frozen = bool(p.choose(2)) if frozen is None else frozen
    fields = I.alloc('_fields', DictO(dom=FD, map=FM, order=FORDER, velem=RecordField, cls=FieldDict))
    req = I.alloc('_required_keys', SetO(dom=REQ, order=RORDER, elem=str))
    opt = I.alloc('_optional_keys', SetO(dom=OPT, order=OORDER, elem=str))
    a = dict(_fields=fields, _required_keys=req, _optional_keys=opt, _frozen=Con(frozen),
             _ordered=SBool(z3.Bool('ordered')) if ordered is None else Con(ordered),
             _unary_parse=SBool(z3.Bool('unary_parse')) if unary is None else Con(unary))
    a['__setattr__'] = I.lift(RecordBase.__setattr__) if frozen else Con(object.__setattr__)
    a['__hash__'] = I.lift(RecordBase.__hash__) if frozen else NONE
    a.update(attrs)
    return I.alloc('class', ClassO(RecordBase, a)), frozen


def a_record(I, p, cls, name, frozen, hashed=None):
    """a record of the class: its attributes are its fields, and possibly others"""
    dom, mp = z3.SetUnion(FD, z3.Const(f'{name}.others', AB)), z3.Const(f'{name}.map', AV)
    d = I.alloc(name + '.__dict__', DictO(dom=dom, map=mp))
    attrs = {}
    if frozen:
        attrs['_hash'] = NONE if not (p.choose(2) if hashed is None else hashed) else SInt(hash_of(mp))
    return I.alloc(name, ObjO(cls, attrs, d)), mp


def hash_of(mp): return uf('hash_of', AV, INT)(mp)


def method_of(I, name, cls=RecordBase):
    return I.lift(models.mro_lookup(cls, name))


def run_on(I, name, *args, **kw):
    raw = models.mro_lookup(RecordBase, name)
    f = I.lift(raw.__func__ if isinstance(raw, (classmethod, staticmethod)) else raw)
    return attempt(I, lambda: I.call(f, Args(list(args), kw)))


def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def truth(I, v): return zb(models.truth(I, v))


def unchanged(I, before, r):
    a, b = before[r.id], I.get(r)
    if a.attrs.keys() != b.attrs.keys() or before[a.dyn.id] is not I.get(b.dyn):
        return z3.BoolVal(False)
    return z3.And(*[zb(models.is_same(I, a.attrs[k], b.attrs[k])) for k in a.attrs])
