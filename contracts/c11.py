"""C11: ordering of records."""
from .rec import *

ASSUMES = ASSUMES_CLASS + [
    'comparing lists is lexicographic comparison by their elements (CPython); the elements compare as user code says',
    'the inherited fields come first in _fields (C17)']

M1, M2 = z3.Const('self.map', AV), z3.Const('other.map', AV)
SUB_ORDER, SUB_FIELDS = z3.Const('sub.fields.order', SV), z3.Const('sub.fields.map', AV)
METHODS = {'__lt__': '<', '__le__': '<=', '__gt__': '>', '__ge__': '>='}


TAG = z3.Const('exclude_from_ordering', V)


def key_rec(name, order, fields, mp):
    def body(rec, i, acc):
        k = order[i]
        nxt = rec(i + 1, z3.If(setdom(field_tags(fields[k]))[TAG], acc, z3.Concat(acc, z3.Unit(mp[k]))))
        return z3.If(z3.Or(i < 0, i >= z3.Length(order)), acc, nxt[0]),
    return Rec(name, ['seq'], [SV], body)


KEY1, KEY2, KEY3 = key_rec('key.self', FORDER, FM, M1), key_rec('key.other', FORDER, FM, M2), \
    key_rec('key.sub', SUB_ORDER, SUB_FIELDS, M2)


def run(I, p, name, kind):
    p.assume(TAG == p.const(exclude_from_ordering))
    cls, frozen = a_class(I, p)
    me, m1 = a_record(I, p, cls, 'self', frozen)
    if kind == 0:
        other, _ = a_record(I, p, cls, 'other', frozen)
    elif kind == 1:
        other = me
        p.assume(M1 == M2)
    elif kind == 2:
        f2 = I.alloc('_fields', DictO(dom=z3.Const('sub.fields.dom', AB), map=SUB_FIELDS, order=SUB_ORDER,
                                      velem=RecordField, cls=FieldDict))
        c2 = I.alloc('class', ClassO(RecordBase, dict(_frozen=Con(bool(p.choose(2))), _fields=f2,
                                                      _ordered=SBool(z3.Bool('sub.ordered')))))
        d = I.alloc('d2', DictO(dom=z3.SetUnion(z3.Const('sub.fields.dom', AB), z3.Const('sub.others', AB)), map=M2))
        other = I.alloc('other', ObjO(c2, dict(_hash=NONE), d))
        p.assume(isinst(p.box(other), p.box(cls)))
    else:
        t = z3.Const('other', V)
        p.assume(z3.Not(isinst(t, p.box(cls))))
        p.assume(typeof(t) != p.box(cls))
        other = Sym(t)
    p.observe(values=M1, other_values=M2, names=FORDER)
    ordered = z3.Bool('ordered')
    k1, = KEY1.at(p, 0, EMPTY_SEQ)
    k2, = (KEY3 if kind == 2 else KEY1 if kind == 1 else KEY2).at(p, 0, EMPTY_SEQ)
    before = dict(p.heap)
    out = run_on(I, name, me, other)
    ni = out.ok and isinstance(out.value, Con) and out.value.obj is NotImplemented
    if not out.ok:
        p.prove('fails only if the class is not ordered', z3.Not(ordered))
        p.prove('with a TypeError', out.exc_is(TypeError))
    elif kind == 3:
        p.prove('left to the other operand', z3.BoolVal(ni))
    else:
        p.prove('records of a class that is not ordered do not compare', ordered)
        p.prove('decided here', z3.BoolVal(not ni))
        if not ni:
            p.prove('the lexicographic comparison of the values of the fields not excluded',
                    truth(I, out.value) == models.zbool(models.list_order(I, METHODS[name], k1, k2)))
    for r in [me] + ([other] if kind < 3 else []):
        p.prove('records are not changed', unchanged(I, before, r))


KINDS = ['another record', 'itself', 'a record of a subclass', 'anything else']
CONTRACTS = [Contract(f'RecordBase.{m} with {what}', lambda I, p, m=m, k=k: run(I, p, m, k), [
    'RecordBase.' + m, 'RecordBase.__ordering_key', 'RecordBase._check_comparable'], [KEY1, KEY2, KEY3])
    for m in METHODS for k, what in enumerate(KINDS)]
