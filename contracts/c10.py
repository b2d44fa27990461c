"""C10: equality of records."""
from .rec import *

ASSUMES = ASSUMES_CLASS + [
    'comparing field values with == has no effects and does not fail; != is its negation',
    'a cached hash is the hash of the field values (C09), and records whose fields are equal have equal hashes']

M1, M2 = z3.Const('self.map', AV), z3.Const('other.map', AV)


def alleq_body(rec, i):
    k = FORDER[i]
    return z3.Or(i < 0, i >= z3.Length(FORDER), z3.And(pyeq(M1[k], M2[k]), rec(i + 1)[0])),


ALLEQ = Rec('alleq', [], [B], alleq_body)


def run(I, p):
    cls, frozen = a_class(I, p)
    me, m1 = a_record(I, p, cls, 'self', frozen)
    kind = p.choose(4)
    if kind == 0:
        other, m2 = a_record(I, p, cls, 'other', frozen)
    elif kind == 1:
        other, m2 = me, m1
        p.assume(M1 == M2)
    elif kind == 2:
        # of another record class, with fields of its own
        c2 = I.alloc('class', ClassO(RecordBase, dict(_frozen=Con(bool(p.choose(2))))))
        d = I.alloc('d2', DictO(dom=z3.Const('other.dom', AB), map=M2))
        other = I.alloc('other', ObjO(c2, dict(_hash=NONE), d))
    else:
        t = z3.Const('other', V)
        p.assume(typeof(t) != p.box(cls))
        other = Sym(t)
    p.observe(values=M1, other_values=M2, names=FORDER)
    same, = ALLEQ.at(p, 0)
    if kind < 2:
        p.assume(z3.Implies(same, hash_of(M1) == hash_of(M2)))
    before = dict(p.heap)
    out = run_on(I, '__eq__', me, other)
    if not p.prove('no error', out.ok):
        return
    v = out.value
    if kind < 2:
        p.prove('equal exactly if the values of all fields are', truth(I, v) == same)
        p.prove('the comparison is not passed on', z3.BoolVal(not (isinstance(v, Con) and v.obj is NotImplemented)))
    else:
        # NotImplemented leaves it to the other object, and finally to identity: also a correct answer for a record
        p.prove('unequal to anything but a record of the same class', z3.Not(truth(I, v)))
    for r in [me] + ([other] if kind < 3 else []):
        p.prove('records are not changed', unchanged(I, before, r))


CONTRACTS = [Contract('RecordBase.__eq__', run, ['RecordBase.__eq__', 'RecordBase.is_frozen'], [ALLEQ])]
