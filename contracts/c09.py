"""C09: frozen records are immutable and hash consistently."""
from .export import *

ASSUMES = ASSUMES_CLASS + [
    '== of field values is an equivalence relation, and equal hashable values have equal hashes: tuples of equal '
    'values are both unhashable or have the same hash',
    'dict(pairs).values() are the second components of pairs with distinct first components, in order',
    'object.__reduce_ex__ gives a reconstruction and, as state, the __dict__ of the object and, if it has any, a new '
    'dict of the values of its slots (CPython)']

M = [z3.Const('self.map', AV), z3.Const('other.map', AV)]


def vals_rec(n, inc):
    def body(rec, i, acc):
        k = FORDER[i]
        v = M[n][k]
        keep = z3.BoolVal(True) if inc else z3.Not(equals_default(k, v))
        nxt = rec(i + 1, z3.If(keep, z3.Concat(acc, z3.Unit(v)), acc))
        return z3.If(z3.Or(i < 0, i >= z3.Length(FORDER)), acc, nxt[0]),
    return Rec(f'values {n}{" all" if inc else ""}', ['seq'], [SV], body)


VALS = [[vals_rec(n, inc) for inc in (False, True)] for n in (0, 1)]


def alleq_body(rec, i):
    k = FORDER[i]
    return z3.Or(i < 0, i >= z3.Length(FORDER), z3.And(pyeq(M[0][k], M[1][k]), rec(i + 1)[0])),


ALLEQ = Rec('all equal', [], [B], alleq_body)
EQV = uf('eqv', SV, SV, B)  # equal element by element


def equivalence(p, k, d):
    """what equality of values is assumed to be, for the values and the default of a field"""
    a, b = M[0][k], M[1][k]
    p.assume(z3.Implies(pyeq(a, b), pyeq(d, a) == pyeq(d, b)))
    p.assume(pyeq(a, b) == pyeq(b, a))


def lemma(I, p):
    """if all fields are equal from i on and the lists so far are, the lists of values are"""
    inc = p.choose(2)
    i, acc = p.fresh('i', INT), [p.fresh('acc0', SV), p.fresh('acc1', SV)]
    v1, v2 = VALS[0][inc], VALS[1][inc]
    same, = ALLEQ.at(p, i)
    r1, r2 = v1.at(p, i, acc[0])[0], v2.at(p, i, acc[1])[0]
    k = FORDER[i]
    p.assume(EQV(*acc))
    p.assume(same)
    p.assume(z3.And(i >= 0, i <= z3.Length(FORDER)))
    equivalence(p, k, field_default(FM[k]))
    # by the induction hypothesis, the claim for i + 1
    nxt = [z3.Concat(a, z3.Unit(M[n][k])) for n, a in enumerate(acc)]
    p.assume(z3.Implies(z3.And(EQV(*acc), pyeq(M[0][k], M[1][k])), EQV(*nxt)))
    same1, = ALLEQ(i + 1)
    for a in (acc, nxt):
        p.assume(z3.Implies(z3.And(EQV(*a), same1), EQV(v1(i + 1, a[0])[0], v2(i + 1, a[1])[0])))
    p.prove('lists of values of equal records are equal', EQV(r1, r2))


class ExportO(DictO):
    __slots__ = 'vals',


def to_dict_contract(I, a):
    """what exporting a record to a dict gives (C14)"""
    p = I.p
    if len(a.pos) != 2 or a.maps or set(a.kw) - {'include_defaults'}:
        return NotImplemented
    inc = a.kw.get('include_defaults', Con(False))
    n = next((n for n, r in getattr(I, 'records', {}).items() if isinstance(a.pos[1], Ref) and r.id == a.pos[1].id), None)
    if n is None or not isinstance(inc, Con):
        return NotImplemented
    o = ExportO(dom=p.fresh('export.dom', AB), map=p.fresh('export.map', AV))
    o.vals = VALS[n][bool(inc.obj)].at(p, 0, EMPTY_SEQ)[0]
    return I.alloc('export', o)


def run_hash(I, p):
    cls, _ = a_class(I, p, frozen=True)
    recs = {}
    for n, name in enumerate(['self', 'other']):
        recs[n], _ = a_record(I, p, cls, name, True, hashed=False)
    I.records = recs
    p.observe(values=M[0], other_values=M[1], names=FORDER)
    same, = ALLEQ.at(p, 0)
    for inc in (0, 1):
        s, t = (VALS[n][inc].at(p, 0, EMPTY_SEQ)[0] for n in (0, 1))
        p.assume(z3.Implies(same, EQV(s, t)))  # the lemma
        s, t = boxseq(s), boxseq(t)
        p.assume(z3.Implies(same, z3.And(hashable(s) == hashable(t), hash_(s) == hash_(t))))
    p.assume(same)
    before = dict(p.heap)
    outs = []
    for n in (0, 1):
        outs.append(run_on(I, '__hash__', recs[n]))
    again = run_on(I, '__hash__', recs[0])
    a, b = outs
    if a.ok:
        p.prove('equal records are both hashable', z3.BoolVal(b.ok))
        for what, o in (('equal records have equal hashes', b), ('the hash does not change', again)):
            if o.ok:
                p.prove(what, z3.BoolVal(False) if models.num(o.value) is None or models.num(a.value) is None else
                        models.num(a.value) == models.num(o.value))
        p.prove('still hashable', z3.BoolVal(again.ok))
    else:
        p.prove('fails only for unhashable values', a.exc_is(TypeError))
        p.prove('fails again', z3.BoolVal(not again.ok))
    for n in (0, 1):
        x, y = before[recs[n].id], I.get(recs[n])
        p.prove('only the cached hash is set', z3.BoolVal(
            x.dyn.id == y.dyn.id and before[x.dyn.id] is I.get(y.dyn) and set(y.attrs) <= {'_hash'}))


def hashable(t): return uf('hashable', V, B)(t)
def hash_(t): return uf('hash', V, INT)(t)


def hash_builtin(I, a):
    """equal tuples have equal hashes, for the tuples hashed here"""
    p = I.p
    x = a.pos[0]
    s = x.seq if isinstance(x, SeqV) else seq(*map(p.box, x.items)) if isinstance(x, TupV) else None
    if s is not None:
        done = p.__dict__.setdefault('hashed', [])
        for t in done:
            n = z3.Length(s)
            each = [z3.Implies(j < n, z3.Or(s[j] == t[j], pyeq(s[j], t[j]))) for j in range(4)]
            p.assume(z3.Implies(z3.And(n == z3.Length(t), n <= 4, *each), z3.And(
                hashable(boxseq(s)) == hashable(boxseq(t)), hash_(boxseq(s)) == hash_(boxseq(t)))))
        done.append(s)
    return models.b_hash(I, a)


def setup_hash(ex):
    ex.handlers[models.mro_lookup(RecordBase, '_to_dict').__func__.__code__] = to_dict_contract
    ex.handlers['con', id(hash)] = hash_builtin


NAME, VALUE = z3.Const('name', V), z3.Const('value', V)


def public(p):
    """a field, or a name that is not private"""
    return z3.Or(FD[NAME], z3.Not(uf('startswith', V, V, B)(NAME, p.const('_'))))


def run_set(I, p):
    """setting an attribute of a frozen record; that the class uses this method is the contract of __init_subclass__"""
    cls, _ = a_class(I, p, frozen=True)
    me, _ = a_record(I, p, cls, 'self', True)
    p.assume(public(p))
    p.assume(uf('startswith', V, V, B)(p.const('_hash'), p.const('_')))
    p.assume(z3.Not(FD[p.const('_hash')]))
    before = dict(p.heap)
    out = run_on(I, '__setattr__', me, Sym(NAME, str), Sym(VALUE))
    p.prove('setting an attribute fails', z3.BoolVal(not out.ok))
    if not out.ok:
        p.prove('with a TypeError', out.exc_is(TypeError))
    p.prove('nothing changes', unchanged(I, before, me))


def run_del(I, p, frozen):
    cls, _ = a_class(I, p, frozen=frozen)
    me, m = a_record(I, p, cls, 'self', frozen)
    p.assume(public(p))
    p.assume(uf('startswith', V, V, B)(p.const('_hash'), p.const('_')))
    p.assume(z3.Not(FD[p.const('_hash')]))
    before = dict(p.heap)
    d0 = before[before[me.id].dyn.id]
    out = run_on(I, '__delattr__', me, Sym(NAME, str))
    if frozen:
        p.prove('deleting an attribute fails', z3.BoolVal(not out.ok))
        if not out.ok:
            p.prove('with a TypeError', out.exc_is(TypeError))
        p.prove('nothing changes', unchanged(I, before, me))
    elif out.ok:
        d, mp = I.dict_terms(I.get(I.get(me).dyn))
        p.prove('only attributes that are there are deleted', d0.dom[NAME])
        p.prove('exactly that attribute is deleted', d == z3.Store(d0.dom, NAME, False))
        k = p.fresh('k', V)
        p.prove('all other values are kept', z3.Implies(d[k], mp[k] == m[k]))
    else:
        p.prove('attributes that are there can be deleted', z3.Not(d0.dom[NAME]))
        p.prove('nothing changes', unchanged(I, before, me))


def run_reduce(I, p):
    cls, frozen = a_class(I, p)
    me, m = a_record(I, p, cls, 'self', frozen)
    o = I.get(me)
    slots = I.alloc('slots', DictO(items={k: v for k, v in o.attrs.items()}))
    shape = p.choose(3)
    protocol = SInt(z3.Int('protocol'))

    def reduced(I, a):
        p.prove('reduces the record with the protocol asked for', z3.BoolVal(
            len(a.pos) == 2 and a.pos[0] is me and a.pos[1] is protocol))
        state = TupV([o.dyn, slots]) if o.attrs else o.dyn
        if shape == 0:
            return TupV([Con('newobj'), Con('args'), state, NONE, NONE])
        if shape == 1:
            return TupV([Con('newobj'), Con('args'), state])
        return TupV([Con('newobj'), Con('args')])
    I.ex.handlers['con', id(object.__reduce_ex__)] = reduced
    before = dict(p.heap)
    out = run_on(I, '__reduce_ex__', me, protocol)
    p.prove('no error', z3.BoolVal(out.ok))
    if not out.ok:
        return
    v = out.value
    good = isinstance(v, TupV) and len(v.items) == (5, 3, 2)[shape] and \
        all(isinstance(x, Con) and x.obj == y for x, y in zip(v.items, ('newobj', 'args')))
    p.prove('the same reconstruction', z3.BoolVal(good))
    if good and shape < 2:
        st = v.items[2]
        parts = st.items if isinstance(st, TupV) else (st,)
        p.prove('the state includes the values of the fields', z3.BoolVal(
            isinstance(parts[0], Ref) and (parts[0].id == o.dyn.id or same_dict(I, before, parts[0], o.dyn))))
        for x in parts[1:]:
            ok = isinstance(x, Con) and x.obj is None
            if isinstance(x, Ref) and isinstance(I.get(x), DictO) and I.get(x).items is not None:
                h = I.get(x).items.get('_hash', NONE)
                ok = isinstance(h, Con) and h.obj is None
            p.prove('a computed hash is left behind', z3.BoolVal(ok))
    p.prove('the record is not changed', unchanged(I, before, me))


def same_dict(I, before, a, b):
    x, y = I.get(a), before[b.id]
    return x.items is None and y.items is None and x.dom.eq(y.dom) and x.map.eq(y.map)


CONTRACTS = [
    Contract('lists of values of equal records (lemma)', lemma, []),
    Contract('RecordBase.__hash__', run_hash, ['RecordBase.__hash__', 'Exporter.__get__', 'Exporter.Bound.__call__',
                                               'NoArgExporter.run', 'Exporter.run'],
             [r for rs in VALS for r in rs], setup_ex=setup_hash),
    Contract('RecordBase.__setattr__', run_set, ['RecordBase.__setattr__']),
    Contract('RecordBase.__delattr__ of a frozen record', lambda I, p: run_del(I, p, True), ['RecordBase.__delattr__']),
    Contract('RecordBase.__delattr__', lambda I, p: run_del(I, p, False), ['RecordBase.__delattr__']),
    Contract('RecordBase.__reduce_ex__', run_reduce, ['RecordBase.__reduce_ex__']),
]
