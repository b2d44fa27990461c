"""C15: making records from mappings, objects and JSON."""
from .rec import *
from collections import ChainMap
import collections.abc
import records.extras
import records.record

ASSUMES = ASSUMES_CLASS + [
    'the mappings given are stable: reading them has no effects', 'the json library in use is user code',
    'an unnamed number of mappings is opaque to the code: that they are not modified is shown for up to two dicts']

K = z3.Const('a name', V)
KD, KM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)
MAPS = z3.Const('maps', SV)
OBJ = z3.Const('obj', V)
SEL = z3.Const('a select', V)
TD, TM = z3.Const('extracted.dom', AB), z3.Const('extracted.map', AV)
SD, SM = z3.Const('selected.dom', AB), z3.Const('selected.map', AV)
RESULT = z3.Const('record', V)


def first_body(rec, i):
    """what the first mapping that has the name gives for it"""
    m = MAPS[i]
    nxt = rec(i + 1)
    end = z3.Or(i < 0, i >= z3.Length(MAPS))
    return (z3.And(z3.Not(end), z3.Or(dictdom(m)[K], nxt[0])),
            z3.If(end, UNDEF, z3.If(dictdom(m)[K], dictmap(m)[K], nxt[1])))


def last_body(rec, i, has, val):
    """what the last mapping that has the name gives for it, or else the one so far"""
    m = MAPS[i]
    nxt = rec(i + 1, z3.Or(has, dictdom(m)[K]), z3.If(dictdom(m)[K], dictmap(m)[K], val))
    end = z3.Or(i < 0, i >= z3.Length(MAPS))
    return z3.If(end, has, nxt[0]), z3.If(end, val, nxt[1])


FIRST = Rec('first', [], [B, V], first_body)
LAST = Rec('last', ['bool', 'V'], [B, V], last_body)


def pointwise(I, ctx, entry):
    """invariants at the name K of a loop over the mappings"""
    out = []
    view = ctx.view
    if view is None:
        return out
    for b, off in loops.distinct_bases(view):
        back = b.eq(models.uf('reverse', SV, SV)(MAPS))
        if not b.eq(MAPS) and not back:
            continue
        for s in ctx.slots():
            d0 = entry.term(s, 'dict') if ctx.changing(s) else None
            if d0 is None:
                continue

            def backwards(i, c, s=s, d0=d0, off=off, b=b):
                d = c.term(s, 'dict')
                if d is None:
                    return None
                n = z3.Length(MAPS)
                for j in (i, i - 1):  # what reversing is
                    j = z3.simplify(off + j)
                    c.p.assume(z3.Implies(z3.And(j >= 0, j < n), b[j] == MAPS[n - 1 - j]))
                at, start = z3.simplify(n - off - i), z3.simplify(n - off)
                FIRST.unfold(c.p, at)
                FIRST.unfold(c.p, n)
                x, y = FIRST(at), FIRST(start)
                return z3.Implies(z3.simplify(off) == 0, z3.And(
                    d[0][K] == z3.Or(x[0], d0[0][K]),
                    z3.Implies(d[0][K], d[1][K] == z3.If(x[0], x[1], d0[1][K]))))
            if back:
                out.append((('back', s, str(off)), backwards))
                continue

            def last(i, c, s=s, d0=d0, off=off):
                d = c.term(s, 'dict')
                if d is None:
                    return None
                st = z3.simplify(off + i), d[0][K], d[1][K]
                LAST.unfold(c.p, *st)
                x, y = LAST(*st), LAST(off, d0[0][K], d0[1][K])
                return z3.And(x[0] == y[0], z3.Implies(x[0], x[1] == y[1]))
            out.append((('last', s, str(off)), last))

            def first(i, c, s=s, d0=d0, off=off):
                d = c.term(s, 'dict')
                if d is None:
                    return None
                FIRST.unfold(c.p, z3.simplify(off + i))
                a, b = FIRST(z3.simplify(off + i)), FIRST(off)
                return z3.And(z3.Or(d[0][K], a[0]) == z3.Or(d0[0][K], b[0]),
                              z3.Implies(z3.Or(d[0][K], a[0]), z3.If(d[0][K], d[1][K], a[1]) == z3.If(
                                  d0[0][K], d0[1][K], b[1])))
            out.append((('first', s, str(off)), first))
    return out


def chainmap(I, a):
    """a ChainMap, as far as it is read: of each name, the first mapping that has it"""
    p = I.p
    has, val = z3.BoolVal(False), UNDEF
    for m in reversed(a.pos):
        if isinstance(m, Star):
            if not z3.simplify(m.seq).eq(MAPS):
                raise Unsupported('mappings')
            h, v = FIRST.at(p, 0)
        else:
            d, mp = I.dict_terms(I.get(m)) if isinstance(m, Ref) else (dictdom(p.box(m)), dictmap(p.box(m)))
            h, v = d[K], mp[K]
        has, val = z3.Or(h, has), z3.If(h, v, val)
    r = I.alloc('ChainMap', DictO(dom=p.fresh('chain.dom', AB), map=p.fresh('chain.map', AV), cls=ChainMap))
    o = I.get(r)
    p.assume(o.dom[K] == has)
    p.assume(z3.Implies(has, o.map[K] == val))
    p.chain = r
    return r


def content(I, v):
    """(dom, map) of a mapping"""
    if isinstance(v, Ref) and isinstance(I.get(v), DictO):
        return I.dict_terms(I.get(v))
    if isinstance(v, Sym):
        return dictdom(v.t), dictmap(v.t)
    raise Unsupported('mapping')


def select_contract(I, f, a):
    """applying the Select (C12): it may edit a dict it is given"""
    p = I.p
    p.prove('the Select in use is applied', f.t == SEL)
    p.prove('the Select is applied once', z3.BoolVal('selected' not in p.__dict__))
    p.selected = content(I, a.pos[0])
    p.prove('the Select is not applied to what was there', z3.BoolVal(
        not isinstance(a.pos[0], Ref) or a.pos[0].id not in p.before))
    if not isinstance(a.pos[0], Ref):
        p.prove('the Select is not applied to a dict of the user', z3.Not(isinst(a.pos[0].t, p.const(dict))))
    r, e = z3.Const('what is selected', V), z3.Const('select error', V)
    if p.choose(2):
        p.failed = e
        raise PyRaise(Sym(e, Exception))
    p.assume(z3.And(dictdom(r) == SD, dictmap(r) == SM))
    p.assume(isinst(r, p.const(collections.abc.Mapping)))
    return Sym(r, collections.abc.Mapping)


def construct_contract(I, f, a):
    """making the record (C06)"""
    p = I.p
    p.prove('a record of the class is made', z3.BoolVal(f.id == p.cls_ref.id))
    p.prove('one record is made', z3.BoolVal('made' not in p.__dict__))
    p.prove('it is made of keywords alone', z3.BoolVal(not a.pos))
    p.made = I.merge_maps(a.kw, a.maps)
    if p.choose(2):
        p.failed = z3.Const('error', V)
        raise PyRaise(Sym(p.failed, Exception))
    return Sym(RESULT)


def merge_contract(I, a):
    """selecting (C13): what is selected with nothing is the Select itself"""
    p = I.p
    p.prove('the Select given is merged to nothing', z3.BoolVal(
        isinstance(a.pos[0], Con) and a.pos[0].obj is Select.empty and len(a.pos) == 2 and not a.kw and not a.maps))
    return a.pos[1]


def to_dict_contract(I, a):
    """extracting the attributes of an object (proved below)"""
    p = I.p
    p.prove('the attributes are those of the object given', z3.And(z3.BoolVal(len(a.pos) == 2), p.box(a.pos[1]) == OBJ))
    kw = dict(a.kw)
    if a.maps:
        raise Unsupported('keywords')
    sel = kw.pop('_rev_select', NONE)
    p.prove('nothing is extracted or left out but for the Select', z3.BoolVal(not kw))
    if p.sel is None:
        p.prove('nothing is selected', z3.BoolVal(isinstance(sel, Con) and not sel.obj))
    else:
        p.prove('extracted for the Select', p.box(sel) == p.box(p.sel))
    p.prove('extracted once', z3.BoolVal('extracted' not in p.__dict__))
    p.extracted = True
    if p.choose(2):
        p.failed = z3.Const('extraction error', V)
        raise PyRaise(Sym(p.failed, Exception))
    return I.alloc('extracted', DictO(dom=TD, map=TM))


class JsonLib:
    """stands for the class of the json library"""


def loads(name):
    return lambda I, v: loading(I, name)


def loading(I, name):
    def fn(I2, a):
        p = I2.p
        if name != p.__dict__.get('entry', name):
            raise Unsupported(f'json.{name}')  # reading a file and decoding its text, say, is not modelled
        kd, km = I2.merge_maps(a.kw, a.maps)
        p.prove('the text given is decoded', z3.And(z3.BoolVal(len(a.pos) == 1), p.box(a.pos[0]) == OBJ))
        p.prove('with the arguments given', z3.And(kd[K] == KD[K], z3.Implies(kd[K], km[K] == KM[K])))
        p.prove('decoded once', z3.BoolVal('extracted' not in p.__dict__))
        p.extracted = True
        if p.choose(2):
            p.failed = z3.Const('decoding error', V)
            raise PyRaise(Sym(p.failed, Exception))
        r = z3.Const('decoded', V)
        p.assume(z3.And(dictdom(r) == TD, dictmap(r) == TM))
        p.assume(z3.Not(isinst(r, p.const(Select))))
        # what the caller gets is its own
        return I2.alloc('decoded', DictO(dom=TD, map=TM))
    return NativeV(fn, 'loads')


S[JsonLib, 'loads'], S[JsonLib, 'load'] = loads('loads'), loads('load')


def setup(ex):
    ex.handlers['con', id(ChainMap)] = chainmap
    ex.handlers['construct'] = construct_contract
    ex.handlers['call', Select] = select_contract
    ex.handlers[Select.merge.__code__] = merge_contract
    ex.handlers[Select.__bool__.__code__] = lambda I, a: Con(False) if isinstance(a.pos[0], Con) and \
        a.pos[0].obj is Select.empty else Con(True)
    ex.handlers[models.mro_lookup(RecordBase, '_to_dict').__func__.__code__] = to_dict_contract
    ex.handlers['module', 'records.extras', 'json'] = Sym(z3.Const('json', V), JsonLib)


def a_mapping(I, p, name):
    d, m = z3.Const(name + '.dom', AB), z3.Const(name + '.map', AV)
    return I.alloc(name, DictO(dom=d, map=m)), (d, m)


def call(I, p, factory, cls, args, selected):
    """Cls.factory(...), or Cls.factory.select(a select)(...)"""
    desc = models.mro_lookup(RecordBase, factory)
    f = I.call(I.lift(models.mro_lookup(type(desc), '__get__')), Args([Con(desc), NONE, cls]))
    p.sel = None
    if selected:
        p.sel = Sym(SEL, Select)
        f = I.call(models.getattr_(I, f, 'select'), Args([p.sel]))
    p.before = dict(p.heap)
    return attempt(I, lambda: I.call(f, args))


def prove_record(I, p, out, selected, has, val):
    """the record is made of exactly this, as far as the name K is concerned"""
    if 'failed' in p.__dict__:
        t = out.exc_term() if not out.ok else None
        p.prove('an error is not swallowed', z3.BoolVal(not out.ok))
        if not out.ok:
            p.prove('the error propagates', t == p.failed if t is not None else z3.BoolVal(False))
    elif not out.ok:
        p.prove('no other error', z3.BoolVal(False))
    else:
        p.prove('the record that is made', p.box(out.value) == RESULT)
    if selected and 'selected' in p.__dict__:
        d, m = p.selected
        p.prove('the Select is applied to exactly what is read', z3.And(d[K] == has, z3.Implies(has, m[K] == val)))
        has, val = SD[K], SM[K]
    if 'made' in p.__dict__:
        d, m = p.made
        p.prove('the record is made of exactly what is selected' if selected else
                'the record is made of exactly what is read', z3.And(d[K] == has, z3.Implies(has, m[K] == val)))
        p.prove('what is selected is used', z3.BoolVal(not selected or 'selected' in p.__dict__))
    elif out.ok:
        p.prove('a record is made', z3.BoolVal(False))
    for i, o in p.before.items():
        p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o or same_object(o, p.heap[i])))


def same_object(a, b):
    """an order may have been given a name"""
    if isinstance(a, DictO) and isinstance(b, DictO) and a.items is None and b.items is None:
        return a.dom.eq(b.dom) and a.map.eq(b.map)
    return isinstance(a, SetO) and isinstance(b, SetO) and a.dom.eq(b.dom)


FORMS = ['any number of mappings', 'a dict', 'two dicts']


def start(I, p, frozen=None):
    I.keys_of_interest.append(K)
    cls, frozen = a_class(I, p, frozen)
    p.cls_ref = cls
    for n in ('cls', 'self', 'v', 'func', '_select', 'select', 'args', 'kwargs', 'owner_cls'):
        p.assume(z3.Not(KD[p.const(n)]))
    p.observe(kwargs=KD, a_name=K)
    return cls, frozen


def given(I, p, form):
    """the mappings: (arguments, reading the first, reading the last)"""
    if form == 0:
        return [Star(MAPS, collections.abc.Mapping)], lambda: FIRST.at(p, 0), lambda h, v: LAST.at(p, 0, h, v)
    ms = [a_mapping(I, p, f'mapping{j}') for j in range(form)]

    def first():
        h, v = z3.BoolVal(False), UNDEF
        for _, (d, m) in reversed(ms):
            h, v = z3.Or(d[K], h), z3.If(d[K], m[K], v)
        return h, v

    def last(h, v):
        for _, (d, m) in ms:
            h, v = z3.Or(d[K], h), z3.If(d[K], m[K], v)
        return h, v
    return [r for r, _ in ms], first, last


def run_mapping(form, selected):
    def run(I, p):
        cls, frozen = start(I, p)
        args, first, _ = given(I, p, form)
        has, val = first()
        out = call(I, p, 'from_mapping', cls, Args(args, {}, [(KD, KM)]), selected)
        prove_record(I, p, out, selected, z3.Or(has, KD[K]), z3.If(has, val, KM[K]))
    return run


def run_instance(form, selected):
    def run(I, p):
        cls, frozen = start(I, p)
        args, _, last = given(I, p, form)
        has, val = last(TD[K], TM[K])
        mine = isinst(OBJ, p.box(cls))
        p.assume(OBJ != p.const(NotImplemented))
        for x in (SEL,):
            p.assume(OBJ != x)
        out = call(I, p, 'from_instance', cls, Args([Sym(OBJ), *args], {}, [(KD, KM)]), selected)
        as_is = z3.And(mine, KD == EMPTY_DOM, z3.Length(MAPS) == 0 if form == 0 else z3.BoolVal(form == 0),
                       z3.BoolVal(frozen and not selected))
        if out.ok and 'made' not in p.__dict__ and 'failed' not in p.__dict__:
            p.prove('only a frozen record of the class is returned as is', as_is)
            p.prove('it is the record itself', p.box(out.value) == OBJ)
            p.prove('nothing that was there is changed', z3.BoolVal(all(
                p.heap[i] is o or same_object(o, p.heap[i]) for i, o in p.before.items())))
            return
        p.prove('a frozen record of the class is returned as is', z3.Not(as_is))
        prove_record(I, p, out, selected, z3.Or(has, KD[K]), z3.If(KD[K], KM[K], val))
    return run


def run_json(name, selected):
    def run(I, p):
        cls, frozen = start(I, p)
        p.entry = 'load' if name.endswith('io') else 'loads'
        out = call(I, p, name, cls, Args([Sym(OBJ)], {}, [(KD, KM)]), selected)
        prove_record(I, p, out, selected, TD[K], TM[K])
    return run


def how(s): return ' with a Select' if s else ''


CONTRACTS = [
    *[Contract(f'from_mapping of {FORMS[f]}{how(s)}', run_mapping(f, s), [
        'RecordBase.from_mapping', 'SelectableFactory.run', 'SelectableFactory.Bound.__call__'], [pointwise], setup_ex=setup)
      for f in range(3) for s in (0, 1)],
    *[Contract(f'from_instance with {FORMS[f]}{how(s)}', run_instance(f, s), [
        'RecordBase.from_instance', 'SpecializedSelectableFactory.run', 'SelectableShortcutFactory.run'], [pointwise],
        setup_ex=setup) for f in range(3) for s in (0, 1)],
    *[Contract(f'{n}{how(s)}', run_json(n, s), [f'RecordBase.{n}', 'SelectableFactory.run'], setup_ex=setup)
      for n in ('from_json', 'from_json_io') for s in (0, 1)],
]
