"""C16: copies, pickles and exports."""
from .make import *
from . import make as making
from .c15 import same_object
from .export import equals_default
from copy import deepcopy
import collections.abc
from collections import ChainMap
import records.extras

ASSUMES = ASSUMES_MAKE + [
    'the fields accept the values of the record unchanged, and likewise their deep copies; the hook leaves records as they are',
    'copy.deepcopy, given a memo, makes of a value what it makes of it anywhere with that memo; of a dict it makes a dict '
    'of the deep copies of its values',
    'unpickling calls __new__ with the arguments that were reduced and then restores the state (object.__reduce_ex__)',
    'deciding whether a value equals the default has no effects']

TD, TM = z3.Const('extracted.dom', AB), z3.Const('extracted.map', AV)
RM = z3.Const('self.map', AV)
MEMO = z3.Const('memo', V)


def deep(v): return uf('deep copy', V, V, V)(MEMO, v)


def to_dict_contract(I, a):
    """what exporting the record gives (C14)"""
    p = I.p
    kw = dict(a.kw)
    inc = kw.pop('include_defaults', Con(False))
    if len(a.pos) != 2 or kw or a.maps or not isinstance(inc, Con) or not isinstance(a.pos[1], Ref) \
            or a.pos[1].id != p.me.id:
        return NotImplemented
    r = I.alloc('export', DictO(dom=p.fresh('export.dom', AB), map=p.fresh('export.map', AV)))
    o = I.get(r)
    p.assume(o.dom[K] == z3.And(FD[K], z3.BoolVal(bool(inc.obj)) if inc.obj else z3.Not(equals_default(K, RM[K]))))
    p.assume(z3.Implies(o.dom[K], o.map[K] == RM[K]))
    p.assume(z3.IsSubset(o.dom, FD))
    return r


def chainmap(I, a):
    p = I.p
    has, val, all_ = z3.BoolVal(False), UNDEF, EMPTY_DOM
    for m in reversed(a.pos):
        if not isinstance(m, Ref):
            raise Unsupported('mappings')
        d, mp = I.dict_terms(I.get(m))
        has, val = z3.Or(d[K], has), z3.If(d[K], mp[K], val)
        all_ = z3.SetUnion(d, all_)
    r = I.alloc('ChainMap', DictO(dom=p.fresh('chain.dom', AB), map=p.fresh('chain.map', AV), cls=ChainMap))
    o = I.get(r)
    p.assume(o.dom[K] == has)
    p.assume(z3.Implies(has, o.map[K] == val))
    p.assume(z3.IsSubset(o.dom, all_))
    return r


def construct_contract(I, f, a):
    """making a record, as the code does it"""
    p = I.p
    p.prove('one record is made', z3.BoolVal(p.__dict__.get('ghost') is None))
    p.prove('a record of the class', z3.BoolVal(f.id == p.cls_ref.id))
    p.prove('it is made of keywords alone', z3.BoolVal(not a.pos))
    p.ghost = Ghost(*I.merge_maps(a.kw, a.maps))
    raw = models.mro_lookup(RecordBase, '__new__')
    return I.call(I.lift(getattr(raw, '__func__', raw)), Args([f, *a.pos], a.kw, a.maps))


def post_contract(I, a):
    """the hook leaves the record as it is"""
    p, g = I.p, ghost(I.p)
    r = a.pos[0]
    p.prove('the hook runs once', z3.BoolVal(g.posted is None))
    p.prove('the hook is given the record', z3.BoolVal(isinstance(r, Ref) and isinstance(I.get(r), ObjO)))
    g.posted = r, (I.get(r), I.get(I.get(r).dyn)), None, p.world
    return NONE


def deepcopy_contract(I, a):
    p = I.p
    memo = models.arg(a, 1, 'memo', NONE)
    if p.memo is None:
        p.prove('deep copying keeps a memo', z3.BoolVal(isinstance(memo, Ref) and isinstance(I.get(memo), DictO)))
        p.memo = memo
    same = isinstance(memo, Ref) and isinstance(p.memo, Ref) and memo.id == p.memo.id
    p.prove('with one memo for all', z3.BoolVal(True) if same else p.box(memo) == p.box(p.memo))
    v = a.pos[0]
    o = I.get(v) if isinstance(v, Ref) else None
    if isinstance(o, DictO) and issubclass(o.cls, dict):
        d, m = I.dict_terms(o)
        r = I.alloc('copied', DictO(dom=d, map=p.fresh('copied.map', AV), order=o.order))
        p.assume(I.get(r).map[K] == deep(m[K]))
        return r
    if o is not None:
        raise Unsupported('deep copy')
    return p.unbox(deep(p.box(v)))


def deep_values(I, ctx, entry):
    """invariants at the name K of a loop that deep copies values"""
    out = []
    if ctx.view is None:
        return out
    for b, off in loops.distinct_bases(ctx.view):
        def done(i, b=b, off=off):
            pos = uf('posof', SV, V, INT)(b, K)
            return z3.And(pos >= 0, pos < z3.Length(b), b[pos] == K, pos < off + i)
        for s in ctx.slots():
            if not ctx.changing(s) or entry.term(s, 'dict') is None:
                continue
            d0 = entry.term(s, 'dict')
            for n, f in (('deep', deep(RM[K])), ('same', RM[K])):
                out.append(((n, str(b), s), lambda i, c, s=s, d0=d0, f=f, done=done: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.And(d[0][K] == z3.Or(d0[0][K], done(i)), d[1][K] == z3.If(
                        done(i), f, d0[1][K])))))
    return out


def pointwise16(I, ctx, entry):
    return deep_values(I, ctx, entry) + (making.pointwise(I, ctx, entry) if I.p.__dict__.get('ghost') is not None else [])


def setup(ex):
    setup_make(ex)
    ex.handlers['con', id(ChainMap)] = chainmap
    ex.handlers['con', id(deepcopy)] = deepcopy_contract
    ex.handlers['construct'] = construct_contract
    ex.handlers['method', 'post_new'] = post_contract
    ex.handlers[Select.__bool__.__code__] = lambda I, a: Con(False) if isinstance(a.pos[0], Con) and \
        a.pos[0].obj is Select.empty else NotImplemented
    ex.handlers[models.mro_lookup(RecordBase, '_to_dict').__func__.__code__] = to_dict_contract


def accepts(v): return z3.And(fill_ok(filler_of(K), v), fill_val(filler_of(K), v) == v)


def start16(I, p, frozen=None):
    cls, frozen = start(I, p, KD, KM)
    p.ghost = None
    me, m = a_record(I, p, cls, 'self', frozen)
    p.me, p.memo = me, None
    p.assume(z3.Implies(FD[K], z3.And(accepts(RM[K]), accepts(deep(RM[K])))))
    for n in ('cls', 'self', 'v', 'func', '_select', 'select', 'args', 'kwargs', 'owner_cls'):
        p.assume(z3.Not(FD[p.const(n)]))
    p.observe(fields=FD, values=RM, a_name=K)
    return cls, me, frozen


def prove_copy(I, p, out, value, exact=True):
    """out is a new record of the class, whose field K has the value; or, unless exact, else a default equal to it"""
    if not out.ok:
        g = ghost(p) if p.__dict__.get('ghost') is not None else None
        kind = g.failed[-1][0] if g is not None and g.failed else None
        if kind == 'fill':
            p.assume(K == p.failed_name)
            p.prove('only the record\'s own values are processed', z3.And(g.dom[K], FD[K]))
            p.prove('values of the record are accepted', z3.BoolVal(False))
            return
        if kind == 'make':
            p.assume(K == p.failed_name)
            p.prove('no default is made anew', z3.BoolVal(False))
            return
        if g is not None:
            # at any name: exactly the names of fields are given, and every required one is
            p.prove('only names of fields are given', z3.Implies(g.dom[K], FD[K]))
            p.prove('every required field is given', z3.Implies(REQ[K], g.dom[K]))
            return
        p.prove('no error', z3.BoolVal(False))
        return
    v = out.value
    g = ghost(p) if p.__dict__.get('ghost') is not None else None
    o = I.get(v) if isinstance(v, Ref) else None
    good = isinstance(o, ObjO) and isinstance(o.cls, Ref) and o.cls.id == p.cls_ref.id
    p.prove('a record of the same class', z3.BoolVal(good))
    if not good:
        return
    p.prove('a distinct record', z3.BoolVal(v.id != p.me.id and o.dyn.id != p.before[p.me.id].dyn.id))
    p.prove('the hook has seen it', z3.BoolVal(g is not None and g.posted is not None and g.posted[0].id == v.id))
    d, m = I.dict_terms(I.get(o.dyn))
    p.prove('exactly the fields', d[K] == FD[K])
    same = m[K] == value
    if not exact:
        same = z3.Or(same, z3.And(equals_default(K, value), m[K] == field_default(FM[K])))
    p.prove('the values of the record' if exact else 'the values of the record, or defaults equal to them',
            z3.Implies(FD[K], same))


def nothing_changed(I, p):
    for i, o in p.before.items():
        if i == p.me.id:
            p.prove('the record is not changed', unchanged(I, p.before, p.me))
        elif not (isinstance(p.memo, Ref) and i == p.memo.id):
            p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o or same_object(o, p.heap[i])))


def run_copy(I, p):
    cls, me, frozen = start16(I, p)
    p.before = dict(p.heap)
    out = run_on(I, '__copy__', me)
    if frozen:
        p.prove('no error', z3.BoolVal(out.ok))
        p.prove('the copy of a frozen record is the record', z3.BoolVal(
            out.ok and isinstance(out.value, Ref) and out.value.id == me.id))
        p.prove('nothing is processed', z3.BoolVal(p.__dict__.get('ghost') is None))
    else:
        prove_copy(I, p, out, RM[K])
    nothing_changed(I, p)


def run_deepcopy(how):
    def run(I, p):
        cls, me, frozen = start16(I, p)
        args = []
        if how:
            p.memo = I.alloc('memo', DictO(dom=z3.Const('memo.dom', AB), map=z3.Const('memo.map', AV)))
            args = [p.memo]
        p.before = dict(p.heap)
        out = run_on(I, '__deepcopy__', me, *args)
        prove_copy(I, p, out, deep(RM[K]))
        nothing_changed(I, p)
    return run


def bound(I, name, me, cls):
    """record.name or Class.name"""
    desc = models.mro_lookup(RecordBase, name)
    return I.call(I.lift(models.mro_lookup(type(desc), '__get__')), Args([Con(desc), me, cls]))


def run_newargs(I, p):
    """what unpickling calls __new__ with makes an equal record"""
    cls, me, frozen = start16(I, p)
    p.before = dict(p.heap)
    out = run_on(I, '__getnewargs_ex__', me)
    p.prove('no error', z3.BoolVal(out.ok))
    if not out.ok:
        return
    v = out.value
    good = isinstance(v, TupV) and len(v.items) == 2 and isinstance(v.items[0], TupV) and isinstance(v.items[1], Ref) \
        and isinstance(I.get(v.items[1]), DictO) and issubclass(I.get(v.items[1]).cls, dict)
    p.prove('a pair of a tuple and a dict', z3.BoolVal(good))
    if not good:
        return
    raw = models.mro_lookup(RecordBase, '__new__')
    d = I.get(v.items[1])
    p.prove('nothing is given by position', z3.BoolVal(not v.items[0].items))
    p.ghost = Ghost(*I.dict_terms(d))
    out = attempt(I, lambda: I.call(I.lift(getattr(raw, '__func__', raw)), Args([cls], {}, [I.dict_terms(d)])))
    prove_copy(I, p, out, RM[K], exact=False)
    nothing_changed(I, p)


def run_roundtrip(inc):
    """Class.from_mapping(record.to_dict(...))"""
    def run(I, p):
        cls, me, frozen = start16(I, p)
        p.before = dict(p.heap)
        kw = {'include_defaults': Con(True)} if inc else {}
        out = attempt(I, lambda: I.call(bound(I, 'to_dict', me, cls), Args([], kw)))
        p.prove('no error', z3.BoolVal(out.ok))
        if not out.ok:
            return
        d = out.value
        out = attempt(I, lambda: I.call(bound(I, 'from_mapping', NONE, cls), Args([d])))
        prove_copy(I, p, out, RM[K], exact=bool(inc))
        nothing_changed(I, p)
    return run


class PickleLib:
    """stands for the class of the pickle library"""


def pickle_call(name):
    def get(I, v):
        def fn(I2, a):
            p = I2.p
            if name != p.__dict__.get('entry', name):
                raise Unsupported(f'pickle.{name}')  # making bytes and writing them, say, is not modelled
            p.calls = [*p.__dict__.get('calls', []), (name, list(a.pos), I2.merge_maps(a.kw, a.maps))]
            p.set_world(p.fresh('w', W))
            if p.choose(2):
                p.failed = z3.Const('pickle error', V)
                raise PyRaise(Sym(p.failed, Exception))
            return Sym(z3.Const('pickle result', V))
        return NativeV(fn, name)
    return get


for n in ('dumps', 'dump', 'loads', 'load'):
    S[PickleLib, n] = pickle_call(n)
KWD, KWM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)
ARGS = z3.Const('args', SV)


def prove_pickle(I, p, out, want, args):
    calls = p.__dict__.get('calls', [])
    p.prove('the pickle library in use does it', z3.BoolVal(len(calls) == 1 and calls[0][0] == want))
    if len(calls) != 1:
        return False
    _, pos, (d, m) = calls[0]
    p.prove('with the arguments given', z3.And(I.seq_of_args(pos) == I.seq_of_args(args), d == KWD, m == KWM))
    if 'failed' in p.__dict__:
        t = out.exc_term() if not out.ok else None
        p.prove('an error propagates', z3.BoolVal(False) if t is None else t == p.failed)
        return False
    return True


def run_to_pickle(io):
    def run(I, p):
        cls, me, frozen = start16(I, p)
        for n in ('self', 'io'):
            p.assume(z3.Not(KWD[p.const(n)]))
        p.entry = 'dump' if io else 'dumps'
        p.before = dict(p.heap)
        f = I.lift(models.mro_lookup(RecordBase, 'to_pickle'))
        more = Star(ARGS)
        kw = {'io': Sym(z3.Const('io', V))} if io else {}
        if io:
            p.assume(z3.Const('io', V) != p.const(None))
        out = attempt(I, lambda: I.call(f, Args([me, more], kw, [(KWD, KWM)])))
        if prove_pickle(I, p, out, 'dump' if io else 'dumps', [me, *([kw['io']] if io else []), more]):
            p.prove('no other error', z3.BoolVal(out.ok))
            if out.ok and not io:
                p.prove('what the library gives', p.box(out.value) == z3.Const('pickle result', V))
        nothing_changed(I, p)
    return run


def parse_stub(I, a):
    p = I.p
    p.parsed = p.box(a.pos[1])
    if p.choose(2):
        p.parse_failed = z3.Const('parse error', V)
        raise PyRaise(Sym(p.parse_failed, Exception))
    return Sym(z3.Const('parsed', V))


def run_from_pickle(name, want):
    def run(I, p):
        cls, me, frozen = start16(I, p)
        for n in ('cls', 'v'):
            p.assume(z3.Not(KWD[p.const(n)]))
        p.entry = want
        p.before = dict(p.heap)
        f = I.lift(models.mro_lookup(RecordBase, name).__func__)
        args = [Sym(z3.Const('data', V)), Star(ARGS)]
        out = attempt(I, lambda: I.call(f, Args([cls, *args], {}, [(KWD, KWM)])))
        if prove_pickle(I, p, out, want, args):
            r = z3.Const('pickle result', V)
            mine = isinst(r, p.box(cls))
            if 'parsed' in p.__dict__:
                p.prove('a record of the class is not parsed', z3.Not(mine))
                p.prove('what is loaded is parsed', p.parsed == r)
                if 'parse_failed' in p.__dict__:
                    t = out.exc_term() if not out.ok else None
                    p.prove('an error propagates', z3.BoolVal(False) if t is None else t == p.parse_failed)
                else:
                    p.prove('no other error', z3.BoolVal(out.ok))
                    if out.ok:
                        p.prove('what parsing gives', p.box(out.value) == z3.Const('parsed', V))
            else:
                p.prove('anything else is parsed', mine)
                p.prove('no other error', z3.BoolVal(out.ok))
                if out.ok:
                    p.prove('the record loaded', p.box(out.value) == r)
        nothing_changed(I, p)
    return run


def setup_pickle(ex):
    setup(ex)
    ex.handlers['module', 'records.extras', 'pickle'] = Sym(z3.Const('pickle', V), PickleLib)
    ex.handlers[models.mro_lookup(RecordBase, 'parse').__func__.__code__] = parse_stub


MADE = ['RecordBase.__new__', 'SelectableFactory.run', 'SelectableFactory.Bound.__call__', 'RecordBase.from_mapping']
CONTRACTS = [
    Contract('RecordBase.__copy__', run_copy, ['RecordBase.__copy__', *MADE], [pointwise16], setup_ex=setup),
    *[Contract(f'RecordBase.__deepcopy__{" with a memo" if h else ""}', run_deepcopy(h), ['RecordBase.__deepcopy__', *MADE],
               [pointwise16], setup_ex=setup) for h in (0, 1)],
    Contract('unpickling: __new__ of what __getnewargs_ex__ gives', run_newargs, [
        'RecordBase.__getnewargs_ex__', 'RecordBase.__new__'], [pointwise16], setup_ex=setup),
    *[Contract(f'from_mapping of the {"full " if i else ""}dict export', run_roundtrip(i), [
        'NoArgExporter.run', 'Exporter.run', 'Exporter.Bound.__call__', *MADE], [pointwise16], setup_ex=setup) for i in (0, 1)],
    *[Contract(f'RecordBase.to_pickle{" to a file" if i else ""}', run_to_pickle(i), ['RecordBase.to_pickle'],
               setup_ex=setup_pickle) for i in (0, 1)],
    *[Contract(f'RecordBase.{n}', run_from_pickle(n, w), ['RecordBase.' + n], setup_ex=setup_pickle)
      for n, w in (('from_pickle', 'loads'), ('from_pickle_io', 'load'))],
]

from . import c09, c14
CONTRACTS += [c for c in c09.CONTRACTS if '__reduce_ex__' in c.name]
CONTRACTS += [c for c in c14.CONTRACTS if c.name == 'RecordBase._to_dict of a record, sort absent']
