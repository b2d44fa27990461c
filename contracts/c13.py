"""C13: selecting and configuring never changes the original."""
from .base import *
from records.select import (Exporter, NoArgExporter, Select, SelectableFactory, SelectableShortcutFactory,
                            SpecializedSelectableFactory, SpecializedShortcutFactory)

ASSUMES = ['functools.update_wrapper only copies names and documentation',
           'a Select is not modified but through its methods (its attributes are not assigned to by users)']

KINDS = ['keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename',
         'keys_to_maybe_rename']


def kind_of(k, t): return uf('Select.' + k, V, SV)(t)


S = models.SCHEMA
for k in KINDS:
    S[Select, k] = 'seq'


def any_entries(t): return z3.Or(*[z3.Length(kind_of(k, t)) > 0 for k in KINDS])


def lists(I, v):
    """the lists of a Select value"""
    if isinstance(v, Sym):
        return {k: kind_of(k, v.t) for k in KINDS}
    if isinstance(v, Con) and isinstance(v.obj, Select):
        return {k: seq(*map(I.p.const, getattr(v.obj, k))) for k in KINDS}
    o = I.get(v)
    out = {}
    for k in KINDS:
        x = o.attrs[k]
        out[k] = loops.term_of(I, x, 'seq') if not isinstance(x, Con) else seq(*map(I.p.const, x.obj))
    return out


def is_select(I, v):
    return isinstance(v, Sym) and v.cls is Select or isinstance(v, Con) and isinstance(v.obj, Select) or \
        isinstance(v, Ref) and isinstance(I.get(v), ObjO) and I.get(v).cls is Select


def a_select(I, p, name):
    """any Select; its truth value may have been computed"""
    attrs = {k: SeqV(z3.Const(f'{name}.{k}', SV)) for k in KINDS}
    some = z3.Or(*[z3.Length(attrs[k].seq) > 0 for k in KINDS])
    attrs['_bool'] = SBool(some) if p.choose(2) else NONE
    return I.alloc(name, ObjO(Select, attrs)), attrs


def kept(I, p, ref, attrs, what):
    o = I.get(ref)
    for k in KINDS:
        p.prove(f'{what} keeps its {k}', z3.BoolVal(o.attrs[k] is attrs[k]) if o.attrs[k] is attrs[k] else
                (lists(I, ref)[k] == attrs[k].seq))


def bool_contract(I, a):
    """what Select.__bool__ computes (C12)"""
    v = a.pos[0]
    ls = lists(I, v)
    return SBool(z3.Or(*[z3.Length(ls[k]) > 0 for k in KINDS]))


# ---------------------------------------------------------------- Select

def pairs_of(k):
    """the pairs of a mapping, in its order"""
    t = z3.Const(k, V)
    order, mp = seqof(t), dictmap(t)

    def body(rec, i, acc):
        nxt = rec(i + 1, z3.Concat(acc, z3.Unit(mkpair(order[i], mp[order[i]]))))
        return z3.If(z3.Or(i < 0, i >= z3.Length(order)), acc, nxt[0]),
    return Rec(f'pairs of {k}', ['seq'], [SV], body)


PAIRS = {k: pairs_of(k) for k in KINDS}


def run_init(given):
    """each list is built from an iterable, a mapping, or for removals a string"""
    def run(I, p):
        kw, want = {}, {}
        for k in KINDS:
            if k not in given:
                continue
            form = given[k]
            t = z3.Const(k, V)
            if form == 'mapping':
                import collections.abc
                p.assume(isinst(t, p.const(collections.abc.Mapping)))
                kw[k] = Sym(t, collections.abc.Mapping)
                want[k] = 'items', t
            elif form == 'str':
                p.assume(isinst(t, p.const(str)))
                kw[k] = Sym(t, str)
                want[k] = 'seq', z3.Unit(t)
            elif form == 'list':
                kw[k] = I.alloc('a list', ListO(seq=z3.Const(k + '.elements', SV)))
                want[k] = 'seq', z3.Const(k + '.elements', SV)
            else:
                # an iterable that can be used once
                kw[k] = I.alloc('an iterator', IterO(View(n=z3.Length(seqof(t)), elem=models.SeqElem(p, seqof(t), z3.IntVal(0), None), bases=[(seqof(t), z3.IntVal(0))], what='seq'), 0))
                want[k] = 'seq', seqof(t)
        out = attempt(I, lambda: models.construct(I, Select, Args([], kw)))
        p.prove('no error', z3.BoolVal(out.ok))
        if not out.ok:
            return
        o = I.get(out.value)
        for k in KINDS:
            v = o.attrs[k]
            fixed = isinstance(v, (SeqV, TupV)) or isinstance(v, Con) and isinstance(v.obj, tuple)
            p.prove(f'{k} can be used any number of times', z3.BoolVal(fixed))
            if not fixed:
                continue
            got = lists(I, out.value)[k]
            what, t = want.get(k, ('seq', EMPTY_SEQ))
            if what == 'seq':
                p.prove(f'{k} are those given, in order', got == t)
            else:
                p.prove(f'{k} are the pairs given, in order', got == PAIRS[k].at(p, 0, EMPTY_SEQ)[0])
    return run


def run_merge2(I, p):
    a, attrs_a = a_select(I, p, 'a')
    same = p.choose(2)
    b, attrs_b = (a, attrs_a) if same else a_select(I, p, 'b')
    out = attempt(I, lambda: I.call(I.lift(models.mro_lookup(Select, '_merge')), Args([a, b])))
    p.prove('no error', z3.BoolVal(out.ok))
    if not out.ok:
        return
    p.prove('a Select', z3.BoolVal(is_select(I, out.value)))
    ls = lists(I, out.value)
    for k in KINDS:
        p.prove(f'{k} are those of both, in order', ls[k] == z3.Concat(attrs_a[k].seq, attrs_b[k].seq))
    kept(I, p, a, attrs_a, 'the first')
    kept(I, p, b, attrs_b, 'the second')


OTHERS = z3.Const('others', SV)


def cat_body(k):
    def body(rec, i, acc):
        nxt = rec(i + 1, z3.Concat(acc, kind_of(k, OTHERS[i])))
        return z3.If(z3.Or(i < 0, i >= z3.Length(OTHERS)), acc, nxt[0]),
    return body


def merge_fold(rec_name='merge'):
    def body(rec, i, ret):
        n = merge2(ret, OTHERS[i])
        nxt = rec(i + 1, n)
        return z3.If(z3.Or(i < 0, i >= z3.Length(OTHERS)), ret, nxt[0]),
    return Rec(rec_name, ['V'], [V], body)


def merge2(a, b): return uf('merge of two', V, V, V)(a, b)


def merge2_facts(p, a, b):
    r = merge2(a, b)
    for k in KINDS:
        p.assume(kind_of(k, r) == z3.Concat(kind_of(k, a), kind_of(k, b)))
    return r


def merge2_contract(I, a):
    """what _merge computes: a Select whose lists are those of both"""
    p = I.p
    x, y = (p.box(v) for v in a.pos)
    return Sym(merge2_facts(p, x, y), Select)


FOLD = merge_fold()
CAT = {k: Rec('all ' + k, ['seq'], [SV], cat_body(k)) for k in KINDS}


def run_merge(kwargs):
    def run(I, p):
        me = Sym(z3.Const('self', V), Select)
        p.assume(typeof(me.t) == p.const(Select))
        kd, km = z3.Const('kw.dom', AB), z3.Const('kw.map', AV)
        p.assume(z3.And(*[z3.Not(kd[p.const(x)]) for x in ('self',)]))
        p.assume(kd != EMPTY_DOM if kwargs else kd == EMPTY_DOM)
        I.ex.__dict__['elem_kinds'] = {}
        w0 = p.world
        f = I.lift(models.mro_lookup(Select, 'merge'))
        out = attempt(I, lambda: I.call(f, Args([me, Star(OTHERS, Select)], {}, [(kd, km)] if kwargs else [])))
        if not kwargs and out.exc is not None:
            p.prove('fails only without arguments', z3.And(z3.Length(OTHERS) == 0, out.exc_is(TypeError)))
            return
        want, = FOLD.at(p, 0, me.t)
        if kwargs:
            ok, new, exc, w = (g(w0, p.const(Select), EMPTY_SEQ, kd, km) for g in (call_ok, call_val, call_exc, call_w))
            p.prove('a Select is made of the keywords, once', p.world == w)
            if not out.ok:
                t = out.exc_term()
                p.prove('fails only if the keywords make no Select', z3.And(z3.Not(ok), z3.BoolVal(False) if t is None else t == exc))
                return
            p.prove('an error of the keywords is not swallowed', ok)
            want = merge2(want, new)
        p.prove('a Select', z3.BoolVal(is_select(I, out.value)))
        p.prove('the Selects are merged, in order', p.box(out.value) == want)
    return run


def lemma_fold(I, p):
    """the lists of merged Selects are the concatenations of theirs: by induction from the last one"""
    i, r = p.fresh('i', INT), p.fresh('r', V)
    k = KINDS[p.choose(len(KINDS))]
    p.assume(z3.And(i >= 0, i <= z3.Length(OTHERS)))
    a, = FOLD.at(p, i, r)
    b, = CAT[k].at(p, i, kind_of(k, r))
    n = merge2_facts(p, r, OTHERS[i])
    a1, = FOLD(i + 1, n)
    b1, = CAT[k](i + 1, kind_of(k, n))
    p.assume(z3.Implies(i < z3.Length(OTHERS), kind_of(k, a1) == b1))  # the induction hypothesis
    p.prove('the lists are concatenated in order', kind_of(k, a) == b)


def setup_select(ex):
    ex.handlers[Select.__bool__.__code__] = bool_contract


def setup_merge(ex):
    ex.handlers[Select._merge.__code__] = merge2_contract
    ex.handlers[Select.__bool__.__code__] = bool_contract

    def new_select(I, a):
        r = I.opaque_call(I.p.const(Select), a)
        return Sym(r.t, Select)
    ex.handlers['new', Select] = new_select


# ---------------------------------------------------------------- bound factories and exporters

def merged(a, b, kd, km): return uf('merged', V, SV, AB, AV, V)(a, b, kd, km)


def merge_contract(I, a):
    """merging has no effects; it fails, or gives a Select that depends on the Selects and keywords alone"""
    p = I.p
    if any(isinstance(x, Star) for x in a.pos[:1]):
        raise Unsupported('merge')
    pos = I.seq_of_args(a.pos[1:])
    kd, km = I.merge_maps(a.kw, a.maps)
    me = p.box(a.pos[0])
    if not p.branch(uf('merge_ok', V, SV, AB, AV, B)(me, pos, kd, km)):
        raise PyRaise(Sym(uf('merge_exc', V, SV, AB, AV, V)(me, pos, kd, km)))
    return Sym(merged(me, pos, kd, km), Select)


SEL = z3.Const('select', V)
DESC = z3.Const('descriptor', V)
ARGS, KD, KM = z3.Const('args', SV), z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)
XARGS, XKD, XKM = z3.Const('export_args', SV), z3.Const('export_kwargs.dom', AB), z3.Const('export_kwargs.map', AV)
OWNER, INST = z3.Const('owner', V), z3.Const('instance', V)


class Descriptor:
    """stands for the class of a factory or exporter, whose run is known by its contract"""


def bound(I, p, cls):
    """a bound factory or exporter, made by its constructor from unknown parts"""
    desc, owner, sel = Sym(DESC, Descriptor), Sym(OWNER, type), Sym(SEL, Select)
    if issubclass(cls, SelectableFactory.Bound):
        parts = [desc, owner, sel]
    else:
        kw = I.alloc('export_kwargs', DictO(dom=XKD, map=XKM))
        parts = [desc, owner, SeqV(XARGS), kw, sel]
    r = models.construct(I, cls, Args(parts))
    return r


def attr_equal(I, x, y):
    if x is y:
        return z3.BoolVal(True)
    if isinstance(x, Ref) and isinstance(y, Ref) and isinstance(I.get(x), DictO) and isinstance(I.get(y), DictO):
        (d, m), (d2, m2) = I.dict_terms(I.get(x)), I.dict_terms(I.get(y))
        k = I.p.fresh('some key', V)
        return z3.And(d == d2, z3.Implies(d[k], m[k] == m2[k]))
    s, t = loops.term_of(I, x, 'seq'), loops.term_of(I, y, 'seq')
    if s is not None and t is not None:
        return s == t
    b = models.is_same(I, x, y)
    return z3.BoolVal(b) if isinstance(b, bool) else b


def like(I, p, what, got, want):
    """two bound objects behave alike: same class, and equal attributes"""
    good = isinstance(got, Ref) and isinstance(I.get(got), ObjO) and I.get(got).cls is I.get(want).cls
    p.prove(f'{what}: of the same kind', z3.BoolVal(good))
    if not good:
        return
    a, b = I.get(got).attrs, I.get(want).attrs
    p.prove(f'{what}: has the same attributes', z3.BoolVal(a.keys() == b.keys()))
    for k in sorted(a.keys() & b.keys()):
        p.prove(f'{what}: {k}', attr_equal(I, a[k], b[k]))


def run_bound_select(cls):
    def run(I, p):
        me = bound(I, p, cls)
        before = dict(p.heap)
        sels = z3.Const('selects', SV)
        kd, km = z3.Const('select kwargs.dom', AB), z3.Const('select kwargs.map', AV)
        p.assume(z3.Not(kd[p.const('self')]))
        f = I.lift(models.mro_lookup(cls, 'select'))
        w0 = p.world
        out = attempt(I, lambda: I.call(f, Args([me, Star(sels, Select)], {}, [(kd, km)])))
        if not out.ok:
            t = out.exc_term()
            key = SEL, sels, kd, km
            p.prove('fails only if the Selects cannot be merged', z3.BoolVal(False) if t is None else z3.And(
                z3.Not(uf('merge_ok', V, SV, AB, AV, B)(*key)), t == uf('merge_exc', V, SV, AB, AV, V)(*key)))
        else:
            # what the constructor makes of the same parts and the merged Select
            desc, owner, sel = Sym(DESC, Descriptor), Sym(OWNER, type), Sym(merged(SEL, sels, kd, km), Select)
            if issubclass(cls, SelectableFactory.Bound):
                want = models.construct(I, cls, Args([desc, owner, sel]))
            else:
                want = models.construct(I, cls, Args([desc, owner, SeqV(XARGS), I.alloc(
                    'export_kwargs', DictO(dom=XKD, map=XKM)), sel]))
            p.prove('a new object', z3.BoolVal(isinstance(out.value, Ref) and out.value.id not in before))
            like(I, p, 'the result', out.value, want)
        p.prove('calls nothing else', p.world == w0)
        unchanged(I, p, before)
    return run


def unchanged(I, p, before):
    for i, o in before.items():
        n = p.heap[i]
        p.prove('nothing that was there is changed', z3.BoolVal(n is o or isinstance(o, DictO) and isinstance(n, DictO)
                                                               and n.items is None and o.items is None and
                                                               n.dom.eq(o.dom) and n.map.eq(o.map)))


def run_export_with(cls):
    def run(I, p):
        me = bound(I, p, cls)
        before = dict(p.heap)
        w0 = p.world
        p.assume(z3.Not(KD[p.const('self')]))
        f = I.lift(models.mro_lookup(cls, 'export_with'))
        out = attempt(I, lambda: I.call(f, Args([me, Star(ARGS)], {}, [(KD, KM)])))
        p.prove('no error', z3.BoolVal(out.ok))
        if out.ok:
            d, m = I.override(XKD, XKM, KD, KM)
            want = models.construct(I, cls, Args([
                Sym(DESC, Descriptor), Sym(OWNER, type), SeqV(z3.Concat(XARGS, ARGS)),
                I.alloc('export_kwargs', DictO(dom=d, map=m)), Sym(SEL, Select)]))
            p.prove('a new object', z3.BoolVal(isinstance(out.value, Ref) and out.value.id not in before))
            like(I, p, 'the result', out.value, want)
        p.prove('calls nothing', p.world == w0)
        unchanged(I, p, before)
    return run


def chain_select(cls):
    """a chain of export_with has the effect of one with everything combined"""
    def run(I, p):
        me = bound(I, p, cls)
        a2, kd2, km2 = z3.Const('more args', SV), z3.Const('more kwargs.dom', AB), z3.Const('more kwargs.map', AV)
        for d in (KD, kd2):
            p.assume(z3.Not(d[p.const('self')]))
        f = I.lift(models.mro_lookup(cls, 'export_with'))
        one = attempt(I, lambda: I.call(f, Args([me, Star(ARGS)], {}, [(KD, KM)])))
        p.prove('no error', z3.BoolVal(one.ok))
        if not one.ok:
            return
        two = attempt(I, lambda: I.call(f, Args([one.value, Star(a2)], {}, [(kd2, km2)])))
        both = attempt(I, lambda: I.call(f, Args([me, Star(z3.Concat(ARGS, a2))], {}, [I.override(KD, KM, kd2, km2)])))
        p.prove('no error', z3.BoolVal(two.ok and both.ok))
        if two.ok and both.ok:
            like(I, p, 'a chain', two.value, both.value)
    return run


# ---------------------------------------------------------------- calling them

class Owner(type):
    """stands for the type of the class a factory is bound to"""


FUNC = z3.Const('func', V)
TO_DICT = z3.Const('_to_dict', V)
SHORT = z3.Const('shortcut', V)
S[Owner, '_to_dict'] = lambda I, v: NativeV(lambda I2, a: I2.opaque_call(TO_DICT, a), '_to_dict')


def setup_run(ex):
    ex.handlers[Select.__call__.__code__] = lambda I, a: I.opaque_call(I.p.box(a.pos[0]), Args(a.pos[1:], a.kw, a.maps))
    ex.handlers[Select.__bool__.__code__] = lambda I, a: SBool(any_entries(I.p.box(a.pos[0])))


def stages(w, *calls):
    """calls made one after the other: each a function of the results so far giving (callee, args, dom, map).
    (whether all succeed, the last result, the error of the first to fail, the world)"""
    ok, val, exc, done = z3.BoolVal(True), UNDEF, UNDEF, []
    for c in calls:
        f, pos, kd, km = c(*done)
        o, v, e, w2 = (g(w, f, pos, kd, km) for g in (call_ok, call_val, call_exc, call_w))
        val, exc = z3.If(ok, v, val), z3.If(z3.And(ok, z3.Not(o)), e, exc)
        w, ok = z3.If(ok, w2, w), z3.And(ok, o)
        done.append(v)
    return ok, val, exc, w


def prove_stages(I, p, out, ok, val, exc, w):
    if out.ok:
        p.prove('no error is swallowed', ok)
        p.prove('the result of the last call', p.box(out.value) == val)
    else:
        t = out.exc_term()
        p.prove('the error of the first call to fail', z3.BoolVal(False) if t is None else z3.And(z3.Not(ok), t == exc))
    p.prove('the calls, with their arguments, in order', p.world == w)


NO_KW = EMPTY_DOM, EMPTY_MAP


def factory(I, p, cls):
    """a factory made of an unknown function (or class method)"""
    attrs = dict(func=Sym(FUNC))
    if issubclass(cls, SelectableShortcutFactory):
        attrs['_shortcut'] = Sym(SHORT) if p.choose(2) else NONE
        p.assume(truthy(SHORT))
    return I.alloc('factory', ObjO(cls, attrs)), attrs


def run_factory(cls):
    def run(I, p):
        f, attrs = factory(I, p, cls)
        if getattr(I, 'made', None) is None:
            p.assume(z3.Not(KD[p.const('self')]))
            p.assume(z3.Not(KD[p.const('_select')]))
        w0 = p.world
        owner, sel = Sym(OWNER, Owner), Sym(SEL, Select)
        b = models.construct(I, SelectableFactory.Bound, Args([f, owner, sel]))
        call = I.lift(models.mro_lookup(SelectableFactory.Bound, '__call__'))
        out = attempt(I, lambda: I.call(call, Args([b, Star(ARGS)], {}, [(KD, KM)])))
        kd, km = KD, KM
        if issubclass(cls, SpecializedSelectableFactory):
            kd, km = z3.Store(KD, p.const('_select'), True), z3.Store(KM, p.const('_select'), SEL)
        full = z3.Concat(z3.Unit(OWNER), ARGS)
        w = w0
        short = issubclass(cls, SelectableShortcutFactory) and attrs['_shortcut'] is not NONE
        if short:
            use = z3.Not(any_entries(SEL))
            sok, sval, sexc, sw = (g(w0, SHORT, full, KD, KM) for g in (call_ok, call_val, call_exc, call_w))
            w = z3.If(use, sw, w0)
        ok, val, exc, w2 = stages(
            w, lambda: (FUNC, full, kd, km), lambda m: (SEL, seq(m), *NO_KW),
            lambda m, s: (OWNER, EMPTY_SEQ, dictdom(s), dictmap(s)))
        if short:
            taken = z3.And(use, z3.Or(z3.Not(sok), sval != p.const(NotImplemented)))
            ok, val, exc, w2 = (z3.If(taken, a, b) for a, b in ((sok, ok), (sval, val), (sexc, exc), (sw, w2)))
        prove_factory(I, p, out, ok, val, exc, w2)
    return run


def prove_factory(I, p, out, ok, val, exc, w):
    """as prove_stages, but that what is selected need not be a mapping"""
    if out.ok:
        p.prove('no error is swallowed', ok)
        p.prove('the result of the last call', p.box(out.value) == val)
        p.prove('the calls, with their arguments, in order', p.world == w)
    else:
        t = out.exc_term()
        if t is None:
            p.prove('a TypeError, of a result that is no mapping', out.exc_is(TypeError))
        else:
            p.prove('the error of the first call to fail', z3.And(z3.Not(ok), t == exc))
            p.prove('the calls, with their arguments, in order', p.world == w)


def run_exporter(cls, bcls):
    def run(I, p):
        e = I.alloc('exporter', ObjO(cls, dict(func=Sym(FUNC), owner=NONE)))
        p.assume(z3.And(*[z3.Not(d[p.const(x)]) for d in (KD, XKD) for x in ('self', 'instance', 'obj')]))
        to_class = bcls is Exporter.BoundToClass
        owner = Sym(OWNER, Owner)
        b = models.construct(I, bcls, Args([e, owner, SeqV(XARGS), I.alloc('export_kwargs', DictO(dom=XKD, map=XKM)),
                                           Sym(SEL, Select)]))
        call = I.lift(models.mro_lookup(bcls, '__call__'))
        w0 = p.world
        inst = INST if to_class else OWNER
        out = attempt(I, lambda: I.call(call, Args([b, *([Sym(INST)] if to_class else []), Star(ARGS)], {}, [(KD, KM)])))
        noarg = issubclass(cls, NoArgExporter)
        xa, (xd, xm) = (z3.Concat(XARGS, ARGS), I.override(XKD, XKM, KD, KM)) if noarg else (XARGS, (XKD, XKM))
        prove_stages(I, p, out, *stages(
            w0, lambda: (TO_DICT, z3.Concat(z3.Unit(inst), xa), xd, xm), lambda m: (SEL, seq(m), *NO_KW),
            lambda m, s: (FUNC, seq(s), *NO_KW) if noarg else (FUNC, z3.Concat(z3.Unit(s), ARGS), KD, KM)))
    return run


def run_get(cls, instance):
    """what looking up a factory or exporter on a class or record gives: bound to it, with nothing selected"""
    def run(I, p):
        e = I.alloc('descriptor', ObjO(cls, dict(func=Sym(FUNC))))
        inst = Sym(INST) if instance else NONE
        if instance:
            p.assume(INST != p.const(None))
        get = I.lift(models.mro_lookup(cls, '__get__'))
        out = attempt(I, lambda: I.call(get, Args([e, inst, Sym(OWNER, type)])))
        p.prove('no error', z3.BoolVal(out.ok))
        if not out.ok:
            return
        if issubclass(cls, SelectableFactory):
            want = models.construct(I, cls.Bound, Args([e, Sym(OWNER, type), Con(Select.empty)]))
        else:
            want = models.construct(I, cls.Bound if instance else cls.BoundToClass, Args([
                e, Sym(INST) if instance else Sym(OWNER, type), TupV(()), I.alloc('none', DictO(items={})), Con(Select.empty)]))
        like(I, p, 'the bound object', out.value, want)
        p.prove('nothing is selected', z3.BoolVal(not Select.empty and all(getattr(Select.empty, k) == () for k in KINDS)))
    return run


def setup_bound(ex):
    ex.handlers[Select.merge.__code__] = merge_contract


BOUNDS = [(SelectableFactory.Bound, 'SelectableFactory.Bound'), (Exporter.Bound, 'Exporter.Bound'),
          (Exporter.BoundToClass, 'Exporter.BoundToClass')]
FORMS = {'iterators': {k: 'iterator' for k in KINDS}, 'lists': {k: 'list' for k in KINDS}, 'nothing': {},
         'mappings and strings': {k: 'str' if 'remove' in k else 'mapping' for k in KINDS}}
CONTRACTS = [
    *[Contract(f'Select.__init__ of {n}', run_init(g), ['Select.__init__'], [PAIRS[k] for k in g if g[k] == 'mapping']) for n, g in FORMS.items()],
    Contract('Select._merge', run_merge2, ['Select._merge'], setup_ex=setup_select),
    Contract('Select.merge', run_merge(False), ['Select.merge'], [FOLD], setup_ex=setup_merge),
    Contract('Select.merge with keywords', run_merge(True), ['Select.merge'], [FOLD], setup_ex=setup_merge),
    Contract('lists of merged Selects (lemma)', lemma_fold, []),
    *[Contract(f'{n}.select', run_bound_select(c), [f'{n}.select', f'{n}.__init__'], setup_ex=setup_bound) for c, n in BOUNDS],
    *[Contract(f'{n}.export_with', run_export_with(c), [f'{n}.export_with', f'{n}.__init__']) for c, n in BOUNDS[1:]],
    *[Contract(f'{n}.export_with, chained', chain_select(c), [f'{n}.export_with']) for c, n in BOUNDS[1:]],
    *[Contract(f'{c.__name__}.run', run_factory(c), [f'{c.__name__}.run', 'SelectableFactory.Bound.__call__'], setup_ex=setup_run)
      for c in (SelectableFactory, SpecializedSelectableFactory, SelectableShortcutFactory, SpecializedShortcutFactory)],
    *[Contract(f'{c.__name__}.run from {bn}', run_exporter(c, b), [f'{c.__name__}.run', f'{bn}.__call__'], setup_ex=setup_run)
      for c in (Exporter, NoArgExporter) for b, bn in BOUNDS[1:]],
    *[Contract(f'{c.__name__}.__get__ {"of a record" if i else "of a class"}', run_get(c, i), [f'{c.__name__}.__get__'])
      for c in (SelectableFactory, SpecializedShortcutFactory, Exporter, NoArgExporter) for i in (0, 1)],
]
