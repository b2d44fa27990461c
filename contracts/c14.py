"""C14: exporting to a dict."""
from .export import *

ASSUMES = ASSUMES_CLASS + [
    'reading an attribute of the exported object has no effects and fails only with AttributeError',
    'sorted() sorts; a sort key function has no effects', 'a callable given as sort is true and not equal to -1']

SORTS = ['absent', 'false', 'up', 'down', 'key']


def an_object(I, p, record, cls, frozen):
    if not record:
        p.assume(typeof(OBJ) != p.box(cls))
        return Sym(OBJ)
    p.assume(RM == z3.Const('record.map', AV))
    return a_record(I, p, cls, 'record', frozen)[0]


def sorted_handler(I, ref, a):
    """sorting the pairs of an export; names are distinct, so that pairs sort by their names"""
    p = I.p
    pairs = I.list_seq(I.get(ref))
    rev = a.kw.get('reverse', Con(False))
    if not isinstance(rev, Con):
        raise Unsupported('reverse')
    key, mode, fn = a.kw.get('key', NONE), 'down' if rev.obj else 'up', None
    if not (isinstance(key, Con) and key.obj is None):
        k, v = p.fresh('some name', V), p.fresh('some value', V)
        w = p.world
        r = attempt(I, lambda: I.call(key, Args([TupV([Sym(k), Sym(v)])])))
        if not r.ok:
            raise PathEnd  # no order comes of it
        p.set_world(w)
        r = p.box(r.value)
        if not p.implied(r == k):
            fn = z3.Const('sort', V)
            p.prove('the key function is applied to names', r == call_val(w, fn, seq(k)))
            mode = 'key' + (' down' if rev.obj else '')
    s = sorted_of(pairs, mode, fn)
    p.assume(s == SORTED)
    p.assume(z3.Length(s) == z3.Length(pairs))
    return I.alloc('sorted', ListO(seq=s, elem='pair'))


def run(I, p, record, sort, bl):
    cls, frozen = a_class(I, p)
    obj = an_object(I, p, record, cls, frozen)
    kw = {}
    if p.choose(2):
        kw['include_defaults'] = SBool(INC)
    else:
        p.assume(z3.Not(INC))
    if bl == 0:
        p.assume(BLACK == EMPTY_DOM)
    elif bl == 1:
        t = z3.Const('tag', V)
        p.assume(BLACK == z3.Store(EMPTY_DOM, t, True))
        kw['blacklist_tags'] = Sym(t, Tag)
    else:
        kw['blacklist_tags'] = I.alloc('blacklist', SetO(dom=BLACK, cls=frozenset))
    wl = p.choose(3)
    if wl == 0:
        p.assume(WHITE == EMPTY_DOM)
    elif wl == 1:
        t = z3.Const('white', V)
        p.assume(WHITE == z3.Store(EMPTY_DOM, t, True))
        kw['whitelist_keys'] = Sym(t, str)
    else:
        kw['whitelist_keys'] = I.alloc('whitelist', SetO(dom=WHITE, elem=str))
    fn = z3.Const('sort', V)
    if sort == 'false':
        kw['sort'] = Con([None, False, 0][p.choose(3)])
    elif sort == 'up':
        kw['sort'] = Con([True, 1][p.choose(2)])
    elif sort == 'down':
        kw['sort'] = Con(-1)
    elif sort == 'key':
        p.assume(z3.And(truthy(fn), z3.Not(pyeq(fn, p.const(-1))), uf('callable', V, B)(fn)))
        p.assume(isinst(fn, p.const(__import__('collections').abc.Callable)))
        kw['sort'] = Sym(fn)
    p.observe(fields=FORDER, blacklist=BLACK, whitelist=WHITE)
    w0 = p.world
    before = dict(p.heap)
    if sort in ('absent', 'false'):
        code, exc, dom, mp, order, w = DICT[record].at(p, 0, (EMPTY_DOM, EMPTY_MAP, EMPTY_SEQ), w0)
    else:
        code, exc, pairs, w = PAIRS[record].at(p, 0, EMPTY_SEQ, w0)
    out = run_on(I, '_to_dict', cls, obj, **kw)
    if out.ok:
        p.prove('succeeds only if it should', code == OKC)
        if sort not in ('absent', 'false'):
            p.assume(SORTED == sorted_of(pairs, sort, fn if sort == 'key' else None))
            dom, mp, order = BUILD.at(p, 0, (EMPTY_DOM, EMPTY_MAP, EMPTY_SEQ))
        o = I.get(out.value) if isinstance(out.value, Ref) else None
        good = isinstance(o, DictO) and issubclass(o.cls, dict)
        p.prove('a dict', z3.BoolVal(good))
        if good:
            terms = loops.term_of(I, out.value, 'odict')
            if terms is None:
                raise Unsupported('order')
            p.prove('exactly the requested names', terms[0] == dom)
            p.prove('the values of the fields', terms[1] == mp)
            p.prove('in the right order', terms[2] == order)
            p.prove('a new dict', z3.BoolVal(out.value.id not in before))
    else:
        p.prove('fails only if it should', code != OKC)
        t = out.exc_term()
        p.prove('the right error', z3.Or(z3.And(code == ATTRERR, out.exc_is(AttributeError)),
                                         z3.And(code == EXC, t == exc) if t is not None else z3.BoolVal(False)))
    p.prove('factories are called only for the missing', p.world == w)
    for i, o in before.items():
        p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o or same_object(I, o, p.heap[i])))


def same_object(I, a, b):
    """an order may have been given a name"""
    if isinstance(a, DictO) and isinstance(b, DictO) and a.items is None and b.items is None:
        return a.dom.eq(b.dom) and a.map.eq(b.map)
    if isinstance(a, SetO) and isinstance(b, SetO):
        return a.dom.eq(b.dom)
    return False


def contract(record, sort, bl):
    name = f'RecordBase._to_dict of {"a record" if record else "any object"}, sort {sort}' + ['', ', tag', ', tags'][bl]
    ts = [DICT[record]] if sort in ('absent', 'false') else [PAIRS[record], BUILD]
    return Contract(name, lambda I, p: run(I, p, record, sort, bl), [
        'RecordBase._to_dict', 'RecordField.is_default', 'RecordField.make_default', 'RecordField.has_default'], ts,
        setup_ex=lambda ex: ex.handlers.__setitem__('sorted', sorted_handler))


CONTRACTS = [contract(r, s, b) for r in (False, True) for s in SORTS for b in range(3)]
