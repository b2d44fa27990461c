"""C14: the repr of a record names the entries of its export, in order."""
from .export import *

ASSUMES = ['a text made by formatting is a function of the constants and the formatted values it is made of',
           'repr of a value has no effects and does not fail']

EXPORT_DOM, EXPORT, ORDER = z3.Const('export.dom', AB), z3.Const('export.map', AV), z3.Const('export.order', SV)
KD, KM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)


def entry_text(k, v): return uf('text {}={r}', V, V, V)(k, v)


def entries_body(rec, i, acc):
    k = ORDER[i]
    nxt = rec(i + 1, z3.Concat(acc, z3.Unit(entry_text(k, EXPORT[k]))))
    return z3.If(z3.Or(i < 0, i >= z3.Length(ORDER)), acc, nxt[0]),


ENTRIES = Rec('entries', ['seq'], [SV], entries_body)


def to_dict_contract(I, a):
    p = I.p
    if len(a.pos) != 2 or not isinstance(a.pos[1], Ref) or a.pos[1].id != p.me.id:
        return NotImplemented
    dom, mp = I.merge_maps(a.kw, a.maps)
    p.prove('exported with the options given', z3.And(dom == p.opts[0], z3.Or(dom == EMPTY_DOM, mp == p.opts[1])))
    if p.choose(2):
        p.failed = z3.Const('export error', V)
        raise PyRaise(Sym(p.failed, Exception))
    return I.alloc('export', DictO(dom=EXPORT_DOM, map=EXPORT, order=ORDER))


def run(opts):
    def run(I, p):
        cls, frozen = a_class(I, p)
        p.exact_texts = True
        p.me, p.failed = a_record(I, p, cls, 'record', frozen)[0], None
        p.opts = (KD, KM) if opts else (EMPTY_DOM, EMPTY_MAP)
        p.observe(names=ORDER, exported=EXPORT)
        before, w0 = dict(p.heap), p.world
        raw = models.mro_lookup(RecordBase, '__repr__')
        if opts:
            for n in ('self', 'select', '_select'):
                p.assume(z3.Not(KD[p.const(n)]))
        # entries are texts
        p.assume(uf('join_ok', V, SV, B)(p.const(', '), ENTRIES.at(p, 0, EMPTY_SEQ)[0]))
        out = attempt(I, lambda: I.call(I.lift(raw), Args([p.me], {}, [(KD, KM)] if opts else [])))
        if not out.ok:
            t = out.exc_term()
            p.prove('fails only as the export does', z3.BoolVal(False) if p.failed is None or t is None else t == p.failed)
            return
        p.prove('no error of the export is hidden', z3.BoolVal(p.failed is None))
        name = models.getattr_(I, cls, '__qualname__').t
        body = uf('join', V, SV, V)(p.const(', '), ENTRIES.at(p, 0, EMPTY_SEQ)[0])
        want = uf('text {}({})', V, V, V)(name, body)
        if not any(z3.is_app(q) and q.decl().name() == 'join' for q in map(p.box, I.text_parts(out.value)) ):
            p.vague()  # put together in another way: texts made differently are not known to differ
        p.prove('the name of the class, and each entry as name=repr', p.box(out.value) == want)
        for i, o in before.items():
            p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o))
        p.prove('no effects', p.world == w0)
    return run


def setup(ex):
    ex.str_keys = True
    ex.handlers[models.mro_lookup(RecordBase, '_to_dict').__func__.__code__] = to_dict_contract


CONTRACTS = [Contract('RecordBase.__repr__' + [', with options', ''][not o], run(o), ['RecordBase.__repr__'], [ENTRIES],
                      setup_ex=setup) for o in (0, 1)]
