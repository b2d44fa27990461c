"""C15: extracting the attributes of an object for a Select."""
from .rec import *
import records.record

ASSUMES = ['reading an attribute of an object has no effects and fails only with AttributeError']

K = z3.Const('a name', V)
OBJ = z3.Const('obj', V)
KINDS = ['keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename',
         'keys_to_maybe_rename']
SEQS = {k: z3.Const('select.' + k, SV) for k in KINDS}


def has(k): return uf('hasattr', V, V, B)(OBJ, k)
def value(k): return uf('getattr', V, V, V)(OBJ, k)


def among(kind, part):
    """whether K is among the entries from an index on: as a whole, or as their source (0) or destination (1)"""
    sq = SEQS[kind]

    def body(rec, i):
        x = sq[i] if part is None else item(sq[i], part)
        return z3.And(i >= 0, i < z3.Length(sq), z3.Or(x == K, rec(i + 1)[0])),
    return Rec(f'among {kind} {part}', [], [B], body)


AMONG = {(k, part): among(k, part) for k in KINDS for part in ((None,) if 'remove' in k else (0,) if 'add' in k else (0, 1))}


def is_in(p, kind, part=None): return AMONG[kind, part].at(p, 0)[0]


def either(p, kind, j):
    for part in (0, 1):
        AMONG[kind, part].unfold(p, j)
    return z3.Or(AMONG[kind, 0](j)[0], AMONG[kind, 1](j)[0])


def pointwise(I, ctx, entry):
    """invariants at the name K of loops over the entries, and over the names extracted"""
    p, out, view = I.p, [], ctx.view
    if view is None:
        return out
    x = p.fresh('x', V)

    def named(d): return z3.ForAll([x], z3.Implies(d[0][x], field_name(d[1][x]) == x))
    for s in ctx.slots():
        if ctx.changing(s) and entry.term(s, 'dict') is not None:
            out.append((('named', s), lambda i, c, s=s: loops.none_or(c.term(s, 'dict'), named)))
    for b, off in loops.distinct_bases(view):
        for (kind, part), rec in AMONG.items():
            if not b.eq(SEQS[kind]):
                continue
            for s in ctx.slots():
                if not ctx.changing(s):
                    continue

                def dom(src, s=s):
                    d = src.term(s, 'dict')
                    return d[0] if d is not None else src.term(s, 'set')
                d0 = dom(entry)
                if d0 is None:
                    continue

                def at(c, i, rec=rec, off=off):
                    j = z3.simplify(off + i)
                    rec.unfold(c.p, j)
                    return rec(j)[0]

                def added(i, c, dom=dom, d0=d0, at=at):
                    d = dom(c)
                    return None if d is None else z3.Or(d[K], at(c, i)) == z3.Or(d0[K], at(c, no(0)))

                def removed(i, c, dom=dom, d0=d0, at=at):
                    d = dom(c)
                    return None if d is None else z3.And(d[K], z3.Not(at(c, i))) == z3.And(d0[K], z3.Not(at(c, no(0))))
                def kept(i, c, dom=dom, d0=d0):
                    d = dom(c)
                    return None if d is None else z3.Implies(d0[K], d[K])

                def both(i, c, dom=dom, d0=d0, kind=kind, off=off):
                    d = dom(c)
                    return None if d is None else z3.Or(d[K], either(c.p, kind, z3.simplify(off + i))) == z3.Or(
                        d0[K], either(c.p, kind, off))
                if part == 0 and (kind, 1) in AMONG:
                    out.append((('both', kind, s), both))
                out += [(('kept', s), kept), (('added', kind, part, s), added), (('removed', kind, part, s), removed)]

        def done(i, b=b, off=off):
            pos = uf('posof', SV, V, INT)(b, K)
            return z3.And(pos >= 0, pos < z3.Length(b), b[pos] == K, pos < off + i)
        out.append((('read', str(b)), lambda i, c, done=done: z3.Implies(done(i), z3.Or(
            has(K), z3.Const('missing ok', AB)[K]))))
        for s in ctx.slots():
            if not ctx.changing(s):
                continue
            d0 = entry.term(s, 'dict')
            if d0 is not None:
                out.append((('got', str(b), s), lambda i, c, s=s, d0=d0, done=done: loops.none_or(
                    c.term(s, 'dict'), lambda d: z3.And(
                        d[0][K] == z3.Or(d0[0][K], z3.And(done(i), has(K))),
                        z3.Implies(z3.And(done(i), has(K)), d[1][K] == value(K))))))
    return out


def mock(n): return uf('mock field', V, V)(n)


def mock_class():
    """the class of the stand-ins for fields of other names: a named tuple of a name"""
    for ns in (vars(RecordBase), vars(records.record)):
        for c in ns.values():
            if isinstance(c, type) and issubclass(c, tuple) and getattr(c, '_fields', None) == ('name',) \
                    and getattr(c, 'tags', None) == frozenset() and getattr(c, 'has_default', None) is False:
                return c
    return None


def mock_contract(I, a):
    p = I.p
    n = models.arg(a, 0, 'name')
    t = mock(p.box(n))
    p.assume(z3.And(field_name(t) == p.box(n), field_default(t) == p.const(NO_DEFAULT),
                    setdom(field_tags(t)) == EMPTY_DOM))
    return Sym(t, RecordField)


def read_contract(I, a):
    """getattr(obj, name)"""
    p = I.p
    if len(a.pos) != 2 or a.kw or not isinstance(a.pos[0], Sym) or not a.pos[0].t.eq(OBJ):
        return NotImplemented
    n = p.box(a.pos[1])
    if not p.branch(has(n)):
        p.missing = n
        I.throw(AttributeError)
    return p.unbox(value(n))


def run(selected):
    def run(I, p):
        I.keys_of_interest.append(K)
        cls, frozen = a_class(I, p)
        attrs = {k: SeqV(SEQS[k], 'pair' if 'remove' not in k else str) for k in KINDS}
        some = z3.Or(*[z3.Length(SEQS[k]) > 0 for k in KINDS])
        p.assume(some if selected else z3.Not(some))
        attrs['_bool'] = Con(selected)
        sel = I.alloc('select', ObjO(Select, attrs))
        ren_src, ren_dst = is_in(p, 'keys_to_rename', 0), is_in(p, 'keys_to_rename', 1)
        mren_src, mren_dst = is_in(p, 'keys_to_maybe_rename', 0), is_in(p, 'keys_to_maybe_rename', 1)
        rem, add, madd = is_in(p, 'keys_to_remove'), is_in(p, 'keys_to_add', 0), is_in(p, 'keys_to_maybe_add', 0)
        if not selected:
            for x in (ren_src, ren_dst, mren_src, mren_dst, rem, add, madd):
                p.assume(z3.Not(x))
        extracted = z3.And(z3.Or(FD[K], rem, ren_src, mren_src), z3.Not(add))
        missing_ok = z3.Or(OPT[K], ren_dst, mren_dst, mren_src, madd)
        p.assume(z3.Const('missing ok', AB)[K] == missing_ok)
        field_facts(I, FM[K])
        x = z3.Const('x', V)
        p.assume(z3.ForAll([x], z3.Implies(FD[x], field_name(FM[x]) == x)))
        p.observe(a_name=K, fields=FD, optional=OPT, **SEQS)
        before = dict(p.heap)
        w0 = p.world
        out = run_on(I, '_to_dict', cls, Sym(OBJ), _rev_select=sel)
        if out.ok:
            # what a rename or a removal needs is asked for again when the Select is applied
            p.prove('a missing attribute is an error, unless something else supplies it', z3.Implies(
                z3.And(extracted, z3.Not(has(K))), z3.Or(missing_ok, rem, ren_src)))
            o = I.get(out.value) if isinstance(out.value, Ref) else None
            good = isinstance(o, DictO) and issubclass(o.cls, dict)
            p.prove('a dict', z3.BoolVal(good))
            if good:
                d, m = I.dict_terms(o)
                p.prove('a new dict', z3.BoolVal(out.value.id not in before))
                p.prove('the names asked for, as far as the object has them', d[K] == z3.And(extracted, has(K)))
                p.prove('the attributes of the object', z3.Implies(d[K], m[K] == value(K)))
        else:
            p.prove('with an AttributeError', out.exc_is(AttributeError))
            n = p.__dict__.get('missing')
            p.prove('fails only for a missing attribute', z3.BoolVal(n is not None))
            if n is not None:
                # any name: also the one that is missing
                p.assume(K == n)
                p.prove('which is asked for', extracted)
                p.prove('and which nothing else supplies', z3.Not(missing_ok))
        p.prove('no other calls', p.world == w0)
        for i, o in before.items():
            p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o or same_object(o, p.heap[i])))
    return run


def same_object(a, b):
    if isinstance(a, DictO) and isinstance(b, DictO) and a.items is None and b.items is None:
        return a.dom.eq(b.dom) and a.map.eq(b.map)
    return isinstance(a, SetO) and isinstance(b, SetO) and a.dom.eq(b.dom)


def setup(ex):
    ex.handlers['con', id(getattr)] = read_or_model
    c = mock_class()
    if c is not None:
        ex.handlers['new', c] = mock_contract


def read_or_model(I, a):
    r = read_contract(I, a)
    return models.b_getattr(I, a) if r is NotImplemented else r


CONTRACTS = [Contract(f'RecordBase._to_dict for a Select{"" if s else " of nothing"}', run(bool(s)), [
    'RecordBase._to_dict'], [pointwise], setup_ex=setup) for s in (1, 0)]
