"""C12: applying a Select."""
from .base import *
from records.select import Select

KINDS = ['keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename', 'keys_to_add',
         'keys_to_maybe_add']
SEQ = {k: z3.Const(k, SV) for k in KINDS}
OK, KEYERR, VALERR, EITHER = 0, 1, 2, 3


def step(kind, x, dom, mp):
    """the effect of one entry: (code, dom, map)"""
    s, d = item(x, 0), item(x, 1)
    no = z3.IntVal
    if kind == 'keys_to_remove':
        return z3.If(dom[x], no(OK), no(KEYERR)), z3.Store(dom, x, False), mp
    if kind == 'keys_to_maybe_remove':
        return no(OK), z3.Store(dom, x, False), mp
    ren = z3.Store(z3.Store(dom, s, False), d, True), z3.Store(mp, d, mp[s])
    if kind == 'keys_to_rename':
        return z3.If(dom[d], z3.If(dom[s], no(VALERR), no(EITHER)), z3.If(dom[s], no(OK), no(KEYERR))), *ren
    if kind == 'keys_to_maybe_rename':
        return (z3.If(z3.And(dom[s], dom[d]), no(VALERR), no(OK)),
                z3.If(dom[s], ren[0], dom), z3.If(dom[s], ren[1], mp))
    add = z3.Store(dom, s, True), z3.Store(mp, s, d)
    if kind == 'keys_to_add':
        return z3.If(dom[s], no(VALERR), no(OK)), *add
    return no(OK), z3.If(dom[s], dom, add[0]), z3.If(dom[s], mp, add[1])


def make_rec(kind):
    sq = SEQ[kind]

    def body(rec, i, st):
        dom, mp = st
        code, d2, m2 = step(kind, sq[i], dom, mp)
        rest = rec(i + 1, (d2, m2))
        end = z3.Or(i >= z3.Length(sq), i < 0)
        return (z3.If(end, z3.IntVal(OK), z3.If(code != OK, code, rest[0])),
                z3.If(end, dom, z3.If(code != OK, dom, rest[1])),
                z3.If(end, mp, z3.If(code != OK, mp, rest[2])))
    return Rec(kind, ['dict'], [INT, AB, AV], body)


RECS = {k: make_rec(k) for k in KINDS}


def spec(p, dom, mp):
    """(first failure code or OK, final dom, final map)"""
    code = z3.IntVal(OK)
    for k in KINDS:
        c, d, m = RECS[k].at(p, 0, (dom, mp))
        code, dom, mp = z3.If(code != OK, code, c), z3.If(code != OK, dom, d), z3.If(code != OK, mp, m)
    return code, dom, mp


def a_select(I, p):
    attrs = {k: SeqV(SEQ[k], 'pair' if 'remove' not in k else str) for k in KINDS}
    # the truth value is cached, once computed
    attrs['_bool'] = SBool(any_entries()) if p.choose(2) else NONE
    return I.alloc('select', ObjO(Select, attrs)), attrs


def run(I, p, as_dict=True):
    attrs = {k: SeqV(SEQ[k], 'pair' if 'remove' not in k else str) for k in KINDS}
    attrs['_bool'] = NONE
    sel = I.alloc('select', ObjO(Select, attrs))
    dom0, map0 = z3.Const('dom0', AB), z3.Const('map0', AV)
    if p.choose(2):
        m = I.alloc('mapping', DictO(dom=dom0, map=map0))
    else:
        import collections.abc
        t = z3.Const('amapping', V)
        p.assume(z3.Not(isinst(t, p.const(dict))))
        p.assume(z3.And(dictdom(t) == dom0, dictmap(t) == map0))
        m = Sym(t, collections.abc.Mapping)
    p.observe(dom0=dom0, map0=map0, **SEQ)
    out = attempt(I, lambda: I.call(func_of_method(I, Select, '__call__'), Args([sel, m])))
    code, dom, mp = spec(p, dom0, map0)
    if out.ok:
        p.prove('no error is swallowed', code == OK)
        d, mm = result_terms(I, out.value)
        p.prove('the keys are those of the edited mapping', d == dom)
        p.prove('the values are those of the edited mapping', mm == mp)
    else:
        p.prove('KeyError exactly for a missing key', z3.Implies(out.exc_is(KeyError), z3.Or(code == KEYERR, code == EITHER)))
        p.prove('ValueError exactly for an existing key',
                z3.Implies(out.exc_is(ValueError), z3.Or(code == VALERR, code == EITHER)))
        p.prove('no other error', z3.Or(out.exc_is(KeyError), out.exc_is(ValueError)))
    o = I.get(sel)
    for k in KINDS:
        p.prove(f'the Select keeps its {k}', models.is_same(I, o.attrs[k], attrs[k]) is True or
                z3.BoolVal(o.attrs[k] is attrs[k]))


def result_terms(I, v):
    if isinstance(v, Ref):
        return I.dict_terms(I.get(v))
    return dictdom(v.t), dictmap(v.t)


def func_of_method(I, cls, name):
    raw = models.mro_lookup(cls, name)
    return I.lift(raw)


def any_entries():
    return z3.Or(*[z3.Length(SEQ[k]) > 0 for k in KINDS])


def run_bool(I, p):
    sel, attrs = a_select(I, p)
    out = attempt(I, lambda: I.call(func_of_method(I, Select, '__bool__'), Args([sel])))
    p.prove('no error', out.ok)
    if out.ok:
        p.prove('true exactly if there is an entry', z3.simplify(zb(models.truth(I, out.value))) == any_entries())
    b = I.get(sel).attrs['_bool']
    p.prove('the cached truth value is right', z3.BoolVal(b is NONE) if b is NONE else zb(models.truth(I, b)) == any_entries())


def zb(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def bool_contract(I, a):
    return SBool(any_entries())


def setup(ex):
    ex.handlers[Select.__bool__.__code__] = bool_contract


CONTRACTS = [Contract('Select.__bool__', run_bool, ['Select.__bool__']), Contract('Select.__call__', run, ['Select.__call__'], list(RECS.values()), setup_ex=setup)]
