"""The specification of exporting to a dict, shared by contracts."""
from .rec import *

ATTRERR = 2
INC = z3.Bool('include_defaults')
BLACK, WHITE = z3.Const('blacklist', AB), z3.Const('whitelist', AB)
OBJ = z3.Const('obj', V)
RM = z3.Const('record.map', AV)


def blacklisted(f): return z3.SetIntersect(setdom(field_tags(f)), BLACK) != EMPTY_DOM


def equals_default(k, v):
    """v equals the declared, non-factory default of the field"""
    f = FM[k]
    return z3.And(OPT[k], z3.Not(field_factory(f)), pyeq(field_default(f), v))


def emit_spec(k, has, v, w):
    """(code, error, whether the field is there, its value, world)"""
    f = FM[k]
    white = WHITE[k]
    out = z3.And(z3.Not(white), blacklisted(f))
    keep = z3.Or(white, INC, z3.Not(equals_default(k, v)))
    ok, dv, de, dw = (g(w, field_default(f), EMPTY_SEQ) for g in (call_ok, call_val, call_exc, call_w))
    fac = field_factory(f)
    make = z3.And(z3.Not(out), z3.Not(has), OPT[k], INC)
    code = z3.If(z3.And(z3.Not(out), z3.Not(has), z3.Not(OPT[k])), no(ATTRERR),
                 z3.If(z3.And(make, fac, z3.Not(ok)), no(EXC), no(OKC)))
    there = z3.And(z3.Not(out), z3.If(has, keep, z3.And(OPT[k], INC)))
    val = z3.If(has, v, z3.If(fac, dv, field_default(f)))
    return code, de, there, val, z3.If(z3.And(make, fac), dw, w)


def reading(record):
    """how an attribute of the exported object reads: (whether it is there, its value)"""
    if record:
        return lambda k: (z3.BoolVal(True), RM[k])
    return lambda k: (uf('hasattr', V, V, B)(OBJ, k), uf('getattr', V, V, V)(OBJ, k))


def dict_rec(name, read):
    def body(rec, i, st, w):
        dom, mp, order = st
        k = FORDER[i]
        code, exc, there, val, w2 = emit_spec(k, *read(k), w)
        d2, m2, o2 = z3.Store(dom, k, True), z3.Store(mp, k, val), z3.If(dom[k], order, z3.Concat(order, z3.Unit(k)))
        nxt = rec(i + 1, tuple(z3.If(there, a, b) for a, b in zip((d2, m2, o2), st)), w2)
        end = z3.Or(i < 0, i >= z3.Length(FORDER))
        stop = z3.Or(end, code != OKC)
        return (z3.If(end, no(OKC), z3.If(stop, code, nxt[0])), z3.If(end, UNDEF, z3.If(stop, exc, nxt[1])),
                *[z3.If(stop, a, b) for a, b in zip(st, nxt[2:5])],
                z3.If(end, w, z3.If(stop, w2, nxt[5])))
    return Rec(name, ['odict', 'W'], [INT, V, AB, AV, SV, W], body)


def pairs_rec(name, read):
    def body(rec, i, acc, w):
        k = FORDER[i]
        code, exc, there, val, w2 = emit_spec(k, *read(k), w)
        nxt = rec(i + 1, z3.If(there, z3.Concat(acc, z3.Unit(mkpair(k, val))), acc), w2)
        end = z3.Or(i < 0, i >= z3.Length(FORDER))
        stop = z3.Or(end, code != OKC)
        return (z3.If(end, no(OKC), z3.If(stop, code, nxt[0])), z3.If(end, UNDEF, z3.If(stop, exc, nxt[1])),
                z3.If(stop, acc, nxt[2]), z3.If(end, w, z3.If(stop, w2, nxt[3])))
    return Rec(name, ['seq', 'W'], [INT, V, SV, W], body)


DICT = {r: dict_rec(f'export{"" if r else " any"}', reading(r)) for r in (False, True)}
PAIRS = {r: pairs_rec(f'pairs{"" if r else " any"}', reading(r)) for r in (False, True)}

SORTED = z3.Const('sorted pairs', SV)


def build_body(rec, i, st):
    dom, mp, order = st
    x = SORTED[i]
    k, v = item(x, 0), item(x, 1)
    nxt = rec(i + 1, (z3.Store(dom, k, True), z3.Store(mp, k, v), z3.If(dom[k], order, z3.Concat(order, z3.Unit(k)))))
    end = z3.Or(i < 0, i >= z3.Length(SORTED))
    return tuple(z3.If(end, a, b) for a, b in zip(st, nxt))


BUILD = Rec('dict of sorted', ['odict'], [AB, AV, SV], build_body)


def sorted_of(pairs, mode, fn=None):
    """the entries, reordered: by name ('up', 'down') or by the key function"""
    return uf('sorted ' + mode, SV, V, SV)(pairs, fn if fn is not None else UNDEF)
