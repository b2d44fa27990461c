"""C03: sequence, set and tuple hints are filled element by element."""
import collections
from .fill import *
from records.fillers.builtin_fillers.typing_fillers import GenericIterableFiller, GenericDequeFiller, TupleFiller

ASSUMES = ['a container yields the same elements every time it is iterated, and slices of sequences are made of them',
           'constructors of containers consume the iterable they are given before anything else, and once',
           'a filler is called with effects of its own only (its result and effects are those of its contract)']

EF = z3.Const('element_filler', V)
ELEMS = seqof(ARG)


def each_body(rec, i, acc, w):
    ok, val, exc, w2 = call1(w, EF, ELEMS[i])
    nxt = rec(i + 1, z3.Concat(acc, z3.Unit(val)), w2)
    end = z3.Or(i < 0, i >= z3.Length(ELEMS))
    return (z3.If(end, no(OKC), z3.If(ok, nxt[0], no(EXC))),
            z3.If(end, UNDEF, z3.If(ok, nxt[1], exc)),
            z3.If(end, acc, z3.If(ok, nxt[2], acc)),
            z3.If(end, w, z3.If(ok, nxt[3], w2)))


EACH = Rec('each', ['seq', 'W'], [INT, V, SV, W], each_body)


def rebuilt(I, p, w, elems):
    """the expected call of the constructor: (possible error first, ok, val, exc, w)"""
    is_str, is_deque = I.isinst(Sym(ARG), str), I.isinst(Sym(ARG), collections.deque)
    joined = uf('join', V, SV, V)(p.const(''), elems)
    src = z3.If(is_str, joined, boxseq(elems))
    cls = typeof(ARG)
    maxlen = uf('getattr', V, V, V)(ARG, p.const('maxlen'))
    a, b = call1(w, cls, src), call1(w, cls, src, maxlen)
    bad = z3.And(is_str, z3.Not(uf('join_ok', V, SV, B)(p.const(''), elems)))
    return (bad, *[z3.If(is_deque, y, x) for x, y in zip(a, b)])


def prove_filled(I, p, out, rec0, v, w_end, recon):
    code, exc, acc, w = rec0
    same = acc == ELEMS
    bad, ok, val, exc2, w2 = recon(acc, w)
    if out.ok:
        p.prove('every element was accepted', code == OKC)
        p.prove('the same container if every element is identical, else a new one of the filled elements',
                p.box(out.value) == z3.If(same, v, val))
        p.prove('a failure of the constructor is not swallowed', z3.Or(same, z3.And(z3.Not(bad), ok)))
    else:
        t = out.exc_term()
        p.prove('the first error aborts', z3.Or(
            z3.And(code == EXC, t == exc if t is not None else z3.BoolVal(False)),
            z3.And(code == OKC, z3.Not(same), z3.Or(
                z3.And(bad, out.exc_is(TypeError)),
                z3.And(z3.Not(bad), z3.Not(ok), t == exc2 if t is not None else z3.BoolVal(False))))))
    p.prove('each element filled once, in order', z3.Implies(z3.Not(z3.And(code == OKC, bad, z3.Not(same))), p.world == z3.If(
        z3.Or(code != OKC, same), w, w2)))


def facts(I, p):
    # what python guarantees of the types involved
    p.assume(z3.Not(z3.And(I.isinst(Sym(ARG), str), I.isinst(Sym(ARG), collections.deque))))
    p.assume(uf('iterable', V, B)(ARG))
    p.assume(z3.Implies(I.isinst(Sym(ARG), collections.deque), uf('hasattr', V, V, B)(ARG, p.const('maxlen'))))


def run_iterable(cls):
    def run(I, p):
        style = STYLES[p.choose(3)]
        inner = inner_attrs(I, style)
        f = I.alloc('self', ObjO(cls, dict(inner_filler=inner, element_filler=Sym(EF, Part), owner=NONE)))
        facts(I, p)
        if cls is GenericDequeFiller:
            p.assume(I.isinst(Sym(ARG), collections.deque))
        hollow = style is TypeCheckStyle.hollow
        w0 = p.world
        out = run_method(I, cls, 'bind', f, Sym(OWNER, type))
        if not out.ok:
            p.prove('rejected only if elements are checked inside a hollow container',
                    z3.And(z3.Not(passthrough(EF)), z3.BoolVal(hollow), out.exc_is(TypeError)))
            return
        p.prove('element checks inside a hollow container are rejected', z3.Or(passthrough(EF), z3.BoolVal(not hollow)))
        vs = added_validators(I, inner)
        p.prove('element checks are added exactly if there are any', passthrough(EF) == z3.BoolVal(not vs))
        p.prove('binding calls nothing', p.world == w0)
        p.observe(arg=ARG, elements=ELEMS)
        if not vs:
            return

        def check():
            v = Sym(ARG)
            for f in vs:
                v = I.call(f, Args([v]))
            return v
        out = attempt(I, check)
        rec0 = EACH.at(p, 0, EMPTY_SEQ, w0)
        prove_filled(I, p, out, rec0, ARG, p.world, lambda acc, w: rebuilt(I, p, w, acc))
    return run


FILLERS, HINTS = z3.Const('sub_fillers', SV), z3.Const('sub_hints', SV)


def each_own_body(rec, i, acc, w):
    ok, val, exc, w2 = call1(w, FILLERS[i], ELEMS[i])
    nxt = rec(i + 1, z3.Concat(acc, z3.Unit(val)), w2)
    end = z3.Or(i < 0, i >= z3.Length(ELEMS), i >= z3.Length(FILLERS))
    return (z3.If(end, no(OKC), z3.If(ok, nxt[0], no(EXC))),
            z3.If(end, UNDEF, z3.If(ok, nxt[1], exc)),
            z3.If(end, acc, z3.If(ok, nxt[2], acc)),
            z3.If(end, w, z3.If(ok, nxt[3], w2)))


EACH_OWN = Rec('each_own', ['seq', 'W'], [INT, V, SV, W], each_own_body)


def tuple_rebuilt(acc, w):
    return (z3.BoolVal(False), *call1(w, typeof(ARG), boxseq(acc)))


def run_validators(I, vs, v):
    def check():
        x = v
        for f in vs:
            x = I.call(f, Args([x]))
        return x
    return attempt(I, check)


def run_variadic(I, p):
    style = STYLES[p.choose(3)]
    inner = inner_attrs(I, style)
    f = I.alloc('self', ObjO(TupleFiller, dict(
        inner_filler=inner, sub_fillers=TupV([Sym(EF, Part)]), inner_args=TupV([Sym(z3.Const('hint', V)), Con(...)]),
        owner=NONE)))
    hollow = style is TypeCheckStyle.hollow
    w0 = p.world
    out = run_method(I, TupleFiller, 'bind', f, Sym(OWNER, type))
    if not out.ok:
        p.prove('rejected only if elements are checked inside a hollow tuple',
                z3.And(z3.Not(passthrough(EF)), z3.BoolVal(hollow), out.exc_is(TypeError)))
        return
    p.prove('element checks inside a hollow tuple are rejected', z3.Or(passthrough(EF), z3.BoolVal(not hollow)))
    vs = added_validators(I, inner)
    p.prove('element checks are added exactly if there are any', passthrough(EF) == z3.BoolVal(not vs))
    if not vs:
        return
    out = run_validators(I, vs, Sym(ARG, tuple))
    prove_filled(I, p, out, EACH.at(p, 0, EMPTY_SEQ, w0), ARG, p.world, tuple_rebuilt)


def all_plain_body(rec, i):
    return z3.Or(i < 0, i >= z3.Length(FILLERS), z3.And(passthrough(FILLERS[i]), rec(i + 1)[0])),


ALL_PLAIN = Rec('all_plain', [], [B], all_plain_body)


def run_fixed(I, p):
    style = STYLES[p.choose(3)]
    inner = inner_attrs(I, style)
    p.assume(z3.Length(HINTS) == z3.Length(FILLERS))
    p.assume(z3.Not(z3.And(z3.Length(HINTS) == 2, HINTS[1] == p.const(...))))
    f = I.alloc('self', ObjO(TupleFiller, dict(
        inner_filler=inner, sub_fillers=SeqV(FILLERS, Part), inner_args=SeqV(HINTS), owner=NONE)))
    hollow = style is TypeCheckStyle.hollow
    w0 = p.world
    plain, = ALL_PLAIN.at(p, 0)
    out = run_method(I, TupleFiller, 'bind', f, Sym(OWNER, type))
    if not out.ok:
        p.prove('rejected only if elements are checked inside a hollow tuple',
                z3.And(z3.Not(plain), z3.BoolVal(hollow), out.exc_is(TypeError)))
        return
    p.prove('element checks inside a hollow tuple are rejected', z3.Or(plain, z3.BoolVal(not hollow)))
    vs = added_validators(I, inner)
    if hollow:
        p.prove('nothing is checked of a hollow tuple', z3.BoolVal(not vs))
        return
    p.observe(arg=ARG, elements=ELEMS)
    out = run_validators(I, vs, Sym(ARG, tuple))
    n = z3.Length(FILLERS) == z3.Length(ELEMS)
    if p.branch(z3.Not(n)):
        p.prove('tuples of another length are rejected', not out.ok and out.exc_is(ValueError))
        p.prove('no element of a tuple of another length is filled', p.world == w0)
        return
    if p.branch(plain):
        p.prove('tuples with nothing to check pass', out.ok and p.box(out.value) == ARG)
        p.prove('nothing is called', p.world == w0)
        return
    prove_filled(I, p, out, EACH_OWN.at(p, 0, EMPTY_SEQ, w0), ARG, p.world, tuple_rebuilt)


def setup(ex):
    ex.handlers[AnnotatedFiller.bind.__code__] = inner_bind_contract


CONTRACTS = [
    Contract('GenericIterableFiller.bind', run_iterable(GenericIterableFiller), ['GenericIterableFiller.bind', 'GenericIterableFiller.reconstruct', '_split_at'],
             [EACH], setup_ex=setup),
    Contract('GenericDequeFiller.bind', run_iterable(GenericDequeFiller), ['GenericDequeFiller.reconstruct'],
             [EACH], setup_ex=setup),
    Contract('TupleFiller.bind (variadic)', run_variadic, ['TupleFiller.bind'], [EACH], setup_ex=setup),
    Contract('TupleFiller.bind (fixed)', run_fixed, ['TupleFiller.bind'], [EACH_OWN, ALL_PLAIN], setup_ex=setup),
]
