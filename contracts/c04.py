"""C04: mapping hints are filled pair by pair."""
import collections
import collections.abc
from .fill import *
from records.fillers.builtin_fillers.typing_fillers import DefaultDictFiller, GenericMappingFiller

ASSUMES = ['a mapping yields the same items every time it is iterated',
           'constructors of mappings consume their argument before anything else, and once',
           'a filler is called with effects of its own only (its result and effects are those of its contract)']

KF, VF = z3.Const('key_filler', V), z3.Const('value_filler', V)
KEYS, VALS = seqof(ARG), dictmap(ARG)


def pairs_body(rec, i, acc, w):
    ok1, k, exc1, w1 = call1(w, KF, KEYS[i])
    ok2, v, exc2, w2 = call1(w1, VF, VALS[KEYS[i]])
    nxt = rec(i + 1, z3.Concat(acc, z3.Unit(mkpair(k, v))), w2)
    end = z3.Or(i < 0, i >= z3.Length(KEYS))
    ok = z3.And(ok1, ok2)
    return (z3.If(end, no(OKC), z3.If(ok, nxt[0], no(EXC))),
            z3.If(end, UNDEF, z3.If(ok, nxt[1], z3.If(ok1, exc2, exc1))),
            z3.If(end, acc, z3.If(ok, nxt[2], acc)),
            z3.If(end, w, z3.If(ok, nxt[3], z3.If(ok1, w2, w1))))


def pair_facts(i, acc, w):
    ok1, k, exc1, w1 = call1(w, KF, KEYS[i])
    ok2, v, exc2, w2 = call1(w1, VF, VALS[KEYS[i]])
    return [item(mkpair(k, v), 0) == k, item(mkpair(k, v), 1) == v]


PAIRS = Rec('pairs', ['seq', 'W'], [INT, V, SV, W], pairs_body, facts=pair_facts)


def same_body(rec, i, acc):
    end = z3.Or(i < 0, i >= z3.Length(KEYS), i >= z3.Length(acc))
    here = z3.And(item(acc[i], 0) == KEYS[i], item(acc[i], 1) == VALS[KEYS[i]])
    return z3.Or(end, z3.And(here, rec(i + 1, acc)[0])),


SAME = Rec('same', ['seq!'], [B], same_body)


def dict_of_body(rec, i, acc, d):
    dom, mp = d
    k, v = item(acc[i], 0), item(acc[i], 1)
    nxt = rec(i + 1, acc, (z3.Store(dom, k, True), z3.Store(mp, k, v)))
    end = z3.Or(i < 0, i >= z3.Length(acc))
    return z3.If(end, dom, nxt[0]), z3.If(end, mp, nxt[1])


DICT_OF = Rec('dict_of', ['seq!', 'dict'], [AB, AV], dict_of_body)


def sources(I, p, acc):
    """the pairs, as the constructor may be given them: a dict of them (constructors of some dictionaries do not take
    pairs), or else the pairs themselves"""
    is_dict, is_dd = I.isinst(Sym(ARG), dict), I.isinst(Sym(ARG), collections.defaultdict)
    d = DICT_OF.at(p, 0, acc, (EMPTY_DOM, EMPTY_MAP))
    return [(is_dict, mkdict(*d)), (z3.Or(z3.Not(is_dict), is_dd), boxseq(acc))]


def rebuilt(I, p, src, w):
    is_dd = I.isinst(Sym(ARG), collections.defaultdict)
    cls = typeof(ARG)
    fac = uf('getattr', V, V, V)(ARG, p.const('default_factory'))
    a, b = call1(w, cls, src), call1(w, cls, fac, src)
    return [z3.If(is_dd, y, x) for x, y in zip(a, b)]


def run(cls):
    def run(I, p):
        style = STYLES[p.choose(3)]
        inner = inner_attrs(I, style)
        f = I.alloc('self', ObjO(cls, dict(inner_filler=inner, key_filler=Sym(KF, Part), value_filler=Sym(VF, Part), owner=NONE)))
        # what python guarantees of the types involved
        v = Sym(ARG, collections.abc.Mapping)
        p.assume(z3.Implies(I.isinst(v, collections.defaultdict), z3.And(
            I.isinst(v, dict), uf('hasattr', V, V, B)(ARG, p.const('default_factory')))))
        if cls is DefaultDictFiller:
            p.assume(I.isinst(v, collections.defaultdict))
        hollow = style is TypeCheckStyle.hollow
        plain = z3.And(passthrough(KF), passthrough(VF))
        w0 = p.world
        out = run_method(I, cls, 'bind', f, Sym(OWNER, type))
        if not out.ok:
            p.prove('rejected only if keys or values are checked inside a hollow mapping',
                    z3.And(z3.Not(plain), z3.BoolVal(hollow), out.exc_is(TypeError)))
            return
        p.prove('key or value checks inside a hollow mapping are rejected', z3.Or(plain, z3.BoolVal(not hollow)))
        vs = added_validators(I, inner)
        p.prove('checks are added exactly if there are any', plain == z3.BoolVal(not vs))
        p.prove('binding calls nothing', p.world == w0)
        p.observe(arg=ARG, keys=KEYS)
        if not vs:
            return

        def check():
            x = v
            for g in vs:
                x = I.call(g, Args([x]))
            return x
        out = attempt(I, check)
        code, exc, acc, w = PAIRS.at(p, 0, EMPTY_SEQ, w0)
        same, = SAME.at(p, 0, acc)
        rs = [(c, rebuilt(I, p, src, w)) for c, src in sources(I, p, acc)]
        if out.ok:
            p.prove('every key and value was accepted', code == OKC)
            x = p.box(out.value)
            p.prove('the very same mapping if every key and value is identical', z3.Implies(same, z3.And(x == ARG, p.world == w)))
            p.prove('else a new mapping of the filled pairs', z3.Or(same, *[
                z3.And(c, ok, x == val, p.world == w2) for c, (ok, val, exc2, w2) in rs]))
        else:
            t = out.exc_term()
            t = UNDEF if t is None else t
            p.prove('the first error aborts', z3.Or(z3.And(code == EXC, t == exc, p.world == w), *[
                z3.And(code == OKC, z3.Not(same), c, z3.Not(ok), t == exc2, p.world == w2) for c, (ok, val, exc2, w2) in rs]))
    return run


def setup(ex):
    ex.handlers[AnnotatedFiller.bind.__code__] = inner_bind_contract


CONTRACTS = [
    Contract('GenericMappingFiller.bind', run(GenericMappingFiller), ['GenericMappingFiller.bind', 'GenericMappingFiller.reconstruct'],
             [PAIRS, SAME, DICT_OF], setup_ex=setup),
    Contract('DefaultDictFiller.bind', run(DefaultDictFiller), ['DefaultDictFiller.reconstruct'],
             [PAIRS, SAME, DICT_OF], setup_ex=setup),
]
