"""C18: what a filler is made of: the tokens of a hint go to the filler of the container, each inner hint gets a filler
of its own, and tokens that are added to a field go where its user says."""
from .fill import *
from .c18_get import seq_of
import records.field
from records.field import RecordField
import records.fillers.get_filler as gf
from records.fillers.builtin_fillers import std_fillers as sf, typing_fillers as tf
from records.fillers.coercers import CallCoercion
from records.fillers.validators import AssertCallValidation, CallValidation

ASSUMES = [
    'what typing tells of a hint (its origin and arguments) does not change',
    'a generic container has as many arguments as it takes (typing)',
    'making a filler changes no other filler']

O, GO = z3.Const('origin', V), z3.Const('origin of the origin', V)
GA, TOKENS = z3.Const('arguments', SV), z3.Const('tokens', SV)
KEY, FUNC = z3.Const('key', V), z3.Const('func', V)
S = models.SCHEMA


def filler_of(h): return uf('filler of hint', V, V)(h)
def outer(o, ts): return uf('filler of origin', V, SV, V)(o, ts)


def fails(I, what):
    p = I.p
    e = z3.Const('error of ' + what, V)
    p.assume(isinst(e, p.const(Exception)))
    p.failed.append(e)
    raise PyRaise(Sym(e, Exception))


def make_inner(I, a):
    p = I.p
    h = p.box(a.pos[0])
    if p.branch(uf('get_filler succeeds', V, B)(h)):
        return Sym(filler_of(h), Filler)
    fails(I, 'get_filler')


def make_outer(I, a):
    p = I.p
    p.outer += 1
    o, ts = p.box(a.pos[0]), seq_of(I, a.pos[1])
    if p.branch(z3.Bool('get_annotated_filler succeeds')):
        return Sym(outer(o, ts), Filler)
    fails(I, 'get_annotated_filler')


def origin_of(I, a):
    I.p.prove('the hint is looked into', I.p.box(a.pos[0]) == O)
    return Sym(GO)


def args_of(I, a):
    I.p.prove('the hint is looked into', I.p.box(a.pos[0]) == O)
    return SeqV(GA)


def fillers_body(rec, i, acc):
    end = z3.Or(i < 0, i >= z3.Length(GA))
    return z3.If(end, acc, rec(i + 1, z3.Concat(acc, z3.Unit(filler_of(GA[i]))))[0]),


INNER = Rec('fillers of the arguments', ['seq'], [SV], fillers_body, over=[GA])


def attr(o, name):
    if name not in o.attrs:
        raise Unsupported(f'no attribute {name}')
    return o.attrs[name]


def run_make(cls, n, check, wraps=True):
    def run(I, p):
        p.failed, p.outer = [], 0
        p.observe(hint=O, tokens=TOKENS, args=GA)
        if n is not None:
            p.assume(z3.Length(GA) == n)
        for old in TupV([TupV([])]), Con(((),)):  # before Python 3.11 only
            p.assume(z3.Not(models.zbool(models.equal(I, SeqV(GA), old))))
        w0 = p.world
        out = attempt(I, lambda: I.call(Con(cls), Args([Sym(O), SeqV(TOKENS)])))
        p.prove('calls nothing else', p.world == w0)
        if not out.ok:
            t = out.exc_term()
            p.prove('only errors of making the parts', z3.BoolVal(False) if t is None or not p.failed else t == p.failed[-1])
            return
        p.prove('no error is swallowed', z3.BoolVal(not p.failed))
        o = I.get(out.value)
        p.prove('it is not bound yet', z3.BoolVal(isinstance(attr(o, 'owner'), Con) and attr(o, 'owner').obj is None))
        if wraps:
            p.prove('the filler of the container gets the tokens', p.box(attr(o, 'inner_filler')) == outer(O if cls is tf.WrapperFiller else GO, TOKENS))
            p.prove('one of it is made', z3.BoolVal(p.outer == 1))
        check(I, p, o)
    return run


def same(name, term):
    return lambda I, p, o: p.prove(f'{name} is right', p.box(attr(o, name)) == term)


def both(*checks):
    def check(I, p, o):
        for c in checks:
            c(I, p, o)
    return check


def sub_fillers(I, p, o):
    variadic = z3.And(z3.Length(GA) == 2, GA[1] == p.const(...))
    want = z3.If(variadic, z3.Unit(filler_of(GA[0])), INNER.at(p, 0, EMPTY_SEQ)[0])
    p.prove('each position has a filler of its hint', seq_of(I, attr(o, 'sub_fillers')) == want)
    p.prove('the hints are kept', seq_of(I, attr(o, 'inner_args')) == GA)


def union_fillers(I, p, o):
    p.prove('each member has a filler of its hint', seq_of(I, attr(o, 'sub_fillers')) == INNER.at(p, 0, EMPTY_SEQ)[0])
    p.prove('the tokens are kept for the members', seq_of(I, attr(o, 'args')) == TOKENS)
    p.prove('no others have been applied', seq_of(I, attr(o, 'applied')) == EMPTY_SEQ)


def n_types(I, p, o): p.prove('the inner hints are kept', seq_of(I, attr(o, 'inner_types')) == GA)


def annotated(I, p, o):
    p.prove('it has no style, coercers and validators before its tokens are applied', z3.And(
        p.box(attr(o, 'type_checking_style')) == p.const(TypeCheckStyle.default),
        seq_of(I, attr(o, 'coercers')) == EMPTY_SEQ, seq_of(I, attr(o, 'validators')) == EMPTY_SEQ))
    a, b = attr(o, 'coercers'), attr(o, 'validators')
    p.prove('in lists of its own', z3.BoolVal(isinstance(a, Ref) and isinstance(b, Ref) and a.id != b.id))
    p.prove('it keeps its origin and tokens', z3.And(p.box(attr(o, 'origin')) == O, seq_of(I, attr(o, 'args')) == TOKENS))


E0 = filler_of(GA[0])
MAKES = [
    (tf.WrapperFiller, None, lambda I, p, o: None), (tf.TypeFiller, 1, same('base_type', GA[0])),
    (tf.TupleFiller, None, sub_fillers), (tf.GenericFillerN, None, n_types),
    *[(c, 1, both(same('element_filler', E0))) for c in (tf.GenericIterableFiller, tf.GenericDequeFiller)],
    *[(c, 2, both(same('key_filler', E0), same('value_filler', filler_of(GA[1])))) for c in (
        tf.GenericMappingFiller, tf.DefaultDictFiller)]]


def setup(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(tf.get_args, args_of)
    con(tf.get_origin, origin_of)
    ex.handlers[gf.get_filler.__code__] = make_inner
    ex.handlers[gf.get_annotated_filler.__code__] = make_outer


def make(cls, n, check, wraps=True):
    # abstract bases are made as part of their subclasses
    return Contract(f'{cls.__name__}.__init__', run_make(cls, n, check, wraps), [f'{cls.__name__}.__init__', 'Filler.__init__'],
                    [INNER], setup_ex=setup)


# ---------------------------------------------------------------- hints that cannot be filled

def run_dumb(I, p):
    p.looked = 0

    def look(I, a):
        p.looked += 1
        p.prove('the hint is looked into', p.box(a.pos[0]) == O)
        if p.branch(z3.Bool('has tokens inside')):
            I.throw(TypeError)
        return NONE
    I.ex.handlers[gf.forbid_inner_tokens.__code__] = look
    out = attempt(I, lambda: I.call(Con(gf.DumbFiller), Args([Sym(O)])))
    inside = z3.Bool('has tokens inside')
    p.prove('tokens inside are looked for', p.looked > 0)
    if not out.ok:
        p.prove('only tokens inside are rejected', z3.And(inside, out.exc_is(TypeError)))
        return
    p.prove('tokens inside are rejected', z3.Not(inside))
    o, v, w0 = out.value, z3.Const('v', V), p.world
    p.prove('it is not bound yet', z3.BoolVal(isinstance(attr(I.get(o), 'owner'), Con)))
    for what in 'is_hollow', 'is_passthrough':
        r = attempt(I, lambda: I.call(method_of(I, what, gf.DumbFiller), Args([o])))
        p.prove(what, r.ok and models.truth(I, r.value) is True or z3.And(r.ok, models.zbool(models.truth(I, r.value))))
    r = attempt(I, lambda: I.call(method_of(I, 'fill', gf.DumbFiller), Args([o, Sym(v)])))
    p.prove('any value is taken as it is', z3.BoolVal(False) if not r.ok else p.box(
        models.getattr_(I, r.value, 'value')) == v)
    if r.ok:
        p.prove('as unchecked', p.box(models.getattr_(I, r.value, 'type_pass_kind')) == p.const(TypePassKind.hollow))
    p.prove('calls nothing', p.world == w0)


def method_of(I, name, cls): return I.lift(models.mro_lookup(cls, name))


# ---------------------------------------------------------------- parts of fillers, by key

SUBS = z3.Const('sub_fillers', SV)


def run_sub(cls, attrs, pick):
    def run(I, p):
        at = attrs(I, p)
        f = I.alloc('self', ObjO(cls, dict(owner=NONE, **at)))
        key = [Sym(KEY), NONE, SInt(z3.Int('index'))][p.choose(3)]
        if isinstance(key, Sym):
            p.assume(KEY != p.const(None))
        w0 = p.world
        out = run_method(I, cls, 'sub_filler', f, key)
        got, want = pick(I, p, key)
        if key is NONE:
            p.prove('without a key it is the filler itself', z3.BoolVal(out.ok and isinstance(out.value, Ref) and out.value.id == f.id))
        elif out.ok:
            p.prove('only a part it has is given', z3.And(got, p.box(out.value) == want))
        else:
            p.prove('a LookupError without one', z3.And(z3.Not(got), out.exc_is(LookupError)))
        if not isinstance(key, Sym):
            p.prove('calls nothing', p.world == w0)
    return run


def positions(I, p, key):
    n = z3.Length(SUBS)
    if key is NONE:
        return z3.BoolVal(False), UNDEF
    i = key.t if isinstance(key, SInt) else uf('int value', V, INT)(KEY)
    whole = isinst(KEY, p.const(int)) if isinstance(key, Sym) else z3.BoolVal(True)
    return z3.And(whole, i >= -n, i < n), SUBS[z3.If(i < 0, i + n, i)]


def named(*names):
    def pick(I, p, key):
        got, want = z3.BoolVal(False), UNDEF
        for k, name in reversed(list(enumerate(names))):
            c = z3.BoolVal(False) if key is NONE else models.zbool(models.equal(I, key, Con(k)))
            got, want = z3.Or(got, c), z3.If(c, z3.Const(name, V), want)
        return got, want
    return pick


def parts(*names): return lambda I, p: {n: Sym(z3.Const(n, V), Filler) for n in names}


def sub(cls, attrs, pick): return Contract(f'{cls.__name__}.sub_filler', run_sub(cls, attrs, pick), [
    f'{cls.__name__}.sub_filler', 'Filler.sub_filler'])


def some_subs(I, p): return dict(sub_fillers=SeqV(SUBS, Filler))


# ---------------------------------------------------------------- tokens added to a field

class Sub:
    """stands for the class of the filler of a field"""


def sub_of(I, v):
    def sub_filler(I, a):
        p = I.p
        p.asked.append(p.box(a.pos[0]))
        if p.branch(z3.Bool('there is such a part')):
            return Sym(z3.Const('part', V), Sub)
        fails(I, 'sub_filler')
    return NativeV(sub_filler, 'sub_filler')


def apply_of(I, v):
    def apply(I, a):
        p = I.p
        p.applied.append((v.t, p.box(a.pos[0])))
        if p.branch(z3.Bool('the token is taken')):
            return NONE
        fails(I, 'apply')
    return NativeV(apply, 'apply')


S[Sub, 'sub_filler'] = sub_of
S[Sub, 'apply'] = apply_of


def run_add(name, cls, given, later, key):
    """given: keyword arguments for the token; later: used as a decorator with arguments"""
    def run(I, p):
        p.failed, p.asked, p.applied, p.tokens = [], [], [], []
        token = z3.Const('the token', V)

        def new(I, a):
            p.tokens.append((list(a.pos), dict(a.kw), list(a.maps)))
            if p.branch(z3.Bool('the token can be made')):
                return Sym(token)
            fails(I, 'token')
        I.ex.handlers['con', id(cls)] = new
        f = I.alloc('field', ObjO(RecordField, dict(filler=Sym(z3.Const('filler', V), Sub))))
        kw = {k: Sym(z3.Const('keyword ' + k, V)) for k in given}
        if key:
            kw['sub_key'] = Sym(KEY)
        m = models.getattr_(I, f, name)
        w0 = p.world

        def go():
            if later:
                return I.call(I.call(m, Args([], kw)), Args([Sym(FUNC)]))
            return I.call(m, Args([Sym(FUNC)], kw))
        p.assume(FUNC != p.const(None))
        out = attempt(I, go)
        p.prove('calls nothing else', p.world == w0)
        # a token of the function and all that was given, for the part with that key
        pos, named, maps = p.tokens[0] if p.tokens else ([], {}, [])
        p.prove('one token is made', len(p.tokens) <= 1)
        if p.tokens:
            p.prove('of the function and all the keywords', z3.BoolVal(False) if len(pos) != 1 or set(named) != set(given) or maps else
                    z3.And(p.box(pos[0]) == FUNC, *[p.box(named[k]) == z3.Const('keyword ' + k, V) for k in given]))
        want = KEY if key else p.const(None)
        p.prove('the right part of the filler is asked for', z3.And(*[t == want for t in p.asked]))
        p.prove('the token goes nowhere else', z3.And(z3.BoolVal(len(p.applied) <= 1), *[
            z3.And(a == z3.Const('part', V), b == token) for a, b in p.applied]))
        if out.ok:
            p.prove('the token goes to the part', z3.BoolVal(len(p.applied) == 1 and not p.failed))
            p.prove('the function is given back', p.box(out.value) == FUNC)
        else:
            t = out.exc_term()
            p.prove('only errors of the token and the part', z3.BoolVal(False) if t is None or not p.failed else t == p.failed[-1])
    return run


ADD = [('add_validator', CallValidation), ('add_assert_validator', AssertCallValidation), ('add_coercer', CallCoercion)]

CONTRACTS = [
    *[make(*m) for m in MAKES],
    make(tf.UnionFiller, None, union_fillers, False),
    *[make(c, None, annotated, False) for c in (sf.SimpleFiller, sf.BoolFiller, sf.NoneFiller, sf.EllipsisFiller, sf.CallableFiller)],
    Contract('DumbFiller', run_dumb, ['DumbFiller.__init__', 'DumbFiller.fill', 'DumbFiller.is_hollow', 'Filler.is_passthrough']),
    *[sub(c, some_subs, positions) for c in (tf.TupleFiller, tf.UnionFiller)],
    *[sub(c, parts('element_filler'), named('element_filler')) for c in (tf.GenericIterableFiller, tf.GenericDequeFiller)],
    *[sub(c, parts('key_filler', 'value_filler'), named('key_filler', 'value_filler')) for c in (
        tf.GenericMappingFiller, tf.DefaultDictFiller)],
    *[sub(c, parts(), named()) for c in (sf.SimpleFiller, tf.WrapperFiller)],
    *[Contract(f'RecordField.{n}{" with a key" if k else ""}{", as a decorator with arguments" if l else ""}, {len(g)} keywords',
               run_add(n, c, g, l, k), [f'RecordField.{n}', 'RecordField._apply_to_filler', 'decorator_kw_method'])
      for n, c in ADD for k in (False, True) for g, l in (((), False), (('a', 'b'), True), (('a',), False))],
]
