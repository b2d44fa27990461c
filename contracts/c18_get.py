"""C18, C02: which filler a hint gets, and that its annotations go to it; a hint whose arguments are not filled has no
tokens inside of it."""
import collections
import collections.abc
import contextlib
import typing
from .fill import *
import records.fillers.get_filler as gf
from records.fillers.coercers import CoercionToken
from records.fillers.validators import ValidationToken
from records.fillers.builtin_fillers import std_fillers as sf, typing_fillers as tf, recurse
from records.utils import typing_compatible as tc

ASSUMES = [
    'what typing tells of a hint (its origin, arguments, supertype and annotations) does not change',
    'bool, NoneType and the type of Ellipsis have no subclasses, and every class is a subclass of object (Python)',
    'special forms and classes compare by identity', 'the supertype of a new type is no false object']

O, GO, SUPER = z3.Const('origin', V), z3.Const('origin of the origin', V), z3.Const('supertype', V)
GA = z3.Const('arguments', SV)
TOKENS = z3.Const('tokens', SV)
TOK = z3.Const('token', V)
S = models.SCHEMA


def isub(t, c): return uf('issub', V, V, B)(t, c)
def has(t, c): return isinst(t, c)
def same(p, t, obj): return t == p.const(obj)


# ---------------------------------------------------------------- which tokens have an effect

def effective(p, t):
    n = p.const('__wrapped__')
    w = uf('getattr', V, V, V)(t, n)
    kinds = [p.const(c) for c in (CoercionToken, ValidationToken)]
    cls = p.const(type)
    of = lambda x: z3.And(has(x, cls), z3.Or(*[isub(x, k) for k in kinds]))
    return z3.If(has(t, p.const(TypeCheckStyle)), t != p.const(TypeCheckStyle.hollow),
                 z3.Or(*[has(t, k) for k in kinds], of(t), z3.And(uf('hasattr', V, V, B)(t, n), of(w))))


def of_its_type(p, t):
    """t is an instance of the class exactly if its type is a subclass of it"""
    for c in CoercionToken, ValidationToken:
        p.assume(has(t, p.const(c)) == isub(typeof(t), p.const(c)))
    p.assume(has(typeof(t), p.const(type)))
    p.assume(z3.And(*[z3.Not(isub(p.const(type(None)), p.const(c))) for c in (CoercionToken, ValidationToken)]))


def run_effective(I, p):
    p.observe(token=TOK)
    of_its_type(p, TOK)
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(gf._is_effective_token), Args([Sym(TOK)])))
    p.prove('no error', out.ok)
    p.prove('exactly if a filler would do something with it', models.zbool(models.truth(I, out.value)) == effective(p, TOK))
    p.prove('calls nothing', p.world == w0)


def effective_contract(I, a):
    return SBool(effective(I.p, I.p.box(a.pos[0])))


# ---------------------------------------------------------------- tokens inside of a hint

def args_of(t): return uf('get_args', V, SV)(t)
def split_o(t): return uf('origin of hint', V, V)(t)
def split_t(t): return uf('annotations of hint', V, SV)(t)
def bad(t): return uf('has tokens inside', V, B)(t)
def is_list(t): return isinst(t, NOW.p.const(list))


class NOW:
    p = None


def any_token(rec, i, s):
    nxt = rec(i + 1, s)
    end = z3.Or(i < 0, i >= z3.Length(s))
    return z3.If(end, z3.BoolVal(False), z3.If(effective(NOW.p, s[i]), z3.BoolVal(True), nxt[0])),


TOKENS_IN = Rec('effective tokens', ['base'], [B], any_token)


def bad_hint(h):
    """the hint has tokens of its own or inside"""
    return z3.Or(TOKENS_IN.at(NOW.p, 0, split_t(h))[0], bad(split_o(h)))


def any_hint(rec, i, s):
    nxt = rec(i + 1, s)
    end = z3.Or(i < 0, i >= z3.Length(s))
    return z3.If(end, z3.BoolVal(False), z3.If(bad_hint(s[i]), z3.BoolVal(True), nxt[0])),


HINTS_IN = Rec('hints with tokens', ['base'], [B], any_hint)


def any_arg(rec, i):
    s = args_of(O)
    nxt = rec(i + 1)
    end = z3.Or(i < 0, i >= z3.Length(s))
    one = z3.If(is_list(s[i]), HINTS_IN.at(NOW.p, 0, seqof(s[i]))[0], bad_hint(s[i]))
    return z3.If(end, z3.BoolVal(False), z3.If(one, z3.BoolVal(True), nxt[0])),


ARGS_IN = Rec('arguments with tokens', [], [B], any_arg, over=[args_of(O)])


def get_args(I, a): return SeqV(args_of(I.p.box(a.pos[0])))


def split(I, a):
    t = I.p.box(a.pos[0])
    return TupV([Sym(split_o(t)), SeqV(split_t(t))])


def forbid(I, a):
    p = I.p
    if not p.started:
        p.started = True
        return NotImplemented
    if p.branch(bad(p.box(a.pos[0]))):
        I.throw(TypeError)
    return NONE


def run_forbid(I, p):
    NOW.p, p.started = p, False
    p.observe(hint=O)
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(gf.forbid_inner_tokens), Args([Sym(O)])))
    want, = ARGS_IN.at(p, 0)
    if out.ok:
        p.prove('a token inside is rejected', z3.Not(want))
    else:
        p.prove('nothing else is', z3.And(want, out.exc_is(TypeError)))
    p.prove('calls nothing', p.world == w0)


def setup_forbid(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(gf.get_args, get_args)
    ex.handlers[gf.split_annotation.__code__] = split
    ex.handlers[gf._is_effective_token.__code__] = effective_contract
    ex.handlers[gf.forbid_inner_tokens.__code__] = forbid
    ex.handlers['classlike'] = lambda I, t: True


# ---------------------------------------------------------------- what a hint is and what its annotations are

HINT = z3.Const('hint', V)


def annotated(t): return uf('is annotated', V, B)(t)
def hasattr_(p, t, name): return uf('hasattr', V, V, B)(t, p.const(name))
def attr(p, t, name): return uf('getattr', V, V, V)(t, p.const(name))


def run_split(I, p):
    p.started = False
    p.observe(hint=HINT)
    args = args_of(HINT)
    p.assume(z3.Implies(annotated(HINT), z3.Length(args) >= 2))
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(tc.split_annotation), Args([Sym(HINT)])))
    p.prove('no error', out.ok)
    v = z3.If(annotated(HINT), args[0], HINT)
    own = z3.If(annotated(HINT), z3.SubSeq(args, 1, z3.Length(args) - 1), EMPTY_SEQ)
    new, sup = hasattr_(p, v, '__supertype__'), attr(p, v, '__supertype__')
    if not isinstance(out.value, TupV) or len(out.value.items) != 2:
        raise Unsupported('result')
    o, ts = out.value.items
    p.prove('the hint under the annotations, and under new types', p.box(o) == z3.If(new, split_o(sup), v))
    ts = seq_of(I, ts)
    p.prove('all its annotations, those of the supertype of a new type first', ts == z3.If(
        new, z3.Concat(split_t(sup), own), own))
    p.prove('calls nothing', p.world == w0)


def seq_of(I, k):
    if isinstance(k, TupV):
        return seq(*[I.p.box(x) for x in k.items])
    if isinstance(k, Con) and isinstance(k.obj, (tuple, list)):
        return seq(*[I.p.const(x) for x in k.obj])
    if isinstance(k, SeqV):
        return k.seq
    if isinstance(k, Ref) and isinstance(I.get(k), ListO):
        return I.list_seq(I.get(k))
    raise Unsupported('a sequence')


def split_again(I, a):
    if not I.p.started:
        I.p.started = True
        return NotImplemented
    return split(I, a)


def setup_split(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(tc.get_args, get_args)
    ex.handlers[tc.split_annotation.__code__] = split_again
    ex.handlers[tc.is_annotation.__code__] = lambda I, a: SBool(annotated(I.p.box(a.pos[0])))


# ---------------------------------------------------------------- the filler of a hint

def outcome_of(I, what):
    p = I.p
    if p.branch(z3.Bool(what + ' succeeds')):
        return Sym(z3.Const(what, V))
    e = z3.Const('error of ' + what, V)
    p.assume(isinst(e, p.const(Exception)))
    raise PyRaise(Sym(e, Exception))


def prove_same_outcome(p, out, what):
    ok = z3.Bool(what + ' succeeds')
    if out.ok:
        p.prove('what is made is given', z3.And(ok, p.box(out.value) == z3.Const(what, V)))
    else:
        p.prove('only an error of it propagates', z3.BoolVal(False) if out.exc_term() is None else z3.And(
            z3.Not(ok), out.exc_term() == z3.Const('error of ' + what, V)))


def run_get(I, p):
    p.made = []

    def make(I, a):
        p.made.append((p.box(a.pos[0]), seq_of(I, a.pos[1])))
        return outcome_of(I, 'the filler')
    I.ex.handlers[gf.get_annotated_filler.__code__] = make
    out = attempt(I, lambda: I.call(I.lift(gf.get_filler), Args([Sym(HINT)])))
    p.prove('one filler is made of the hint with all its annotations', z3.BoolVal(len(p.made) == 1) if len(p.made) != 1 else z3.And(
        p.made[0][0] == split_o(HINT), p.made[0][1] == split_t(HINT)))
    prove_same_outcome(p, out, 'the filler')


ELEMENTS = [list, set, frozenset, *[getattr(collections.abc, n) for n in ('Sequence', 'MutableSequence', 'Set', 'MutableSet')]]
PAIRS = [dict, collections.abc.Mapping, collections.abc.MutableMapping]
NOT_FILLED = [*[getattr(collections.abc, n) for n in (
    'Iterable', 'Iterator', 'Reversible', 'Collection', 'Container', 'AsyncIterator', 'AsyncIterable', 'AsyncGenerator',
    'Generator')], contextlib.AbstractContextManager, contextlib.AbstractAsyncContextManager]
GENERIC = {tuple: tf.TupleFiller, collections.deque: tf.GenericDequeFiller, collections.defaultdict: tf.DefaultDictFiller,
           **{c: tf.GenericIterableFiller for c in ELEMENTS}, **{c: tf.GenericMappingFiller for c in PAIRS},
           **{c: tf.GenericFillerN for c in NOT_FILLED}}
PLAIN = {bool: sf.BoolFiller, type(None): sf.NoneFiller, object: sf.SimpleFiller, type(...): sf.EllipsisFiller}


def subclasses(c):
    out = [c]
    for d in c.__subclasses__():
        out += subclasses(d)
    return list(dict.fromkeys(out))


NOTHING, AGAIN, MADE = 0, 1, 2


def some_arg(rec, i):
    nxt = rec(i + 1)
    end = z3.Or(i < 0, i >= z3.Length(GA))
    return z3.If(end, z3.BoolVal(False), z3.If(has(GA[i], NOW.p.const(typing.TypeVar)), nxt[0], z3.BoolVal(True))),


SOME_ARG = Rec('arguments that are no type variables', [], [B], some_arg, over=[GA])


def pick(p):
    """(what becomes of the hint, the filler class or the hint to use instead, whether tokens inside are rejected)"""
    no_check, yes = z3.BoolVal(False), z3.BoolVal(True)
    again = lambda x, check=no_check: (no(AGAIN), p.const(x) if not isinstance(x, z3.ExprRef) else x, check)
    made = lambda c, check=no_check: (no(MADE), p.const(c), check)
    cls = has(O, p.const(type))
    generic = z3.Or(*[same(p, GO, c) for c in GENERIC])
    table = made(tf.TupleFiller)
    for c, f in GENERIC.items():
        table = choose(same(p, GO, c), made(f), table)
    rest = choose(cls, made(sf.SimpleFiller), (no(NOTHING), UNDEF, no_check))
    filled = SOME_ARG.at(p, 0)[0]
    cases = [
        *[(same(p, O, c), made(f)) for c, f in PLAIN.items()],
        (same(p, O, callable), made(sf.CallableFiller)),
        (same(p, O, None), again(type(None))),
        (hasattr_(p, O, '__supertype__'), again(attr(p, O, '__supertype__'))),
        (same(p, O, typing.Any), again(object)),
        (z3.Or(same(p, GO, typing.Union), same(p, GO, tf.UnionType)), made(tf.UnionFiller)),
        (same(p, GO, typing.Literal), made(tf.LiteralFiller)),
        (z3.And(same(p, GO, type), filled), made(tf.TypeFiller, yes)),
        (same(p, GO, type), again(type)),
        (same(p, GO, collections.abc.Callable), again(callable, yes)),
        (z3.And(filled, generic), table),
        (filled, rest),
        (z3.And(same(p, GO, tuple), z3.Not(same(p, O, typing.Tuple)), z3.Length(GA) == 0), made(tf.TupleFiller)),
        (truthy(GO), again(GO))]
    out = rest
    for c, x in reversed(cases):
        out = choose(c, x, out)
    return out


def choose(c, a, b): return tuple(z3.If(c, x, y) for x, y in zip(a, b))


def make_again(I, a):
    p = I.p
    if not p.started:
        p.started = True
        return NotImplemented
    p.again.append((p.box(a.pos[0]), seq_of(I, a.pos[1])))
    return outcome_of(I, 'the filler')


def make_class(cls):
    def make(I, a):
        p = I.p
        p.made.append((cls, p.box(a.pos[0]), seq_of(I, a.pos[1])) if len(a.pos) == 2 else (cls, p.box(a.pos[0]), None))
        return outcome_of(I, 'the filler')
    return make


def look(I, a):
    p = I.p
    p.looked += 1
    p.prove('the hint itself is looked into', p.box(a.pos[0]) == O)
    if p.branch(bad(O)):
        p.rejected = True
        I.throw(TypeError)
    return NONE


def typing_facts(p):
    """what Python and typing make sure of"""
    consts = [*PLAIN, callable, None, typing.Any, *GENERIC, typing.Union, typing.Literal, type, collections.abc.Callable]
    hashable = uf('hashable', V, B)
    for c in consts:
        p.assume(hashable(p.const(c)))
        p.assume(truthy(p.const(c)) if c is not None else z3.Not(truthy(p.const(c))))
    p.assume(hashable(GO))
    new = p.const('__supertype__')
    p.assume(z3.Implies(hasattr_(p, O, '__supertype__'), truthy(attr(p, O, '__supertype__'))))
    for c in [*PLAIN, callable, None, typing.Any]:
        if c is not typing.Any and c is not callable and c is not None:
            p.assume(z3.Implies(same(p, O, c), has(O, p.const(type))))
        p.assume(z3.Not(uf('hasattr', V, V, B)(p.const(c), new)))
    for c in (bool, type(None), type(...)):
        p.assume(isub(O, p.const(c)) == same(p, O, c))
    p.assume(z3.Implies(has(O, p.const(type)), isub(O, p.const(object))))
    # special forms and classes compare by identity
    for c in (typing.Union, typing.Literal, typing.Any, type, tuple, collections.abc.Callable, tf.UnionType):
        for t in (O, GO):
            p.assume(pyeq(t, p.const(c)) == (t == p.const(c)))
            p.assume(pyeq(p.const(c), t) == (t == p.const(c)))


def run_dispatch(I, p):
    NOW.p = p
    p.started, p.again, p.made, p.looked, p.rejected = False, [], [], 0, False
    p.observe(hint=O, origin_of_it=GO, args=GA, tokens=TOKENS)
    typing_facts(p)
    args = SeqV(TOKENS)
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(gf.get_annotated_filler), Args([Sym(O), args])))
    kind, what, check = pick(p)
    p.prove('tokens inside are looked for exactly if its arguments are not filled', z3.BoolVal(p.looked > 0) == check)
    if p.rejected:
        p.prove('what has tokens inside is rejected', z3.BoolVal(False) if out.ok else out.exc_is(TypeError))
        return
    p.prove('at most one filler is made', len(p.again) + len(p.made) <= 1)
    p.prove('a hint is used instead exactly if it should be', z3.BoolVal(bool(p.again)) == (kind == AGAIN))
    p.prove('calls nothing else', p.world == w0)
    if p.again:
        t, toks = p.again[0]
        p.prove('the hint used instead is the right one', t == what)
        p.prove('it keeps all the tokens', toks == TOKENS)
    elif p.made:
        cls, t, toks = p.made[0]
        p.prove('the filler is of the hint', t == O)
        if cls is gf.DumbFiller:
            p.prove('a hint without a filler has no tokens', z3.And(kind == NOTHING, z3.Length(TOKENS) == 0, z3.BoolVal(toks is None)))
        else:
            p.prove('the filler is of the class for the hint', z3.And(kind == MADE, z3.Or(*[
                what == p.const(c) for c in cls.__mro__ if c in FILLERS])))
            p.prove('it gets all the tokens', z3.BoolVal(False) if toks is None else toks == TOKENS)
    else:
        p.prove('tokens of a hint without a filler are rejected', z3.BoolVal(False) if out.ok else z3.And(
            kind == NOTHING, z3.Length(TOKENS) > 0, out.exc_is(TypeError)))
        return
    prove_same_outcome(p, out, 'the filler')


FILLERS = subclasses(Filler)


def setup_dispatch(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(tf.get_args, lambda I, a: args_of_it(I, a))
    con(tf.get_origin, lambda I, a: origin_of_it(I, a))
    for c in FILLERS:
        if not c.__dict__.get('__abstractmethods__'):
            con(c, make_class(c))
    ex.handlers[gf.get_annotated_filler.__code__] = make_again
    ex.handlers[gf.forbid_inner_tokens.__code__] = look
    ex.unhashable_keys = True


def args_of_it(I, a):
    I.p.prove('the hint is looked into', I.p.box(a.pos[0]) == O)
    return SeqV(GA)


def origin_of_it(I, a):
    I.p.prove('the hint is looked into', I.p.box(a.pos[0]) == O)
    return Sym(GO)


CONTRACTS = [
    Contract('_is_effective_token', run_effective, ['_is_effective_token']),
    Contract('forbid_inner_tokens', run_forbid, ['forbid_inner_tokens'], [TOKENS_IN, HINTS_IN, ARGS_IN], setup_ex=setup_forbid),
    Contract('split_annotation', run_split, ['split_annotation'], setup_ex=setup_split),
    Contract('get_filler', run_get, ['get_filler'], setup_ex=setup_forbid),
    Contract('get_annotated_filler', run_dispatch, ['get_annotated_filler', '_typing', 'has_args', 'callable_checker', 'none_checker'],
             [SOME_ARG], setup_ex=setup_dispatch),
]
