"""C20: the coercers that evaluate text, and ToBytes."""
import numbers
from .c20 import *
from .c20 import make, bound, built, prove_call, apply, extra
from records.fillers.builtin_fillers import std_fillers as sf
from records.fillers.builtin_fillers.std_fillers import Eval, LiteralEval, ToBytes

ASSUMES = [
    'evaluating a text changes no name it is given, has no other effects than a call, and raises nothing but Exceptions',
    'literal_eval has no effects, and evaluating a literal over and over ends (each round takes two quotes)',
    'to_bytes and bit_length are those of integers']


def name_of(t): return uf('a.__name__', V, V)(t)


def names_body(rec, i, state):
    d, m = state
    end = z3.Or(i < 0, i >= z3.Length(EXTRA))
    k = name_of(EXTRA[i])
    nd, nm = rec(i + 1, (z3.Store(d, k, True), z3.Store(m, k, EXTRA[i])))
    return z3.If(end, d, nd), z3.If(end, m, nm)


NAMES = Rec('names', ['dict'], [AB, AV], names_body)


def eval_contract(I, a):
    p = I.p
    ok = len(a.pos) == 2 and not a.kw and not a.maps
    if not ok or not isinstance(a.pos[1], Ref) or not isinstance(I.get(a.pos[1]), DictO):
        raise Unsupported('eval with other arguments')
    d = I.get(a.pos[1])
    if d.items is None or set(d.items) != {'__builtins__'}:
        raise Unsupported('eval with other names')
    return I.opaque_call(p.const(eval), Args([a.pos[0]], {}, [names(I, d.items['__builtins__'])]))


def names(I, d):
    return I.dict_terms(I.get(d))


def run_eval(with_target):
    def run(I, p):
        p.observe(arg=ARG, names=EXTRA)
        pos, maps = extra(p)
        if with_target:
            pos = [Con(...), *pos]
        else:
            p.assume(z3.Or(z3.Length(EXTRA) == 0, EXTRA[0] != p.const(...)))
        m = make(I, Eval, *pos, maps=maps)
        if not built(I, p, m):
            return
        d, mp = NAMES.at(p, 0, (KD, KM))
        if with_target:
            k = name_of(ORIGIN)
            d, mp = z3.Store(d, k, True), z3.Store(mp, k, ORIGIN)
        w = p.world
        for again in (False, True):  # fillers share a token
            b = bound(I, m.value, Sym(z3.Const('another target', V), type) if again else None)
            if not p.prove('can be bound', z3.BoolVal(b.ok)):
                return
            if not again:
                f = b.value
        p.prove('making it evaluates nothing', p.world == w)
        out = apply(I, f, Sym(ARG))
        text = isinst(ARG, p.const(str))
        if p.branch(text):
            s = seq(ARG)
            ok, val, exc, w2 = result(w, p.const(eval), s, d, mp)
            p.prove('the text is evaluated once, with the configured names', p.world == w2)
            p.prove('it fails if the text cannot be evaluated', ok == z3.BoolVal(out.ok))
            p.prove('the value of the text' if out.ok else 'a TypeError', p.box(out.value) == val if out.ok else out.exc_is(TypeError))
        else:
            p.prove('only text is evaluated', z3.BoolVal(not out.ok))
            p.prove('nothing is evaluated', p.world == w)
    return run


# literals

def lit_ok(t): return uf('is a literal', V, B)(t)
def lit(t): return uf('value of the literal', V, V)(t)
def lit_end_ok(t): return uf('literal in the end', V, B)(t)
def lit_end(t): return uf('value in the end', V, V)(t)


def unfold(p, t, n=1):
    s = isinst(t, p.const(str))
    p.assume(lit_end_ok(t) == z3.Or(z3.Not(s), z3.And(lit_ok(t), lit_end_ok(lit(t)))))
    p.assume(z3.Implies(lit_end_ok(t), lit_end(t) == z3.If(s, lit_end(lit(t)), t)))
    if n > 1:
        unfold(p, lit(t), n - 1)


def literal_contract(I, a):
    p = I.p
    if len(a.pos) != 1 or a.kw or a.maps:
        raise Unsupported('literal_eval with other arguments')
    t = p.box(a.pos[0])
    p.prove('only text is evaluated', isinst(t, p.const(str)))
    if p.branch(lit_ok(t)):
        return Sym(lit(t))
    I.throw(ValueError) if p.choose(2) else I.throw(SyntaxError)


def same_end(I, ctx, entry):
    out = []
    for s in ctx.slots():
        if ctx.changing(s) and entry.term(s, 'V') is not None:
            e = entry.term(s, 'V')

            def f(i, c, s=s, e=e):
                t = c.term(s, 'V')
                if t is None:
                    return None
                unfold(c.p, t)
                return z3.And(lit_end_ok(t) == lit_end_ok(e), z3.Implies(lit_end_ok(t), lit_end(t) == lit_end(e)))
            out.append((('literal', s), f))
    return out


LITERALS = int, str, float, complex, set, tuple, dict, list, bool


def run_literal(I, p):
    p.observe(arg=ARG)
    m = make(I, LiteralEval)
    if not built(I, p, m):
        return
    n = p.choose(len(LITERALS) + 1)
    b = bound(I, m.value, Con(LITERALS[n] if n < len(LITERALS) else numbers.Number))
    p.prove('only types with literals are taken', z3.BoolVal(b.ok == (n < len(LITERALS))))
    if not b.ok:
        p.prove('a TypeError', b.exc_is(TypeError))
        return
    unfold(p, ARG, p.ex.unroll + 2 if p.ex.unroll else 1)
    w = p.world
    out = apply(I, b.value, Sym(ARG))
    p.prove('it fails if the text is no literal', lit_end_ok(ARG) == z3.BoolVal(out.ok))
    if out.ok:
        p.prove('the value of the literal', p.box(out.value) == lit_end(ARG))
    p.prove('nothing is called', p.world == w)


# bytes

def bits(t): return uf('bits', V, INT)(t)
def as_bytes(t, n): return uf('bytes of', V, INT, V)(t, n)


def to_bytes(I, a):
    """the call is recorded"""
    p = I.p
    p.calls.append((p.box(a.pos[0]), a.pos[1:], a.kw, a.maps))
    if p.branch(z3.Bool('to_bytes succeeds')):
        return Sym(z3.Const('the bytes', V), bytes)
    I.throw(OverflowError)


def run_bytes(kw):
    kw = dict(kw)

    def run(I, p):
        p.observe(arg=ARG)
        p.calls = []
        p.assume(bits(ARG) >= 0)
        m = make(I, ToBytes, kw={k: Con(v) for k, v in kw.items()})
        if not built(I, p, m):
            return
        b = bound(I, m.value)
        if not p.prove('can be bound', z3.BoolVal(b.ok)):
            return
        w = p.world
        out = apply(I, b.value, Sym(ARG))
        if not p.branch(isinst(ARG, p.const(numbers.Integral))):
            p.prove('only integers are converted', z3.BoolVal(not out.ok and not p.calls))
            p.prove('an exception that is reported', out.exc_is(Exception))
            return
        p.prove('it is converted once', z3.BoolVal(len(p.calls) == 1))
        t, pos, kws, maps = p.calls[0]
        p.prove('it is what is converted', t == ARG)
        given = dict(kws)
        if maps:
            raise Unsupported('symbolic keywords')
        if pos:
            given['length'] = pos[0]
        p.prove('as configured', z3.BoolVal(len(pos) < 2 and set(given) == {'length', *kw} and all(
            isinstance(given[k], Con) and given[k].obj == kw[k] for k in kw)))
        if 'length' not in kw:
            n = given['length']
            n = n.t if isinstance(n, SInt) else no_int(n)
            need = bits(ARG) + bool(kw.get('signed'))
            p.prove('it fits in the bytes', n * 8 >= need)
            p.prove('no byte is wasted', n * 8 - 8 < need)
        s = z3.Bool('to_bytes succeeds')
        if p.branch(s):
            prove_call(I, p, out, w, ORIGIN, seq(z3.Const('the bytes', V)), EMPTY_DOM, EMPTY_MAP)
        else:
            p.prove('fails if it has no such bytes', z3.BoolVal(not out.ok))
            p.prove('nothing else is called', p.world == w)
    return run


def no_int(n):
    raise Unsupported(f'length {n!r}')


def setup(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(eval, eval_contract)
    con(sf.literal_eval, literal_contract)
    ex.handlers['method', 'bit_length'] = lambda I, a: SInt(bits(I.p.box(a.pos[0])))
    ex.handlers['method', 'to_bytes'] = to_bytes


CONTRACTS = [
    Contract('Eval', run_eval(False), ['Eval.__init__', 'Eval.__call__'], [NAMES], setup_ex=setup),
    Contract('Eval with the target', run_eval(True), ['Eval.__init__', 'Eval.__call__'], [NAMES], setup_ex=setup),
    Contract('LiteralEval', run_literal, ['LiteralEval.__call__'], [same_end], setup_ex=setup),
    *[Contract(f'ToBytes {k}' if k else 'ToBytes', run_bytes(k), ['ToBytes.func_args', 'OriginDependant.__init__', 'OriginDependant.__call__'],
               setup_ex=setup) for k in ({}, {'signed': True}, {'signed': False}, {'byteorder': 'little'},
                                         {'length': 4}, {'length': 2, 'signed': True})],
]
