"""C08: parsing and unpickling."""
from .rec import *
import records.extras

ASSUMES = ASSUMES_CLASS + ['the pickle library in use is user code: what it returns or raises is arbitrary']

PARSERS = z3.Const('parsers', SV)
ARG = z3.Const('arg', V)


def parse_body(rec, i, done, w):
    """the results of the parsers that succeed, in order"""
    ok, val, exc, w2 = call_ok(w, PARSERS[i], seq(ARG)), call_val(w, PARSERS[i], seq(ARG)), None, call_w(
        w, PARSERS[i], seq(ARG))
    nxt = rec(i + 1, z3.If(ok, z3.Concat(done, z3.Unit(val)), done), w2)
    end = z3.Or(i < 0, i >= z3.Length(PARSERS))
    return z3.If(end, done, nxt[0]), z3.If(end, w, nxt[1])


PARSE = Rec('parse', ['seq', 'W'], [SV, W], parse_body)


def parse_spec(p, w):
    return PARSE.at(p, 0, EMPTY_SEQ, w)


def run_parse(I, p):
    cls, _ = a_class(I, p, _parsers=I.alloc('_parsers', ListO(seq=PARSERS)))
    p.observe(parsers=PARSERS, arg=ARG)
    results, w = parse_spec(p, p.world)
    n = z3.Length(results)
    out = run_on(I, 'parse', cls, Sym(ARG))
    if out.ok:
        p.prove('succeeds only if exactly one parser does', n == 1)
        p.prove('the result of the parser that succeeds', p.box(out.value) == results[0])
    else:
        p.prove('fails only if not exactly one parser succeeds', n != 1)
        p.prove('ParseFailure exactly if no parser succeeds', out.exc_is(ParseFailure) == (n == 0))
        p.prove('a TypeError', out.exc_is(TypeError))
    p.prove('each parser is tried once, in order', p.world == w)
    p.prove('the list of parsers is as before', list_is(I, cls, '_parsers', PARSERS))


def list_is(I, cls, attr, sq):
    o = I.get(I.get(cls).attrs[attr])
    return z3.BoolVal(False) if o.seq is None and o.items is None else I.list_seq(o) == sq


class PickleLib:
    """stands for the class of the pickle library"""


def entry(name):
    """a function of the library; reading a file and unpickling its bytes, say, is not modelled"""
    def get(I, v):
        if name != I.p.__dict__.get('entry', name):
            raise Unsupported(f'pickle.{name}')
        return Sym(uf('pickle ' + name, V, V)(v.t))
    return get


S[PickleLib, 'loads'], S[PickleLib, 'load'] = entry('loads'), entry('load')


def unpickle(fname, lib):
    def parse_contract(I, a):
        # a reading of its own; one of a record class, known from the contract of parse
        t = I.p.box(a.pos[1])
        return I.opaque_call(z3.Const("parse", V), Args([Sym(t)]))

    def setup(ex):
        ex.handlers[models.mro_lookup(RecordBase, 'parse').__func__.__code__] = parse_contract
        ex.handlers['module', 'records.extras', 'pickle'] = Sym(z3.Const('pickle', V), PickleLib)

    def run(I, p):
        cls, _ = a_class(I, p)
        v, extra = z3.Const('data', V), z3.Const('extra', SV)
        kd, km = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)
        w0, p.entry = p.world, lib
        f = models.getattr_(I, Sym(z3.Const('pickle', V), PickleLib), lib)
        raw = models.mro_lookup(RecordBase, fname)
        p.assume(z3.Not(kd[p.const('v')]))
        p.assume(z3.Not(kd[p.const('cls')]))
        out = attempt(I, lambda: I.call(I.lift(raw.__func__), Args([cls, Sym(v), Star(extra)], {}, [(kd, km)])))
        ft = p.box(f)
        args = z3.Concat(z3.Unit(v), extra)
        ok, val, exc, w1 = (g(w0, ft, args, kd, km) for g in (call_ok, call_val, call_exc, call_w))
        mine = isinst(val, p.box(cls))
        pt = z3.Const('parse', V)
        ok2, val2, exc2, w2 = call_ok(w1, pt, seq(val)), call_val(w1, pt, seq(val)), call_exc(w1, pt, seq(val)), \
            call_w(w1, pt, seq(val))
        if out.ok:
            r = p.box(out.value)
            p.prove('the unpickled record, or else what it parses to', z3.And(
                ok, z3.If(mine, r == val, z3.And(ok2, r == val2))))
        else:
            t = out.exc_term()
            p.prove('the error of unpickling or of parsing', z3.BoolVal(False) if t is None else z3.Or(
                z3.And(z3.Not(ok), t == exc), z3.And(ok, z3.Not(mine), z3.Not(ok2), t == exc2)))
        p.prove('unpickled once, and parsed only if not a record of the class',
                p.world == z3.If(z3.And(ok, z3.Not(mine)), w2, w1))
    return Contract(f'RecordBase.{fname}', run, [f'RecordBase.{fname}'], setup_ex=setup)


CONTRACTS = [
    Contract('RecordBase.parse', run_parse, ['RecordBase.parse'], [PARSE]),
    unpickle('from_pickle', 'loads'), unpickle('from_pickle_io', 'load'),
]
