"""C14: the JSON export is what the JSON library in use makes of the exported dict."""
from .rec import *
import records.extras

ASSUMES = ['the json library in use is user code: what it returns or raises is arbitrary']

KD, KM = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)
ARGS, DATA, IO = z3.Const('args', SV), z3.Const('exported', V), z3.Const('io', V)


class JsonLib:
    """stands for the class of the json library"""


def entry(name):
    """a function of the library; making a text and writing it, instead of dumping to a file, is not modelled"""
    def get(I, v):
        if name != I.p.__dict__.get('entry', name):
            raise Unsupported(f'json.{name}')
        return Sym(uf('json ' + name, V, V)(v.t))
    return get


S[JsonLib, 'dumps'], S[JsonLib, 'dump'] = entry('dumps'), entry('dump')


def setup(ex):
    ex.handlers['module', 'records.extras', 'json'] = Sym(z3.Const('json', V), JsonLib)


def run(io):
    def run(I, p):
        p.observe(exported=DATA, args=ARGS)
        for n in ('v', 'io'):
            p.assume(z3.Not(KD[p.const(n)]))
        p.entry = 'dump' if io == 2 else 'dumps'
        kw = {}
        if io == 2:
            kw['io'] = Sym(IO)
            p.assume(z3.And(IO != p.const(None), z3.Not(isinst(IO, p.const(str)))))
        elif io == 1:
            kw['io'] = NONE
        w0 = p.world
        f = p.box(models.getattr_(I, Sym(z3.Const('json', V), JsonLib), p.entry))
        args = z3.Concat(z3.Unit(DATA), *([z3.Unit(IO)] if io == 2 else []), ARGS)
        ok, val, exc, w1 = (g(w0, f, args, KD, KM) for g in (call_ok, call_val, call_exc, call_w))
        out = attempt(I, lambda: I.call(I.lift(models.mro_lookup(RecordBase, 'to_json').func), Args(
            [Sym(DATA), Star(ARGS)], kw, [(KD, KM)])))
        if out.ok:
            p.prove('succeeds only if encoding does', ok)
            if io != 2:
                p.prove('the text the library makes', p.box(out.value) == val)
        else:
            t = out.exc_term()
            p.prove('fails only with the error of encoding', z3.BoolVal(False) if t is None else z3.And(
                z3.Not(ok), t == exc))
        p.prove('the exported dict is encoded once, with the arguments given', p.world == w1)
    return run


CONTRACTS = [Contract('RecordBase.to_json' + ['', ', io None', ' to a file'][i], run(i), ['RecordBase.to_json'],
                      setup_ex=setup) for i in range(3)]
