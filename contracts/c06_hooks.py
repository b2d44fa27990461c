"""C06, C08: the hooks of RecordBase do nothing, and neither does the initializer; parser marks a function."""
from .rec import *
from records.record import parser

K, M = z3.Const('kwargs.dom', AB), z3.Const('kwargs.map', AV)


def run_nothing(name, kind):
    def run(I, p):
        cls, frozen = a_class(I, p)
        me = a_record(I, p, cls, 'record', frozen)[0]
        before, w0 = dict(p.heap), p.world
        if kind == 'init':
            p.assume(z3.Not(z3.Or(K[p.const('self')], K[p.const('arg')])))
            pos = [[me], [me, Sym(z3.Const('arg', V))]][p.choose(2)]
            args = Args(pos, {}, [(K, M)])
        else:
            args = Args([cls if kind == 'cls' else me])
        f = RecordBase.__dict__[name]
        out = attempt(I, lambda: I.call(I.lift(getattr(f, '__func__', f)), args))
        p.prove('no error', z3.BoolVal(out.ok))
        if out.ok and kind == 'self':
            # which would replace the record
            p.prove('no other record', z3.Or(p.box(out.value) == p.const(None), p.box(out.value) == p.box(me)))
        p.prove('calls nothing', p.world == w0)
        for i, o in before.items():
            p.prove('nothing is changed', z3.BoolVal(p.heap[i] is o))
    return run


def run_parser(I, p):
    f = I.alloc('func', ObjO(Fn, {}))
    before = {i: o for i, o in p.heap.items() if i != f.id}
    w0 = p.world
    out = attempt(I, lambda: I.call(I.lift(parser), Args([f])))
    p.prove('no error', z3.BoolVal(out.ok))
    if out.ok:
        p.prove('the function itself', z3.BoolVal(isinstance(out.value, Ref) and out.value.id == f.id))
        a = I.get(f).attrs
        p.prove('is marked as a parser', z3.BoolVal('__parser__' in a) if '__parser__' not in a else models.zbool(models.truth(I, a['__parser__'])))
    p.prove('calls nothing', p.world == w0)
    for i, o in before.items():
        p.prove('nothing else is changed', z3.BoolVal(p.heap[i] is o))


class Fn:
    """stands for the class of what is marked"""


CONTRACTS = [
    Contract('RecordBase.pre_bind', run_nothing('pre_bind', 'cls'), ['RecordBase.pre_bind']),
    Contract('RecordBase.post_new', run_nothing('post_new', 'self'), ['RecordBase.post_new']),
    Contract('RecordBase.__init__', run_nothing('__init__', 'init'), ['RecordBase.__init__']),
    Contract('parser', run_parser, ['parser']),
]
