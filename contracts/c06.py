"""C06: making a record from keywords."""
from .make import *

ASSUMES = ASSUMES_MAKE


def run(I, p):
    cls, frozen = start(I, p, KD, KM)
    p.observe(fields=FD, required=REQ, kwargs=KD, a_name=K)
    before = dict(p.heap)
    out = make(I, cls)
    p.prove('nothing is parsed', z3.BoolVal('parsed' not in p.__dict__))
    if out.ok:
        p.prove('no error is swallowed', z3.BoolVal(not ghost(p).failed))
        is_made_record(I, p, out)
    else:
        prove_error(I, p, out, KD)
    for i, o in before.items():
        p.prove('nothing that was there is changed', z3.BoolVal(p.heap[i] is o or same_object(o, p.heap[i])))


def same_object(a, b):
    """an order may have been given a name"""
    if isinstance(a, DictO) and isinstance(b, DictO) and a.items is None and b.items is None:
        return a.dom.eq(b.dom) and a.map.eq(b.map)
    return isinstance(a, SetO) and isinstance(b, SetO) and a.dom.eq(b.dom)


CONTRACTS = [Contract('RecordBase.__new__ with keywords', run, [
    'RecordBase.__new__', 'RecordField.make_default'], [pointwise], setup_ex=setup_make)]
