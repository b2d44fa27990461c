"""C07: the meaning of a positional argument."""
from .make import *
import records.record

ASSUMES = ASSUMES_MAKE + ['a parser that fails to parse raises an Exception, as parse() is proved to do in C08',
                          'objects that the module uses as marks for the absence of a value are not given as values']

ARG = z3.Const('arg', V)
ONE = z3.Length(RORDER) == 1
KEY = RORDER[0]
PARSE_OK, PARSED, PARSE_ERR = z3.Bool('parse ok'), z3.Const('parsed', V), z3.Const('parse error', V)


def run(I, p, parsing, trivial):
    """parsing: whether unary parsing is enabled; trivial: whether the class has exactly one required field"""
    # as the trivial argument, the value is given for the only required field
    dom, mp = z3.Store(KD, KEY, True), z3.Store(KM, KEY, ARG)
    cls, frozen = start(I, p, dom, mp, unary=parsing)
    p.assume(ONE == trivial)
    for x in vars(records.record).values():
        if type(x) is object:
            p.assume(z3.And(ARG != p.const(x), PARSED != p.const(x)))
    p.observe(fields=FD, required=REQ, kwargs=KD, a_name=K, arg=ARG)
    models.order_facts(I, REQ, RORDER)
    models.order_fact_at(I, REQ, RORDER, no(0))
    parse = parsing and p.branch(KD == EMPTY_DOM)
    out = make(I, cls, Sym(ARG))
    parsed = p.__dict__.get('parsed')
    g = ghost(p)
    mine = PARSE_OK if parse else z3.BoolVal(False)
    many = z3.And(z3.Not(PARSE_OK), z3.Not(isinst(PARSE_ERR, p.const(ParseFailure)))) if parse else z3.BoolVal(False)
    if not parse:
        p.prove('the argument is parsed only if parsing is enabled and no keywords are given', z3.BoolVal(parsed is None))
    elif parsed is not None:
        p.prove('the argument is what is parsed', parsed == ARG)
    if not trivial:
        p.prove('no record is made of the argument', z3.BoolVal(g.posted is None and not g.failed))
        if out.ok:
            p.prove('only a parsed argument gives a record', z3.BoolVal(parsed is not None))
            p.prove('parsing has succeeded', mine)
            p.prove('what parsing gives', p.box(out.value) == PARSED)
        else:
            p.prove('fails only if there is no reading of the argument', z3.Not(mine))
            p.prove('the argument is parsed if it can be', z3.BoolVal(parsed is not None or not parse))
            p.prove('with a TypeError', out.exc_is(TypeError))
        return
    dup = KD[KEY]
    # whether making the record fails
    broken = z3.Or(z3.BoolVal(bool(g.failed)), z3.Not(z3.IsSubset(dom, FD)), z3.Not(z3.IsSubset(REQ, dom)))
    if out.ok:
        p.prove('a duplicate is refused', z3.Not(dup))
        p.prove('the argument is parsed if it can be', z3.BoolVal(parsed is not None or not parse))
        if g.posted is not None and not g.failed:
            p.prove('only one reading succeeds', z3.Not(mine))
            is_made_record(I, p, out)
        else:
            p.prove('the other reading succeeds', mine)
            p.prove('its result is what parsing gives', p.box(out.value) == PARSED)
            p.prove('the argument cannot fill the field', broken)
        p.prove('not more than one parser succeeds', z3.Not(many))
    else:
        p.prove('with a TypeError if there are several meanings or a duplicate', z3.Implies(
            z3.Or(dup, many, z3.And(mine, z3.Not(broken))), out.exc_is(TypeError)))
        p.prove('fails only if there is no meaning, or several', z3.Or(
            dup, many, z3.If(mine, z3.And(z3.BoolVal(g.posted is not None), z3.Not(broken)), broken)))
        p.prove('the argument is parsed if it can be', z3.Or(dup, z3.BoolVal(parsed is not None or not parse)))


CONTRACTS = [Contract(
    f'RecordBase.__new__ with an argument, parsing {"on" if u else "off"}, {"one" if t else "not one"} required field',
    lambda I, p, u=u, t=t: run(I, p, u, t), ['RecordBase.__new__', 'RecordField.make_default'], [pointwise],
    setup_ex=setup_make) for u in (False, True) for t in (False, True)]

from . import c08
CONTRACTS += [c for c in c08.CONTRACTS if c.name == 'RecordBase.parse']
