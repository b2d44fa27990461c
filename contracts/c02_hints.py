"""C02: literals and type hints."""
import collections
from .fill import *
from .c18_get import seq_of
from records.fillers.builtin_fillers import typing_fillers as tf
from records.fillers.builtin_fillers.typing_fillers import LiteralFiller, TypeFiller

ASSUMES = [
    'what typing tells of a hint (its arguments) does not change',
    'an object that is not hashable equals no value listed in a Literal (typing allows hashable ones only); equality of '
    'hashable objects of one type is an equivalence their hashes agree with',
    'isinstance with a tuple of types is isinstance with one of them',
    'binding adds no coercer or validator but those of the tokens of the hint (C18)']

O = z3.Const('origin', V)
VALUES, TOKENS = z3.Const('listed values', SV), z3.Const('tokens', SV)
KEYS, LISTED = z3.Const('types listed', AB), z3.Const('values listed', AB)
HOLLOW = z3.Bool('hollow')


def eqc(t): return uf('equality class', V, V)(t)
def kind_of(t): return uf('type and equality class', V, V, V)(typeof(t), eqc(t))
def hashable(t): return uf('hashable', V, B)(t)


# a defaultdict of sets, whose keys are the types of values

class MultiMap(dict):
    def __getitem__(self, t): ...
    def get(self, t, default=None): ...
    def __contains__(self, t): ...
    def __iter__(self): ...


class Bucket:
    def add(self, v): ...
    def __contains__(self, v): ...


def sets(I, m):
    a = I.get(m).attrs
    return a['keys'], a['members']


def new_map(I, keys, members):
    return I.alloc('map', ObjO(MultiMap, dict(keys=I.alloc('keys', SetO(dom=keys)), members=I.alloc('members', SetO(dom=members)))))


def make_map(I, a):
    if [getattr(x, 'obj', None) for x in a.pos] != [set] or a.kw:
        raise Unsupported('another defaultdict')
    return new_map(I, EMPTY_DOM, EMPTY_DOM)


def bucket(I, a):
    k, _ = sets(I, a.pos[0])
    t = I.p.box(a.pos[1])
    I.put(k, SetO(dom=z3.Store(I.get(k).dom, t, True)))
    return I.alloc('bucket', ObjO(Bucket, dict(of=a.pos[0], type=a.pos[1])))


def get_bucket(I, a):
    k, _ = sets(I, a.pos[0])
    t = I.p.box(a.pos[1])
    if I.p.branch(I.get(k).dom[t]):
        return I.alloc('bucket', ObjO(Bucket, dict(of=a.pos[0], type=a.pos[1])))
    return a.pos[2] if len(a.pos) > 2 else NONE


def has_bucket(I, a):
    k, _ = sets(I, a.pos[0])
    return SBool(I.get(k).dom[I.p.box(a.pos[1])])


def map_types(I, a):
    k, _ = sets(I, a.pos[0])
    return SeqV(types_of(I.get(k).dom), type)


def types_of(dom): return uf('types in order', AB, SV)(dom)


def own_type(I, b, v):
    o = I.get(b)
    t = I.p.box(v)
    I.p.prove('values are kept under their own types', I.p.box(o.attrs['type']) == typeof(t))
    return sets(I, o.attrs['of'])[1], t


def add(I, a):
    m, t = own_type(I, *a.pos)
    I.put(m, SetO(dom=z3.Store(I.get(m).dom, kind_of(t), True)))
    return NONE


def has(I, a):
    m, t = own_type(I, *a.pos)
    if not I.p.branch(hashable(t)):
        I.throw(TypeError)
    return SBool(I.get(m).dom[kind_of(t)])


def listed_body(rec, i, keys, members):
    end = z3.Or(i < 0, i >= z3.Length(VALUES))
    v = VALUES[i]
    n = rec(i + 1, z3.Store(keys, typeof(v), True), z3.Store(members, kind_of(v), True))
    return z3.If(end, keys, n[0]), z3.If(end, members, n[1])


LIST = Rec('listed', ['set', 'set'], [AB, AB], listed_body, over=[VALUES])


def args_of(I, a):
    I.p.prove('the hint is looked into', I.p.box(a.pos[0]) == O)
    return SeqV(VALUES)


def attr(o, name):
    if name not in o.attrs:
        raise Unsupported(f'no attribute {name}')
    return o.attrs[name]


def the_map(I, o):
    m = attr(o, 'possible_values')
    if not isinstance(m, Ref) or not isinstance(I.get(m), ObjO) or I.get(m).cls is not MultiMap:
        raise Unsupported('another representation of the listed values')
    return m


def run_init(I, p):
    w0 = p.world
    out = attempt(I, lambda: I.call(Con(LiteralFiller), Args([Sym(O), SeqV(TOKENS)])))
    p.prove('no error', out.ok)
    if not out.ok:
        return
    o = I.get(out.value)
    keys, members = sets(I, the_map(I, o))
    want = LIST.at(p, 0, EMPTY_DOM, EMPTY_DOM)
    p.prove('the types of the listed values, and no others', I.get(keys).dom == want[0])
    p.prove('the listed values, and no others', I.get(members).dom == want[1])
    p.prove('the tokens of the hint are kept', seq_of(I, attr(o, 'args')) == TOKENS)
    p.prove('nothing is called', p.world == w0)


def run_check(I, p):
    m = new_map(I, KEYS, LISTED)
    f = I.alloc('filler', ObjO(LiteralFiller, dict(origin=Sym(O), possible_values=m)))
    w0 = p.world
    out = run_method(I, LiteralFiller, 'type_check', f, Sym(ARG))
    ex, inx = KEYS[typeof(ARG)], isinst(ARG, uf('anyof', SV, V)(types_of(KEYS)))
    p.assume(z3.Implies(ex, inx))
    s, wit = types_of(KEYS), z3.Int('the type it is of')
    p.assume(z3.Implies(inx, z3.And(wit >= 0, wit < z3.Length(s), isinst(ARG, s[wit]))))
    for k in range(p.ex.unroll + 1 if p.ex.unroll else 0):
        p.assume(z3.Implies(z3.And(k < z3.Length(s), isinst(ARG, s[k])), inx))
    p.prove('no error', out.ok)
    if out.ok:
        v = out.value
        e = isinstance(v, Con) and v.obj is TypeMatch.exact
        i = isinstance(v, Con) and v.obj is TypeMatch.inexact
        if not e and not i:
            t = models.truth(I, v)
            p.prove('anything else is false', z3.Not(models.zbool(t)))
        p.prove('exactly the objects of the types listed match exactly', ex == z3.BoolVal(e))
        p.prove('exactly the other instances of those types match inexactly', z3.And(inx, z3.Not(ex)) == z3.BoolVal(i))
    unchanged(I, p, m, w0)


def unchanged(I, p, m, w0):
    k, d = sets(I, m)
    p.prove('what is listed stays', z3.And(I.get(k).dom == KEYS, I.get(d).dom == LISTED))
    p.prove('nothing is called', p.world == w0)


# the validators that check the value

def inner_bind(I, a):
    p = I.p
    p.prove('the filler is bound to the class', p.box(a.pos[1]) == OWNER)
    p.bound += 1
    return NONE


def is_hollow(I, a):
    I.p.prove('the filler is asked once it is bound', z3.BoolVal(I.p.bound == 1))
    return SBool(HOLLOW)


def bound_validator(I, p, f, inner, cls):
    p.bound = 0
    out = run_method(I, cls, 'bind', f, Sym(OWNER, type))
    p.prove('no error', out.ok)
    if not out.ok:
        return None
    p.prove('the filler is bound', z3.BoolVal(p.bound == 1))
    vs = added_validators(I, inner)
    p.prove('a checked hint checks the value', z3.Or(HOLLOW, z3.BoolVal(len(vs) > 0)))
    p.prove('a hollow hint does not', z3.Or(z3.Not(HOLLOW), z3.BoolVal(len(vs) == 0)))
    return vs[0] if len(vs) == 1 else None if not vs else unsupported()


def unsupported():
    raise Unsupported('more than one validator')


def run_validator(I, p, v, good, bad_type):
    w0 = p.world
    out = attempt(I, lambda: I.call(v, Args([Sym(ARG)])))
    p.prove('accepted exactly if it should be', good == z3.BoolVal(out.ok))
    if out.ok:
        p.prove('the value is not converted', p.box(out.value) == ARG)
    else:
        p.prove('an exception that is reported', out.exc_is(Exception))
        p.prove('a ValueError', z3.Or(bad_type, out.exc_is(ValueError)))
    return w0


def run_literal(I, p):
    m = new_map(I, KEYS, LISTED)
    vs = I.alloc('validators', ListO(items=[]))
    f = I.alloc('filler', ObjO(LiteralFiller, dict(origin=Sym(O), possible_values=m, validators=vs, owner=NONE,
                                                   coercers=I.alloc('coercers', ListO(seq=COERCERS)), args=SeqV(TOKENS))))
    v = bound_validator(I, p, f, f, LiteralFiller)
    if v is None:
        return
    x = z3.Const('a value', V)
    p.assume(z3.Implies(LISTED[kind_of(ARG)], z3.And(hashable(ARG), KEYS[typeof(ARG)])))
    w0 = run_validator(I, p, v, LISTED[kind_of(ARG)], z3.Not(hashable(ARG)))
    unchanged(I, p, m, w0)


def run_type(I, p):
    base = z3.Const('base', V)
    inner = inner_attrs(I, TypeCheckStyle.check)
    f = I.alloc('filler', ObjO(TypeFiller, dict(inner_filler=inner, owner=NONE, base_type=Sym(base, type))))
    v = bound_validator(I, p, f, inner, TypeFiller)
    if v is None:
        return
    a_type = isinst(ARG, p.const(type))
    run_validator(I, p, v, z3.And(a_type, uf('issub', V, V, B)(ARG, base)), z3.Not(a_type))


def setup(ex):
    con = lambda fn, h: ex.handlers.__setitem__(('con', id(fn)), h)
    con(tf.get_args, args_of)
    con(collections.defaultdict, make_map)
    H = ex.handlers
    H[MultiMap.__getitem__.__code__] = bucket
    H[MultiMap.get.__code__] = get_bucket
    H[MultiMap.__contains__.__code__] = has_bucket
    H[MultiMap.__iter__.__code__] = map_types
    H[Bucket.add.__code__] = add
    H[Bucket.__contains__.__code__] = has
    H[AnnotatedFiller.bind.__code__] = inner_bind
    H[AnnotatedFiller.is_hollow.__code__] = is_hollow


def con(name, run, functions, templates=()): return Contract(name, run, functions, list(templates), setup_ex=setup)


CONTRACTS = [
    con('LiteralFiller', run_init, ['LiteralFiller.__init__'], [LIST]),
    con('LiteralFiller.type_check', run_check, ['LiteralFiller.type_check']),
    con('LiteralFiller.bind', run_literal, ['LiteralFiller.bind', 'LiteralFiller.bind.inner_validator']),
    con('TypeFiller.bind', run_type, ['TypeFiller.bind', 'TypeFiller.bind.inner_validator']),
]
