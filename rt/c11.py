"""C11: ordering."""
import itertools
import operator

from records import RecordBase, Tag, Annotated, exclude_from_ordering, CallValidation, check
from .common import *
from . import reentry

OPS = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}


def build():
    ex = Annotated[object, exclude_from_ordering]
    out = {}
    out['O'] = make_class('O', {'x': object, 'y': object, 'z': D(object, 0)}, ordered=True), 'xyz'
    out['Of'] = make_class('Of', {'x': object, 'y': object, 'z': D(object, 0)}, ordered=True, frozen=True), 'xyz'
    out['E'] = make_class('E', {'z': object, 'y': ex, 'x': object}, ordered=True), 'zx'
    out['E2'] = make_class('E2', {'z': D(ex, 1), 'y': object, 'x': Annotated[object, Tag('other'), exclude_from_ordering, CallValidation(lambda v: v)]},
                           ordered=True), 'y'
    out['All'] = make_class('All', {'x': ex, 'y': ex, 'z': D(ex, 3)}, ordered=True), ''
    out['T'] = make_class('T', {'x': Annotated[object, Tag(object())], 'y': Annotated[object, Tag('exclude')], 'z': D(object, 1)}, ordered=True), 'xyz'
    out['S'] = make_class('S', {'w': D(object, 0), 'a': D(object, 0)}, (out['E'][0],), ordered=True), 'zxwa'
    out['Sn'] = make_class('Sn', {'w': D(object, 0)}, (out['O'][0],)), None
    out['N'] = make_class('N', {'x': object, 'y': object, 'z': D(object, 0)}), None
    out['Nf'] = make_class('Nf', {'x': object, 'y': object, 'z': D(object, 0)}, frozen=True), None
    out['No'] = make_class('No', {'b': D(object, 0)}, (out['N'][0],), ordered=True), 'xyzb'
    P = make_class('P', {'b': D(object, 0), 'a': D(ex, 1)}, ordered=True)
    out['M'] = make_class('M', {'c': D(object, 0)}, (out['O'][0], P), ordered=True), 'xyzbc'
    out['M2'] = make_class('M2', {'c': D(object, 0)}, (P, out['O'][0]), ordered=True), 'bxyzc'
    return out


CLASSES = build()
NAN = float('nan')


class NoCmp:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, NoCmp) and o.n == self.n


class Partial:
    """<= is not the negation of >"""
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, Partial) and o.n == self.n
    def __lt__(self, o): return self.n == 'lt'
    def __le__(self, o): return self.n == 'le'
    def __gt__(self, o): return self.n == 'gt'
    def __ge__(self, o): return self.n == 'ge'


VALUES = [0, 1, 2, -1, 1.0, True, 'a', 'b', None, (0,), NAN, NoCmp(1), NoCmp(1), Partial('lt'), Partial('ge'), Partial('le'), Partial('gt'), frozenset([1]), frozenset()]


def key(r): return [getattr(r, k) for k in CLASSES[[n for n, (c, _) in CLASSES.items() if c is type(r)][0]][1]]


def direct(a, op, b):
    """what a method of the left operand gives"""
    name = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}[op]
    return getattr(a, name)(b)


def case(c1, v1, c2, v2):
    desc = f'{c1}({v1}) against {c2}({v2})'

    def fn():
        A, B = CLASSES[c1][0], CLASSES[c2][0]
        a, b = A(**v1), B(**v2)
        before = dict(vars(a)), dict(vars(b))
        for op, f in OPS.items():
            got = outcome(direct, a, op, b)
            if CLASSES[c1][1] is None:
                require(isinstance(got.exc, TypeError), '{} of an unordered class {}', op, got)
                continue
            if not isinstance(b, A):
                require(got.ok and got.value is NotImplemented, '{} with another class {}', op, got)
                continue
            if CLASSES[c2][1] is None:
                continue
            want = outcome(f, key(a), key(b))
            require(want.ok == got.ok, '{} {}, and should have {}', op, got, want)
            if want.ok:
                require(got.value is want.value, '{} is {}, and should be {}', op, got.value, want.value)
                full = outcome(f, a, b)
                require(full.ok and full.value is want.value, 'a {} b {}', op, full)
            else:
                require(type(got.exc) is type(want.exc), '{} {}, and should have {}', op, got, want)
        if A is B and CLASSES[c1][1] is None:
            for op, f in OPS.items():
                require(isinstance(outcome(f, a, b).exc, TypeError), 'a {} b {}', op, outcome(f, a, b))
                require(isinstance(outcome(f, a, a).exc, TypeError), 'a {} a {}', op, outcome(f, a, a))
        for r, d in ((a, before[0]), (b, before[1])):
            require(all(vars(r)[k] is v for k, v in d.items()), 'comparing changed a record')
    return Case(desc, fn)


class Answers:
    """knows how to compare with anything"""
    def __lt__(self, o): return 'lt'
    def __le__(self, o): return 'le'
    def __gt__(self, o): return 'gt'
    def __ge__(self, o): return 'ge'


def foreign(c):
    def fn():
        r = CLASSES[c][0](x=1, y=2, **({'z': 0} if c in ('E', 'S') else {}))
        for o in (1, None, 'a', [1, 2, 0], (1, 2), object(), {}):
            for op, f in OPS.items():
                require(isinstance(outcome(f, r, o).exc, TypeError), 'r {} {} {}', op, o, outcome(f, r, o))
                if CLASSES[c][1] is not None:
                    require(direct(r, op, o) is NotImplemented, 'not left to the other operand')
        if CLASSES[c][1] is not None:
            require((r < Answers(), r <= Answers(), r > Answers(), r >= Answers()) == ('gt', 'ge', 'lt', 'le'), 'not left to the other operand')
        else:
            for f in OPS.values():
                require(isinstance(outcome(f, r, Answers()).exc, TypeError), 'unordered, {}', outcome(f, r, Answers()))
    return Case(f'{c} against other objects', fn)


def give(c, vs):
    ks = list(CLASSES[c][0]._fields)
    return dict(zip(ks, vs + [0] * 9))


def mutated():
    def fn():
        O = CLASSES['O'][0]
        a, b = O(x=1, y=1), O(x=1, y=2)
        require(a < b and a <= b and not a > b and not a >= b, 'before')
        a.y = 3
        require(a > b and a >= b and not a < b and not a <= b, 'after')
        b.x = 5
        require(a < b, 'the first field decides')
        require(sorted([O(x=3, y=0), O(x=1, y=9), O(x=1, y=2)], key=None)[0].y == 2, 'sorted')
    return Case('records that change', fn)


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    yield mutated()
    for c in CLASSES:
        yield foreign(c)
    names = list(CLASSES)
    for c1, c2 in itertools.product(names, names):
        for v, w in (([1, 1, 1], [1, 1, 2]), ([1, 2, 0], [1, 1, 5]), ([0, 0, 0], [0, 0, 0])):
            yield case(c1, give(c1, v), c2, give(c2, w))
    for c in names:
        for v in itertools.product((0, 1), repeat=3):
            for w in itertools.product((0, 1), repeat=3):
                yield case(c, give(c, list(v)), c, give(c, list(w)))
    for v, w in itertools.product(VALUES, VALUES):
        for c in ('O', 'Of', 'E', 'M'):
            yield case(c, give(c, [v, 0]), c, give(c, [w, 1]))
            yield case(c, give(c, [0, 1, v]), c, give(c, [0, 0, w]))
    for _ in range(500 if tier == 'quick' else 20000):
        c = rng.choice(names)
        n = len(CLASSES[c][0]._fields)
        v = [rng.choice(VALUES) for _ in range(n)]
        w = [x if rng.random() < .6 else rng.choice(VALUES) for x in v]
        yield case(c, give(c, v), c, give(c, w))
