"""C10: equality."""
import itertools

from records import RecordBase, Factory, Tag, Annotated, exclude_from_ordering
from .common import *
from . import reentry


def classes():
    out = {}
    for frozen in (False, True):
        for ordered in (False, True):
            n = ('F' if frozen else 'N') + ('o' if ordered else '')
            out[n] = make_class(n, {'x': object, 'y': D(Annotated[object, exclude_from_ordering, Tag('t')], 1), 'z': D(object, Factory(list))},
                                frozen=frozen, ordered=ordered)
            out[n + 's'] = make_class(n + 's', {}, (out[n],), frozen=frozen, ordered=ordered)
            out[n + 'w'] = make_class(n + 'w', {'w': D(object, 0)}, (out[n],), frozen=not frozen, ordered=ordered)
            out[n + '2'] = make_class(n, {'x': object, 'y': D(object, 1), 'z': D(object, Factory(list))}, frozen=frozen)
    return out


CLASSES = classes()


class EqAll:
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    def __hash__(self): return 3


class EqNone:
    def __eq__(self, o): return False
    def __ne__(self, o): return True
    def __hash__(self): return 3


class BadHash:
    """equal to its kind, with different hashes"""
    n = 0
    def __init__(self): BadHash.n += 1; self.h = BadHash.n
    def __eq__(self, o): return isinstance(o, BadHash)
    def __hash__(self): return self.h


NAN = float('nan')
VALUES = [0, 1, True, 1.0, 'a', '', None, (), [], [1], {}, {'a': 1}, EqAll(), EqNone(), NAN, frozenset(), -1, -2, 2 ** 61 - 2]


def hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def equal(v, w):
    """the records' notion of equal fields"""
    return not (v != w)


def case(c1, v1, c2, v2, warm):
    desc = f'{c1}({v1}) and {c2}({v2}), hashes computed: {warm}'

    def fn():
        A, B = CLASSES[c1], CLASSES[c2]
        a, b = A(**v1), B(**v2)
        before = dict(vars(a)), dict(vars(b))
        consistent = not any(isinstance(v, EqAll) for v in [*v1.values(), *v2.values()])
        for r, w in ((a, 'a' in warm), (b, 'b' in warm)):
            if w and (consistent or r is a or not A.is_frozen()):    # hashes that do not agree with equality are out of scope
                outcome(hash, r)
        want = A is B and all(equal(getattr(a, k), getattr(b, k)) for k in A._fields)
        for turn in range(2):
            for x, y in ((a, b), (b, a)):
                if x is b and A is B:
                    want2 = all(equal(getattr(b, k), getattr(a, k)) for k in A._fields)
                else:
                    want2 = want
                got = outcome(lambda: x == y), outcome(lambda: x != y)
                require(got[0].ok and got[1].ok, '== {} and != {}', *got)
                require(got[0].value is want2 and got[1].value is (not want2), '{} == {} is {}, != is {}, and should be {}', x, y, got[0].value, got[1].value, want2)
        require(all(x is y for x, y in zip(vars(a).values(), before[0].values())), 'comparing changed the record')
    return Case(desc, fn)


def others(c):
    def fn():
        r = CLASSES[c](x=1)
        for o in (1, None, 'a', (1, 1, []), r.to_dict(), [], object(), CLASSES[c], RecordBase, NotImplemented):
            require((r == o) is False and (r != o) is True and (o == r) is False and (o != r) is True, '{} == {}', r, o)
        require((r == EqNone()) is False and r == r and not r != r, 'itself')
        n = CLASSES[c](x=NAN)
        require((n == n) == (not NAN != NAN) and (n != n) == (not (n == n)), 'nan')
    return Case(f'{c} and other objects', fn)


def later(c):
    """equality follows the current values"""
    def fn():
        A = CLASSES[c]
        a, b = A(x=[1], z=[]), A(x=[1], z=[])
        require(a == b, 'equal')
        outcome(hash, a), outcome(hash, b)
        a.x.append(2)
        require(a != b and not a == b, 'changed values compare equal')
        b.x.append(2)
        require(a == b, 'equal again')
        if not A.is_frozen():
            a.y = 7
            require(a != b, 'set to another value')
            b.y = 7.0
            require(a == b, 'set to an equal value')
    return Case(f'{c}: values that change', fn)


def hash_clash():
    """values whose hashes differ but that are equal are the user's mistake; unhashable ones are not"""
    def fn():
        A = CLASSES['F']
        for v in ([], {}, {1}, [[]]):
            a, b = A(x=v), A(x=type(v)(v))
            outcome(hash, a)
            require(a == b and b == a, 'unhashable values')
    return Case('frozen records with unhashable values', fn)


def cases(tier, rng):
    yield Case('records of records', reentry.operations)
    names = list(CLASSES)
    yield hash_clash()
    for c in names:
        yield others(c)
        yield later(c)
    for c1, c2 in itertools.product(names, names):
        for v1, v2 in (({'x': 1}, {'x': 1}), ({'x': 1}, {'x': 2})):
            for warm in ('', 'ab'):
                yield case(c1, v1, c2, v2, warm)
    for v, w in itertools.product(VALUES, VALUES):
        for c in ('F', 'N', 'Fw', 'Nw'):
            for warm in ('', 'a', 'ab'):
                yield case(c, {'x': v}, c, {'x': w}, warm)
                yield case(c, {'x': 0, 'y': v}, c, {'x': 0, 'y': w}, warm)
    for _ in range(1000 if tier == 'quick' else 30000):
        c = rng.choice(names)
        f = [k for k in CLASSES[c]._fields if k == 'x' or rng.random() < .7]
        v1 = {k: rng.choice(VALUES) for k in f}
        v2 = {k: v if rng.random() < .7 else rng.choice(VALUES) for k, v in v1.items()}
        yield case(c, v1, c if rng.random() < .9 else rng.choice(names), v2, rng.choice(('', 'a', 'b', 'ab'))) if 'w' not in v1 else \
            case(c, v1, c, v2, rng.choice(('', 'a', 'b', 'ab')))
