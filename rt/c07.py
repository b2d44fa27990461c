"""C07: what a positional argument means."""
import itertools

from records import RecordBase, Annotated, Factory, CallValidation, parser, check
from records.record import ParseFailure
from .common import *
from . import reentry


class Alike:
    """equals everything"""
    def __eq__(self, o): return True
    def __ne__(self, o): return False
    def __hash__(self): return 0
    def __repr__(self): return 'Alike()'


class Boom(Exception):
    pass


class Shut(Token):
    """no built-in parser makes anything of it"""
    def __getattr__(self, n): raise Boom(n)


def case(n_required, n_optional, unary, parsers, trivial, hook, kwargs, default='value'):
    """parsers: what each own parser does; trivial: whether the required field accepts the argument"""
    desc = f'{n_required} required and {n_optional} optional ({default}) fields, unary_parse={unary}, parsers {list(parsers)}, the field ' \
           f'{trivial}, post_new {hook}, given x and {list(kwargs)}'

    def fn():
        arg = Shut('arg')
        log, results = [], {}

        def process(v):
            log.append(('fill', v))
            if v is not arg:
                return v
            if trivial == 'rejects':
                raise Boom
            if trivial == 'ParseFailure':
                raise ParseFailure('inner')
            if trivial == 'replaces':
                return 'replaced'
            return v
        body = {}
        for n, p in enumerate(parsers):
            def parse(cls, v, n=n, p=p):
                if v is not arg:
                    raise Boom
                log.append(('parse', n, v))
                if p == 'raise':
                    raise Boom
                if p == 'ParseFailure':
                    raise ParseFailure('inner')
                if p == 'instance':
                    r = object.__new__(cls)
                elif p == 'ctor':
                    r = cls(**{f: 1 for f in names})
                else:
                    r = {'token': Token('parsed'), 'None': None, 'falsy': [], 'zero': 0, 'alike': Alike()}[p]
                results[n] = r
                return r
            body[f'p{n}'] = parser(classmethod(parse))

        def post_new(self):
            if not self.__dict__ or any(v is arg or v == 'replaced' for v in vars(self).values()):
                log.append(('hook',))
                if hook == 'raise':
                    raise Boom('hook')
                if hook == 'replace':
                    return results.setdefault('hook', object.__new__(type(self)))
        body['post_new'] = post_new
        fields = {f'r{i}': annotated(int, CallValidation(process)) for i in range(n_required)}
        names = list(fields)

        def bad_factory():
            raise Boom('factory')
        for i in range(n_optional):
            fields[f'o{i}'] = D(int, Factory(bad_factory) if default == 'bad factory' else 5)
        kw = {} if unary is None else {'unary_parse': unary}
        R = make_class('R', fields, None, body, **kw)
        given = {k: Token(k) for k in kwargs}
        got = outcome(R, arg, **given)
        dup = names[:1] if n_required == 1 and names[0] in kwargs else []
        parses = not kwargs and (unary if unary is not None else n_required != 1)
        failing = [p for p in parsers if p in ('raise', 'ParseFailure')]
        good = [n for n, p in enumerate(parsers) if p not in ('raise', 'ParseFailure') and
                not (p == 'ctor' and default == 'bad factory' and n_optional)]
        did = [e for e in log if e[0] == 'parse']
        if parses:
            require(sorted(e[1] for e in did) == list(range(len(parsers))), 'the parsers run were {}', did)
        else:
            require(not did, 'the argument was parsed')
        if parses and len(good) > 1:
            require(not got.ok and type(got.exc) is TypeError, 'several parsers succeeded, and construction {}', got)
            return
        parsed = parses and len(good) == 1
        filled = n_required == 1 and not dup and trivial not in ('rejects', 'ParseFailure') and hook != 'raise' and \
            not (n_optional and default == 'bad factory' and not {f'o{i}' for i in range(n_optional)} <= set(kwargs)) and \
            not any(k not in fields for k in kwargs)
        if dup:
            require(not got.ok and isinstance(got.exc, TypeError), 'a duplicate argument, and construction {}', got)
            return
        if parsed and filled:
            require(not got.ok and isinstance(got.exc, TypeError), 'both readings succeed, and construction {}', got)
        elif parsed:
            require(got.ok and got.value is results[good[0]], 'the parsing is {}, and construction {}', results[good[0]], got)
        elif filled:
            require(got.ok, 'the field is filled, and construction {}', got)
            if hook == 'replace':
                require(got.value is results['hook'], 'the hook did not replace the record')
            else:
                v = getattr(got.value, names[0])
                require(v is arg if trivial != 'replaces' else v == 'replaced', 'the field holds {}', v)
                for k in kwargs:
                    require(getattr(got.value, k) is given[k], '{} holds {}', k, getattr(got.value, k))
        else:
            require(not got.ok, 'neither reading succeeds, and construction {}', got)
            if n_required != 1:
                require(isinstance(got.exc, TypeError), 'construction {}', got)
    return Case(desc, fn)


def inherited():
    def fn():
        """the default is that of the class's own required fields"""
        class P(RecordBase):
            a: int

        class Q(P):
            b: int

        class S(Q):
            c: int = 0

        class T(P):
            d: int = 1
        m = {'a': 1, 'b': 2}
        require(attrs(Q(m)) == m, 'Q({}) gives {}', m, outcome(Q, m))
        require(attrs(S(m)) == {**m, 'c': 0}, 'S({}) gives {}', m, outcome(S, m))
        require(T(m).a is m and P(m).a is m, 'T and P fill their field')
        require(not outcome(Q, 5).ok, 'Q(5) succeeded')
        for f in (lambda: P(1, 2), lambda: Q(1, 2), lambda: P(m, a=1), lambda: Q(m, a=1), lambda: Q(m, b=2), lambda: P()):
            require(not outcome(f).ok and isinstance(outcome(f).exc, TypeError), 'accepted')

        class U(P, unary_parse=True):
            d: int = 1

        class V(U):
            e: int = 1
        require(V(m).a is m, 'unary parsing was inherited')
        require(isinstance(outcome(U, {'a': 1}).exc, TypeError), 'both readings were accepted')
    return Case('classes with inherited required fields', fn)


def cases(tier, rng):
    yield Case('parsing within parsing', reentry.parsing)
    yield inherited()
    ps = ['raise', 'token', 'None', 'falsy', 'instance', 'ParseFailure', 'zero', 'alike']
    triv = ['accepts', 'rejects', 'replaces', 'ParseFailure']
    hooks = ['none', 'raise', 'replace']
    sets = [()] + [(p,) for p in ps + ['ctor']] + list(itertools.product(['raise', 'token', 'None'], repeat=2))
    for nr in (0, 1, 2):
        for no in ((1,) if nr == 0 else (0, 1)):
            for unary in (None, True, False):
                for p in sets:
                    for t in (triv if nr == 1 else ['accepts']):
                        for h in (hooks if nr == 1 else hooks[:1]):
                            yield case(nr, no, unary, p, t, h, ())
                            if no:
                                yield case(nr, no, unary, p, t, h, (), 'bad factory')
                    for kws in (('r0',), ('o0',), ('zz',), ('r1',)):
                        if kws[0] == 'zz' or int(kws[0][1]) < (nr if kws[0][0] == 'r' else no):
                            yield case(nr, no, unary, p, 'accepts', 'none', kws)
    for _ in range(500 if tier == 'quick' else 20000):
        nr = rng.choice((1, 1, 1, 0, 2))
        no = rng.randrange(3) or (nr == 0)
        p = [rng.choice(ps) for _ in range(rng.randrange(5))] if rng.random() < .5 else ['raise'] * rng.randrange(3) + [rng.choice(ps)] + ['raise'] * rng.randrange(3)
        yield case(nr, int(no), rng.choice((None, True, False)), p, rng.choice(triv), rng.choice(hooks), (), rng.choice(('value', 'bad factory')))
