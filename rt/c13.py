"""C13: merging Selects, and deriving exporters and factories."""
import itertools
import json

from records import RecordBase, Factory, SelectableFactory, Tag, Annotated, parser
from records.select import Select, Exporter, NoArgExporter
from .common import *

NAMES = ['keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename']


def norm(xs):
    return [tuple(x) if isinstance(x, (tuple, list)) else x for x in xs]


def lists(sel):
    return {n: norm(getattr(sel, n)) for n in NAMES}


def make(kinds):
    return Select(**{k: list(v) for k, v in kinds.items() if v})


def concat(kinds):
    return {n: [e for k in kinds for e in norm(k.get(n, []))] for n in NAMES}


ENTRY = {'keys_to_add': [('a', 1), ('n', None)], 'keys_to_maybe_add': [('b', 2), ('x', 0)], 'keys_to_remove': ['x', 'y'],
         'keys_to_maybe_remove': ['z', 'q'], 'keys_to_rename': [('x', 'x2'), ('y', 'y2')], 'keys_to_maybe_rename': [('z', 'z2'), ('q', 'q2')]}


def merge_case(kinds, how, kw, tested):
    desc = f'merging {kinds} ({how}), keywords {kw}, truth tested: {tested}'

    def fn():
        sels = [make(k) for k in kinds]
        if tested:
            [bool(s) for s in sels[::2]]
        before = [lists(s) for s in sels]
        want = concat([*kinds, kw])
        kwargs = {k: list(v) for k, v in kw.items()}
        if how == 'one call':
            if len(sels) == 1 and not kwargs:
                return
            r = sels[0].merge(*sels[1:], **kwargs)
        elif how == 'steps':
            r = sels[0]
            for s in sels[1:]:
                r = r.merge(s)
            if kwargs:
                r = r.merge(**kwargs)
        else:
            r = sels[-1].merge(**kwargs) if kwargs else sels[-1]
            for s in reversed(sels[:-1]):
                r = s.merge(r)
        require(isinstance(r, Select), 'merged into {}', r)
        require(lists(r) == want, 'merged into {} and not {}', lists(r), want)
        require(bool(r) == any(want.values()), 'truth')
        for s, b, k in zip(sels, before, kinds):
            require(lists(s) == b and bool(s) == any(k.values()), 'a Select that was merged changed to {}', lists(s))
        require(lists(Select.empty) == {n: [] for n in NAMES} and not Select.empty, 'Select.empty changed')
        src = {'x': 1, 'y': 2, 'z': 3}
        got, exp = outcome(r, dict(src)), outcome(Select(**want), dict(src))
        require(got.ok == exp.ok and (got.value == exp.value if got.ok else type(got.exc) is type(exp.exc)), 'applying gives {} and not {}', got, exp)
    return Case(desc, fn)


LOG = []
T = Tag('t')


class R(RecordBase):
    x: int
    y: Annotated[int, T] = 5
    z: int = 7

    @Exporter
    @staticmethod
    def to_pairs(v, *args, **kwargs):
        LOG.append((args, kwargs))
        return list(v.items())

    @SelectableFactory
    @classmethod
    def make(cls, *args, **kwargs):
        LOG.append((cls, args, kwargs))
        return {'x': 1, 'y': 2}


class RSub(R):
    w: int = 9


EXPORT_KW = [{}, {'include_defaults': True}, {'include_defaults': False}, {'sort': -1}, {'sort': True}, {'sort': False}, {'blacklist_tags': T},
             {'whitelist_keys': 'z'}, {'whitelist_keys': ['y', 'z']}]
SELECTS = [{}, {'keys_to_add': [('a', 1)]}, {'keys_to_maybe_remove': ['z']}, {'keys_to_rename': [('x', 'X')]}, {'keys_to_maybe_rename': [('y', 'Y')]},
           {'keys_to_remove': ['x']}, {'keys_to_maybe_add': [('b', 3), ('x', 0)]}]


def export_case(which, steps, call_args, call_kw, sub):
    """steps: select with keywords, select with Selects, or export_with"""
    desc = f'{which} after {steps}, called with {call_args} {call_kw}{" on a subclass" if sub else ""}'

    def fn():
        cls = RSub if sub else R
        r = cls(x=3, y=5, z=8)
        on_class = which.endswith('class')
        name = 'to_dict' if which.startswith('to_dict') else 'to_pairs' if which.startswith('to_pairs') else 'to_json'
        get = (lambda: getattr(cls, name)) if on_class else (lambda: getattr(r, name))
        first = get()
        pre = (r,) if on_class else ()

        def call(e, *a, **k):
            del LOG[:]
            o = outcome(e, *pre, *a, **k)
            return o, list(LOG)
        origin = call(first)
        derived, results = [first], [origin]
        exp_args, exp_kw, sel = (), {}, []
        snaps = []
        for s in steps:
            e = derived[-1]
            if s[0] == 'export_with':
                args, kw = s[1], dict(s[2])
                new = e.export_with(*args, **kw)
                require(kw == s[2], 'the arguments were modified')
                exp_args, exp_kw = (*exp_args, *args), {**exp_kw, **s[2]}
            elif s[0] == 'select kw':
                if not s[1]:
                    continue
                new = e.select(**{k: list(v) for k, v in s[1].items()})
                sel.append(s[1])
            else:
                sels = [make(k) for k in s[1:]]
                snap = [lists(x) for x in sels]
                new = e.select(*sels)
                sel += s[1:]
                snaps.append((sels, snap))
            require(new is not e, 'the same exporter was returned')
            derived.append(new)
            results.append(call(new))
            if len(derived) > 2:
                sib = e.export_with(include_defaults=True).select(keys_to_add=[('sibling', 1)])
                call(sib)
        def expected(exp_args, exp_kw, sel, a, k):
            if name == 'to_dict':
                m = outcome(lambda: cls._to_dict(r, *exp_args, *a, **{**exp_kw, **k}))
                a, k = (), {}
            else:
                m = outcome(lambda: cls._to_dict(r, *exp_args, **exp_kw))
            if not m.ok:
                return m
            m = outcome(Select(**concat(sel)), m.value)
            if not m.ok:
                return m
            if name == 'to_pairs':
                return Outcome(list(m.value.items()))
            return m if name == 'to_dict' else outcome(json.dumps, m.value, *a, **k)
        for turn in range(2):
            got, log = call(derived[-1], *call_args, **call_kw)
            want = expected(exp_args, exp_kw, sel, call_args, call_kw)
            require(got.ok == want.ok, '{} and should have {}', got, want)
            if got.ok:
                ok = got.value == want.value and (not isinstance(got.value, dict) or list(got.value.items()) == list(want.value.items()))
                require(ok, '{} and should have {}', got, want)
                if name == 'to_pairs':
                    require(log == [(call_args, call_kw)], 'the function was called with {}', log)
            else:
                require(type(got.exc) is type(want.exc), '{} and should have {}', got, want)
        for e, (o, l) in zip(derived, results):
            o2, l2 = call(e)
            require(o.ok == o2.ok and (o.value == o2.value if o.ok else type(o.exc) is type(o2.exc)) and l == l2, 'an exporter changed: {} became {}', o, o2)
        o3 = call(get())[0]
        require(o3.ok == origin[0].ok and o3.value == origin[0].value, 'the class changed: {}', o3)
        for ss, snap in snaps:
            require([lists(x) for x in ss] == snap, 'a Select changed')
        require(not Select.empty and not any(lists(Select.empty).values()), 'Select.empty changed')
        require(vars(r) == {'x': 3, 'y': 5, 'z': 8, **({'w': 9} if sub else {})}, 'the record changed')
    return Case(desc, fn)


SOURCES = {'from_mapping': ({'x': 1, 'y': 2}, {'x': 1, 'q': 3}), 'from_instance': None, 'from_json': ('{"x": 1, "z": 4}', '{"x": 1, "q": 4}'), 'make': None}


class Obj:
    def __init__(self, **kw): self.__dict__.update(kw)


def factory_case(which, steps, n, extra):
    desc = f'{which} after {steps}, source {n}, keywords {extra}'

    def fn():
        data = {'from_mapping': [{'x': 1, 'y': 2}, {'x': 1, 'q': 3}], 'from_instance': [Obj(x=1, y=2), Obj(x=1, q=3)],
                'from_json': ['{"x": 1, "z": 4}', '{"x": 1, "q": 4}'], 'make': [5, 6]}[which][n]
        base = getattr(R, which)
        snap = dict(data) if isinstance(data, dict) else dict(vars(data)) if isinstance(data, Obj) else data

        def call(e, **k):
            del LOG[:]
            return outcome(e, data, **k)

        def view(o): return (True, attrs(o.value)) if o.ok else (False, type(o.exc))
        derived, results, sel = [base], [view(call(base))], []
        snaps = []
        for s in steps:
            if s[0] == 'select kw':
                if not s[1]:
                    continue
                new = derived[-1].select(**{k: list(v) for k, v in s[1].items()})
                sel.append(s[1])
            else:
                sels = [make(k) for k in s[1:]]
                snaps.append((sels, [lists(x) for x in sels]))
                new = derived[-1].select(*sels)
                sel += s[1:]
            require(new is not derived[-1], 'the same factory was returned')
            derived.append(new)
            results.append(view(call(new)))
            derived[-2].select(keys_to_add=[('sibling', 1)])
        one = getattr(R, which).select(make(concat(sel)))
        kw = dict(extra) if which != 'from_json' else {}
        for turn in range(2):
            got, want = view(call(derived[-1], **kw)), view(call(one, **kw))
            require(got == want, '{} and in one call {}', got, want)
            if which == 'make':
                require(LOG == [(R, (data,), kw)], 'the function was called with {}', LOG)
                m = outcome(Select(**concat(sel)), {'x': 1, 'y': 2})
                exp = view(outcome(lambda: R(**m.value))) if m.ok else (False, type(m.exc))
                require(got == exp, '{} and should be {}', got, exp)
            elif which == 'from_mapping':
                m = outcome(Select(**concat(sel)), {**kw, **data})
                exp = view(outcome(lambda: R(**m.value))) if m.ok else (False, type(m.exc))
                require(got == exp, '{} and should be {}', got, exp)
        for e, v in zip(derived, results):
            require(view(call(e)) == v, 'a factory changed: {} became {}', v, view(call(e)))
        require(view(call(getattr(R, which))) == results[0], 'the class changed')
        for ss, sn in snaps:
            require([lists(x) for x in ss] == sn, 'a Select changed')
        now = dict(data) if isinstance(data, dict) else dict(vars(data)) if isinstance(data, Obj) else data
        require(now == snap, 'the source changed to {}', now)
        require(not Select.empty and not any(lists(Select.empty).values()), 'Select.empty changed')
    return Case(desc, fn)


def cases(tier, rng):
    singles = [{}] + [{n: [e]} for n in NAMES for e in ENTRY[n]]
    for a, b in itertools.product(singles, singles):
        for how in ('one call', 'steps'):
            yield merge_case([a, b], how, {}, rng.random() < .5)
        yield merge_case([a], 'one call', b, rng.random() < .5) if b else merge_case([a, {}], 'backward', {}, True)
    for _ in range(1000 if tier == 'quick' else 20000):
        ks = [{n: [rng.choice(ENTRY[n]) for _ in range(rng.randrange(1, 3))] for n in rng.sample(NAMES, rng.randrange(4))} for _ in range(rng.randrange(1, 5))]
        kw = {n: [rng.choice(ENTRY[n])] for n in rng.sample(NAMES, rng.randrange(3))}
        yield merge_case(ks, rng.choice(('one call', 'steps', 'backward')), kw, rng.random() < .5)

    def step(factory=False):
        k = rng.random()
        if k < .4 and not factory:
            return ('export_with', (), rng.choice(EXPORT_KW))
        if k < .45 and not factory:
            return ('export_with', (rng.choice((True, False)),), {})
        if k < .75:
            return ('select kw', rng.choice(SELECTS[1:]))
        return ('select', *[rng.choice(SELECTS) for _ in range(rng.randrange(1, 4))])
    for which in ('to_dict', 'to_dict on the class', 'to_pairs', 'to_pairs on the class', 'to_json'):
        for s in [()] + [(('export_with', (), k),) for k in EXPORT_KW] + [(('select kw', k),) for k in SELECTS[1:]] + [(('select', k),) for k in SELECTS]:
            yield export_case(which, list(s), (), {}, False)
        for _ in range(250 if tier == 'quick' else 6000):
            ca, ck = ((), {})
            if which.startswith('to_dict'):
                ck = rng.choice(EXPORT_KW)
            elif which.startswith('to_pairs'):
                ca, ck = rng.choice([((), {}), ((1, 2), {'k': 3}), ((), {'sort': 1, 'v2': None})])
            elif rng.random() < .5:
                ck = {'indent': 1}
            yield export_case(which, [step() for _ in range(rng.randrange(1, 5))], ca, ck, rng.random() < .3)
    for which in SOURCES:
        for n in (0, 1):
            for s in SELECTS:
                yield factory_case(which, [('select', s)], n, {})
            for _ in range(120 if tier == 'quick' else 3000):
                yield factory_case(which, [step(True) for _ in range(rng.randrange(1, 4))], n, rng.choice([{}, {'z': 9}, {'y': 0}]))
