"""Run-time checks of the contracts: executable oracles over enumerated inputs, run against the real package."""
import itertools
import signal


class Failure(Exception):
    """the contract does not hold on this input"""


def require(cond, msg, *args):
    if not cond:
        raise Failure(msg.format(*args) if args else msg)


class Outcome:
    def __init__(self, value=None, exc=None): self.value, self.exc = value, exc

    @property
    def ok(self): return self.exc is None

    def __repr__(self):
        return f'returned {show(self.value)}' if self.ok else f'raised {type(self.exc).__name__}: {self.exc}'


def outcome(fn, *args, **kwargs):
    try:
        return Outcome(value=fn(*args, **kwargs))
    except Exception as e:
        return Outcome(exc=e)


def show(x):
    try:
        s = repr(x)
    except Exception as e:
        s = f'<repr failed: {e!r}>'
    return s if len(s) < 300 else s[:300] + '...'


class Case:
    """desc: the inputs, written out; fn: runs the real code and raises Failure; key: names a known finding"""
    def __init__(self, desc, fn, key=None): self.desc, self.fn, self.key = desc, fn, key


class TimedOut(Exception):
    pass


def _alarm(*_):
    raise TimedOut


def run_case(case, seconds=10):
    """None, or why the case fails"""
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        case.fn()
    except Failure as e:
        return str(e)
    except TimedOut:
        return f'no result within {seconds} s'
    except Exception as e:
        import traceback
        return f'unexpected {type(e).__name__}: {e}\n' + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return None


class Token:
    """an object equal only to itself"""
    def __init__(self, name): self.name = name
    def __repr__(self): return self.name


def products(*axes): return itertools.product(*axes)


MISSING = Token('MISSING')


def make_class(name, fields, bases=None, body=None, **kw):
    """a record class; fields: name -> hint or (hint, default)"""
    from records import RecordBase
    import types
    ns = dict(body or {})
    ns['__annotations__'] = {}
    ns.setdefault('__module__', __name__)
    for k, v in fields.items():
        if isinstance(v, D):
            ns['__annotations__'][k] = v.hint
            ns[k] = v.default
        else:
            ns['__annotations__'][k] = v
    return types.new_class(name, bases or (RecordBase,), kw, lambda d: d.update(ns))


class D:
    """a hint with a default"""
    def __init__(self, hint, default): self.hint, self.default = hint, default
    def __repr__(self): return f'{self.hint} = {show(self.default)}'


def annotated(hint, *tokens):
    from records import Annotated
    return Annotated[(hint, *tokens)] if tokens else hint


def required_of(cls):
    """the names of the fields without a default"""
    r = getattr(cls, '_required_keys', None)
    return {n for n, f in cls._fields.items() if not f.has_default} if r is None else set(r)


def optional_of(cls):
    r = getattr(cls, '_optional_keys', None)
    return {n for n, f in cls._fields.items() if f.has_default} if r is None else set(r)


def attrs(rec):
    """what a record stores"""
    return dict(vars(rec))


def same(a, b):
    """identical objects, in identical order"""
    a, b = list(a), list(b)
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))
