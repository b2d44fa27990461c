"""What contracts are written with."""
import sys
sys.dont_write_bytecode = True
import os
REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import warnings
import time
import traceback
import z3

from pyvc import core, interp, loops, models
from pyvc.core import *
from pyvc.core import I as INT
from pyvc.interp import Interp, Args, Star, func_of
from pyvc.loops import Rec

interp.SOURCE_ROOTS[:] = [os.path.join(REPO, 'records') + os.sep]


class Contract:
    """One function (or lemma) under contract.

    run(I, p) sets up symbolic inputs meeting the preconditions, executes the function and proves the postconditions.
    """
    def __init__(self, name, run, functions=(), templates=(), setup=None, setup_ex=None):
        self.name, self.run, self.functions = name, run, list(functions)
        self.templates, self.setup, self.setup_ex = list(templates), setup, setup_ex


class Outcome:
    """how an execution ended: exactly one of value and exc is set"""
    def __init__(self, I, value=None, exc=None): self.I, self.value, self.exc = I, value, exc

    @property
    def ok(self): return self.exc is None

    def exc_is(self, cls):
        """the condition that the exception is an instance of the class"""
        return self.I.isinst(self.exc, cls)

    def exc_exact(self, cls):
        e = self.exc
        if isinstance(e, Ref):
            return z3.BoolVal(self.I.get(e).cls is cls)
        return typeof(e.t) == self.I.p.const(cls)

    def exc_term(self):
        return None if isinstance(self.exc, Ref) else self.exc.t


def attempt(I, fn):
    try:
        return Outcome(I, value=fn())
    except PyRaise as r:
        return Outcome(I, exc=r.value)


class Result:
    def __init__(self, contract):
        self.contract, self.obls, self.error, self.stats, self.inlined = contract, [], None, {}, set()
        self.complete, self.bounded, self.loops = 0, False, []
        self.seconds = 0.0


def explore(contract, unroll=None, deadline=300, debug=False, timeout_ms=20000):
    ex = Explorer(contract.name, unroll=unroll, deadline=time.time() + deadline, timeout_ms=timeout_ms)
    ex.debug = debug
    ex.templates = list(contract.templates)
    res = Result(contract)
    t = time.time()

    def fn(path):
        I = Interp(path)
        if contract.setup:
            contract.setup(I, path)
        contract.run(I, path)
    try:
        if contract.setup_ex:
            contract.setup_ex(ex)
        ex.run(fn)
        res.obls, res.complete, res.bounded = ex.obls, ex.complete, ex.bounded
    except Unsupported as e:
        res.error = f'unsupported: {e}'
        if debug:
            traceback.print_exc(limit=-6)
    except RecursionError as e:
        res.error = 'recursion'
    except z3.Z3Exception as e:
        res.error = f'z3: {e}'
        if debug:
            traceback.print_exc(limit=-6)
    except Exception as e:
        res.error = f'internal: {type(e).__name__}: {e}'
        if debug:
            traceback.print_exc(limit=-6)
    res.stats, res.inlined = ex.stats, set(getattr(ex, 'inlined', ()))
    res.obls = res.obls or list(getattr(ex, 'obls', []))
    res.loops = [(k, v) for k, v in ex.loops.items()]
    res.seconds = time.time() - t
    return res
