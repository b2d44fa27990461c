"""Terms, values, heap and paths of the verifier.

A *path* is one symbolic execution of the code under contract.  Paths are explored by re-execution: every
nondeterministic choice is recorded in a decision list, and alternatives go on a work list.
"""
import os
import threading
import time
import z3

V = z3.DeclareSort('V')  # python objects, by identity (strings, ints and None by value)
W = z3.DeclareSort('W')  # states of the outside world, changed by calls of code that is not under contract
SV = z3.SeqSort(V)
I = z3.IntSort()
B = z3.BoolSort()
R = z3.RealSort()
AB = z3.ArraySort(V, B)
AV = z3.ArraySort(V, V)

Out = z3.Datatype('Out')
Out.declare('Ok', ('val', V))
Out.declare('Exc', ('exc', V))         # a particular exception object
Out.declare('New', ('cls', V))         # a new exception, of this class or a subclass of it
Out = Out.create()

EMPTY_SEQ = z3.Empty(SV)
EMPTY_DOM = z3.K(V, z3.BoolVal(False))


class Unsupported(Exception):
    """The code left the subset of python the verifier handles."""


class Restart(Exception):
    """What is known about a loop was too optimistic; the exploration starts over."""


class PathEnd(Exception):
    """The path is finished: infeasible, or cut at a loop head."""


class PyRaise(Exception):
    """A python exception of the code under contract."""
    def __init__(self, value):
        self.value = value


_ufs = {}


def uf(name, *sorts):
    key = (name, tuple(s.sexpr() if hasattr(s, 'sexpr') else str(s) for s in sorts))
    f = _ufs.get(key)
    if f is None:
        f = _ufs[key] = z3.Function(name, *sorts)
    return f


def typeof(t): return uf('typeof', V, V)(t)
def isinst(t, c): return uf('isinst', V, V, B)(t, c)
def truthy(t): return uf('truthy', V, B)(t)
def pyeq(a, b): return uf('pyeq', V, V, B)(a, b)
def boxint(t): return uf('boxint', I, V)(t)
def unboxint(t): return uf('unboxint', V, I)(t)
def boxreal(t): return uf('boxreal', R, V)(t)
def unboxreal(t): return uf('unboxreal', V, R)(t)
def boxseq(t): return uf('boxseq', SV, V)(t)
def seqof(t): return uf('seqof', V, SV)(t)          # the elements a container or iterable yields
def item(t, i): return uf('item', V, I, V)(t, z3.IntVal(i) if isinstance(i, int) else i)
def dictdom(t): return uf('dictdom', V, AB)(t)
def dictmap(t): return uf('dictmap', V, AV)(t)
def setdom(t): return uf('setdom', V, AB)(t)
def mkpair(a, b): return uf('mkpair', V, V, V)(a, b)
def mkdict(dom, mp): return uf('mkdict', AB, AV, V)(dom, mp)


UNDEF = z3.Const('undef', V)
EMPTY_MAP = z3.K(V, UNDEF)


def call_ok(w, f, pos, kd=EMPTY_DOM, km=EMPTY_MAP): return uf('call_ok', W, V, SV, AB, AV, B)(w, f, pos, kd, km)
def call_val(w, f, pos, kd=EMPTY_DOM, km=EMPTY_MAP): return uf('call_val', W, V, SV, AB, AV, V)(w, f, pos, kd, km)
def call_exc(w, f, pos, kd=EMPTY_DOM, km=EMPTY_MAP): return uf('call_exc', W, V, SV, AB, AV, V)(w, f, pos, kd, km)
def call_w(w, f, pos, kd=EMPTY_DOM, km=EMPTY_MAP): return uf('call_w', W, V, SV, AB, AV, W)(w, f, pos, kd, km)


def seq(*ts):
    ts = [z3.Unit(t) for t in ts]
    if not ts:
        return EMPTY_SEQ
    return ts[0] if len(ts) == 1 else z3.Concat(*ts)


def conj(*xs):
    xs = [z3.BoolVal(x) if isinstance(x, bool) else x for x in xs]
    return z3.And(*xs) if xs else z3.BoolVal(True)


# ---------------------------------------------------------------- values

class Val:
    __slots__ = ()


class Con(Val):
    """a concrete python object that is not mutated by the code under contract"""
    __slots__ = 'obj',

    def __init__(self, obj): self.obj = obj
    def __repr__(self): return f'Con({self.obj!r})'


class Sym(Val):
    """an unknown python object; cls, if any, is a class it is known to be an instance of"""
    __slots__ = 't', 'cls'

    def __init__(self, t, cls=None): self.t, self.cls = t, cls
    def __repr__(self): return f'Sym({self.t}{", " + self.cls.__name__ if self.cls else ""})'


class SInt(Val):
    __slots__ = 't', 'enum'

    def __init__(self, t, enum=None): self.t, self.enum = t, enum
    def __repr__(self): return f'SInt({self.t})'


class SReal(Val):
    """an element of a totally ordered domain, modelled as a mathematical real"""
    __slots__ = 't',

    def __init__(self, t): self.t = t
    def __repr__(self): return f'SReal({self.t})'


class SBool(Val):
    __slots__ = 't',

    def __init__(self, t): self.t = t
    def __repr__(self): return f'SBool({self.t})'


class SeqV(Val):
    """an immutable tuple of unknown length"""
    __slots__ = 'seq', 'elem', 'parts'

    def __init__(self, s, elem=None, parts=None): self.seq, self.elem, self.parts = s, elem, parts
    def __repr__(self): return f'SeqV({self.seq})'


class TupV(Val):
    __slots__ = 'items',

    def __init__(self, items): self.items = tuple(items)
    def __repr__(self): return f'TupV{self.items}'


class Ref(Val):
    __slots__ = 'id',

    def __init__(self, id): self.id = id
    def __repr__(self): return f'Ref({self.id})'


class Env:
    """local variables of one activation; label identifies it across re-executions, serial orders creations"""
    __slots__ = 'vars', 'parent', 'outer', 'label', 'serial'

    def __init__(self, label, serial, parent=None):
        self.vars, self.parent, self.outer, self.label, self.serial = {}, parent, {}, label, serial


class FuncV(Val):
    __slots__ = 'node', 'glob', 'env', 'defaults', 'kwdefaults', 'name', 'defcls', 'live', 'key'

    def __init__(self, node, glob, env, defaults, kwdefaults, name, defcls=None, live=None, key=None):
        self.node, self.glob, self.env, self.defaults, self.kwdefaults = node, glob, env, defaults, kwdefaults
        self.name, self.defcls, self.live, self.key = name, defcls, live, key

    def __repr__(self): return f'FuncV({self.name})'


class BoundV(Val):
    __slots__ = 'func', 'self'

    def __init__(self, func, self_): self.func, self.self = func, self_
    def __repr__(self): return f'BoundV({self.func}, {self.self})'


class NativeV(Val):
    """a callable implemented by the verifier"""
    __slots__ = 'fn', 'name'

    def __init__(self, fn, name): self.fn, self.name = fn, name
    def __repr__(self): return f'NativeV({self.name})'


class PartialV(Val):
    __slots__ = 'func', 'args', 'kwargs'

    def __init__(self, func, args, kwargs): self.func, self.args, self.kwargs = func, args, kwargs


class SuperV(Val):
    __slots__ = 'after', 'self'

    def __init__(self, after, self_): self.after, self.self = after, self_


class View(Val):
    """an iterable: n elements (a z3 int), elem(i) gives the i-th as a value.  bases: (sequence, offset) pairs the
    elements come from, at index offset + i"""
    __slots__ = 'n', 'elem', 'concrete', 'bases', 'what'

    def __init__(self, n=None, elem=None, concrete=None, bases=(), what=''):
        self.n, self.elem, self.concrete, self.bases, self.what = n, elem, concrete, tuple(bases), what


class DictView(Val):
    """d.keys(), d.values() or d.items()"""
    __slots__ = 'ref', 'what'

    def __init__(self, ref, what): self.ref, self.what = ref, what


class GenV(Val):
    """an unevaluated generator: run(emit) executes it, calling emit on each value"""
    __slots__ = 'run', 'view', 'name'

    def __init__(self, run, view=None, name=''): self.run, self.view, self.name = run, view, name


class ChainV(Val):
    __slots__ = 'parts',

    def __init__(self, parts): self.parts = parts


class IsliceV(Val):
    __slots__ = 'it', 'start', 'stop'

    def __init__(self, it, start, stop): self.it, self.start, self.stop = it, start, stop


class Cell(Val):
    """marks an unbound local"""
    __slots__ = ()


UNBOUND = Cell()
NONE = Con(None)

# ---------------------------------------------------------------- heap objects (never modified in place)


class ObjO:
    __slots__ = 'cls', 'attrs', 'dyn'

    def __init__(self, cls, attrs, dyn=None): self.cls, self.attrs, self.dyn = cls, attrs, dyn
    def with_attr(self, k, v): return ObjO(self.cls, {**self.attrs, k: v}, self.dyn)


class ClassO(ObjO):
    """an unknown class; cls is a known superclass of it"""
    __slots__ = ()

    def with_attr(self, k, v): return ClassO(self.cls, {**self.attrs, k: v}, self.dyn)


class ListO:
    __slots__ = 'items', 'seq', 'elem'

    def __init__(self, items=None, seq=None, elem=None): self.items, self.seq, self.elem = items, seq, elem


class DictO:
    """items: concrete python dict of (key -> value), or None and then dom/map/order are terms.
    order is None if the iteration order is not known"""
    __slots__ = 'items', 'dom', 'map', 'order', 'velem', 'cls'

    def __init__(self, items=None, dom=None, map=None, order=None, velem=None, cls=dict):
        self.items, self.dom, self.map, self.order, self.velem, self.cls = items, dom, map, order, velem, cls


class SetO:
    """items: concrete python list of values, or None and then dom is a term"""
    __slots__ = 'dom', 'elem', 'order', 'items', 'cls'

    def __init__(self, dom=None, elem=None, order=None, items=None, cls=set):
        self.dom, self.elem, self.order, self.items, self.cls = dom, elem, order, items, cls


class IterO:
    __slots__ = 'view', 'pos'

    def __init__(self, view, pos): self.view, self.pos = view, pos


# ---------------------------------------------------------------- exploration

class Obligation:
    __slots__ = 'name', 'status', 'model', 'path', 'seconds', 'backend', 'havoc', 'note'

    def __init__(self, name, status, model, path, seconds, backend, havoc, note=''):
        self.name, self.status, self.model, self.path = name, status, model, path
        self.seconds, self.backend, self.havoc, self.note = seconds, backend, havoc, note


OUT_OF_TIME = 'out of time'
CONTENTS = {'dictdom', 'dictmap', 'setdom', 'seqof', 'item', 'truthy', 'contains', 'getitem', 'hash', 'typeof', 'isinst',
            'pyeq', 'is_mapping', 'iterable', 'sized', 'orderof', 'dictorder'}


class Explorer:
    """Explores all paths of a function of a Path, restarting while loop knowledge changes."""

    def __init__(self, name, unroll=None, timeout_ms=20000, max_paths=3000, deadline=None):
        self.name, self.unroll, self.timeout_ms, self.max_paths = name, unroll, timeout_ms, max_paths
        self.loops = {}          # loop key -> LoopInfo, kept across restarts
        self.deadline, self.stop_at = deadline or time.time() + 600, None
        self.handlers = {}
        self.templates = []
        self.slow = float(os.environ['PYVC_SLOW']) if 'PYVC_SLOW' in os.environ else None
        self.memo = {}
        self.cache, self.links, self.kept = {}, {}, []  # answers, sequences of assumptions, terms kept alive
        self.observe = {}
        self.stats = dict(paths=0, restarts=0, checks=0, solver_s=0.0)

    def run(self, fn):
        while True:
            self.obls, self.complete, self.outcomes, self.bounded = [], 0, {}, False
            self.inlined = set()
            self.changed = False
            for info in self.loops.values():
                info.used = set()
            self.work = [[]]
            count = 0
            try:
                while self.work:
                    prefix = self.work.pop()
                    count += 1
                    if count > self.max_paths:
                        raise Unsupported('too many paths')
                    if time.time() > self.deadline:
                        raise Unsupported(OUT_OF_TIME)
                    if self.unroll and self.stop_at is None and any(o.status == 'refuted' for o in self.obls):
                        self.stop_at = time.time() + 15  # enough is known
                    if self.stop_at is not None and time.time() > self.stop_at:
                        raise Unsupported(OUT_OF_TIME)
                    path = Path(self, prefix)
                    try:
                        fn(path)
                        self.complete += 1
                    except PathEnd:
                        pass
                    self.stats['paths'] += 1
            except Restart:
                self.stats['restarts'] += 1
                continue
            if self.changed:
                self.stats['restarts'] += 1
                continue
            return self


class Path:
    only = None  # the obligations to discharge, if not all

    def __init__(self, ex, prefix):
        self.ex, self.prefix, self.pos, self.trace = ex, prefix, 0, []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout_ms)
        self.heap, self.counters, self.consts, self.boxed = {}, {}, {}, {}
        self.asserted, self.isq, self.observed = set(), {}, {}
        self.havocked, self.given = False, {}
        self.exc_stack = []
        self.world = z3.Const('w0', W)
        self.chain = 0
        self.log = []

    def set_world(self, w):
        for lp in self.interp.loop_stack:
            lp.mods[('world',)] = None
        self.world = w

    def vague(self):
        """less is known from here on than is true: what fails may yet hold"""
        self.havocked = True

    # --- names
    def fresh(self, name, sort):
        k = self.counters[name] = self.counters.get(name, 0) + 1
        return z3.Const(f'{name}!{k}' if k > 1 else name, sort)

    def observe(self, **kw):
        """name terms whose values in a counter-model go into the report"""
        self.observed.update(kw)

    def alloc(self, label, obj):
        k = self.counters['ref ' + label] = self.counters.get('ref ' + label, 0) + 1
        r = Ref(f'{label}#{k}')
        self.heap[r.id] = obj
        return r

    # --- constraints
    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        k = f.get_id()
        if k in self.asserted:
            return
        self.asserted.add(k)
        self.log.append(f)  # keeps f alive, so that its id stays unique
        link = (self.chain, k)
        self.chain = self.ex.links.get(link)
        if self.chain is None:
            self.ex.kept.append(f)
            self.chain = self.ex.links[link] = len(self.ex.links) + 1
        self.solver.add(f)

    def forget(self, label, needless):
        """drop assumptions that are no longer needed"""
        memo = self.ex.memo.setdefault(needless, {})
        for f in self.log:
            if f.get_id() not in memo:
                memo[f.get_id()] = needless(f)  # terms asserted once stay alive
        kept = [f for f in self.log if not memo[f.get_id()]]
        if len(kept) == len(self.log):
            return
        self.dropped = [*getattr(self, 'dropped', []), *self.log]  # stay alive
        self.solver = z3.Solver()
        self.solver.set('timeout', self.ex.timeout_ms)
        self.solver.add(*kept)
        self.log, self.asserted = kept, {f.get_id() for f in kept}
        link = (self.chain, label)
        self.chain = self.ex.links.setdefault(link, len(self.ex.links) + 1)

    def _check(self, f, timeout=None, again=None):
        # what was asked of the same assumptions, on another path or before a restart, has the same answer
        # (terms are shared, and kept alive, so that ids tell them apart)
        key = (self.chain, f.get_id(), timeout)
        known = self.ex.cache.get(key)
        if known is None:
            r, m, dt = self._check1(f, timeout)
            if r == z3.unknown and again:
                r, m, dt = self._check_afresh(f, again, dt)
            self.ex.kept.append(f)
            if self.ex.slow is not None and dt > self.ex.slow:
                print(f'  {dt:.1f}s {r} {len(self.log)} assumptions', self.trace, str(f)[:600].replace('\n', ' '), flush=True)
            known = self.ex.cache[key] = (r, None, 0.0) if r == z3.unsat else (r, m, 0.0)
            return r, m, dt
        return known

    def _check1(self, f, timeout=None):
        self.solver.push()
        if timeout:
            self.solver.set('timeout', timeout)
        self.solver.add(f)
        t = time.time()
        r = watched(self.solver, timeout or self.ex.timeout_ms)
        dt = time.time() - t
        self.ex.stats['checks'] += 1
        self.ex.stats['solver_s'] += dt
        m = None
        if r == z3.sat:
            m = self.solver.model()
        self.solver.pop()
        if timeout:
            self.solver.set('timeout', self.ex.timeout_ms)
        return r, m, dt

    def _check_afresh(self, f, timeout, before):
        """ask a solver that has not been asked anything else"""
        solver = z3.Solver()
        solver.set('timeout', timeout)
        solver.add(*self.solver.assertions())
        solver.add(f)
        t = time.time()
        r = watched(solver, timeout)
        dt = time.time() - t
        self.ex.stats['checks'] += 1
        self.ex.stats['solver_s'] += dt
        return r, solver.model() if r == z3.sat else None, dt + before

    def feasible(self, f):
        f = z3.simplify(f) if not isinstance(f, bool) else z3.BoolVal(f)
        if z3.is_false(f):
            return False
        return self._check(f, 3000)[0] != z3.unsat

    def branch(self, cond):
        """decide a condition, forking if both ways are feasible"""
        if isinstance(cond, bool):
            return cond
        s = z3.simplify(cond)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            t, f = self.feasible(cond), self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd
            d = t
            if t and f:
                self.ex.work.append(self.trace + [False])
        self.pos += 1
        self.trace.append(d)
        self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n):
        """an unconstrained n-way choice"""
        if n == 1:
            return 0
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                self.ex.work.append(self.trace + [k])
        self.pos += 1
        self.trace.append(d)
        return d

    def implied(self, f):
        if isinstance(f, bool):
            return f
        return self._check(z3.Not(f), 2000, 5000)[0] == z3.unsat

    def prove(self, name, f, note=''):
        """an obligation of the code under contract"""
        if self.only is not None and name not in self.only:
            return True  # an obligation of another property, whose check discharges it
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        g = z3.simplify(f)
        if z3.is_true(g):
            # still a discharged obligation, by rewriting alone
            ob = Obligation(name, 'proved', None, list(self.trace), 0.0, 'simplifier', self.havocked)
        else:
            r, m, dt = self._check(z3.Not(f), self.ex.timeout_ms // 4, self.ex.timeout_ms)
            backend = 'z3'
            if r == z3.unknown:
                r2, dt2 = cvc5_check(list(self.solver.assertions()) + [z3.Not(f)], self.ex.timeout_ms)
                dt += dt2
                if r2 is not None:
                    r, backend = r2, 'cvc5'
            st = 'proved' if r == z3.unsat else 'refuted' if r == z3.sat else 'unknown'
            havoc = self.havocked
            if st == 'refuted' and not havoc and m is not None:
                apart = self.not_heap_objects(f)
                if apart:
                    r2, m2, dt2 = self._check(z3.And(z3.Not(f), *apart), self.ex.timeout_ms)
                    dt += dt2
                    if r2 == z3.sat:
                        m = m2
                    else:
                        havoc = True  # only if what is on the heap is something else as well
            ob = Obligation(name, st, self.describe(m) if m is not None else None, list(self.trace), dt, backend,
                            havoc, note)
        self.ex.obls.append(ob)
        if ob.status != 'proved':
            self.assume(f)  # report it once, and go on
        return ob.status == 'proved'

    def not_heap_objects(self, f):
        """that the objects whose contents are unknown are none of those on the heap, whose contents are known"""
        refs = [t for t, v in self.boxed.values() if isinstance(v, Ref) and isinstance(self.heap.get(v.id), (DictO, SetO, ListO))]
        if not refs:
            return []
        found, seen, todo = {}, set(), [*self.log, f]
        while todo:
            t = todo.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                continue  # what is bound is no object
            if z3.is_app(t):
                if t.decl().name() in CONTENTS:
                    for x in t.children():
                        if x.sort().eq(V):
                            found[x.get_id()] = x
                todo += t.children()
        out = []
        for x in found.values():
            for r in refs:
                if not x.eq(r):
                    out.append(x != r)
        return out

    def describe(self, m):
        out = {}
        for k, t in self.observed.items():
            try:
                out[k] = str(m.eval(t, model_completion=True))
            except Exception as e:  # pragma: no cover
                out[k] = f'? {e}'
        txt = str(m)
        out['model'] = txt if len(txt) < 6000 else txt[:6000] + ' ...'
        return out

    # --- constants and boxing
    def const(self, obj):
        """the term for a concrete object"""
        if type(obj) is int:
            t = boxint(z3.IntVal(obj))
            self.assume(unboxint(t) == obj)
            self.assume(typeof(t) == self.const(int))
            return t
        key = ('str', obj) if isinstance(obj, str) else ('bytes', obj) if isinstance(obj, bytes) else \
            ('float', repr(obj)) if isinstance(obj, float) else ('tuple', obj) if obj == () and type(obj) is tuple \
            else ('id', id(obj))
        c = self.consts.get(key)
        if c is None:
            nm = getattr(obj, '__name__', None) or (obj if isinstance(obj, str) else str(obj))
            t = z3.Const(f'c:{nm[:30]}:{len(self.consts)}', V)
            self.consts[key] = c = (t, obj)
            self.assume(uf('constid', V, I)(t) == len(self.consts))
            self.boxed[t.get_id()] = (t, Con(obj))
            if not isinstance(obj, type):
                self.assume(typeof(t) == self.const(type(obj)))
                try:
                    self.assume(truthy(t) == z3.BoolVal(bool(obj)))
                except Exception:
                    pass
        return c[0]

    def box(self, v):
        if isinstance(v, Con):
            if isinstance(v.obj, tuple) and v.obj:
                return self.box(TupV([Con(x) for x in v.obj]))
            return self.const(v.obj)
        if isinstance(v, Sym):
            return v.t
        if isinstance(v, SInt):
            if v.enum is not None:
                t = uf('box_' + v.enum.__name__, I, V)(v.t)
                self.assume(unboxint(t) == v.t)
                return t
            t = boxint(v.t)
            self.assume(unboxint(t) == v.t)
            self.assume(typeof(t) == self.const(int))
            return t
        if isinstance(v, SReal):
            t = boxreal(v.t)
            self.assume(unboxreal(t) == v.t)
            return t
        if isinstance(v, SBool):
            return z3.If(v.t, self.const(True), self.const(False))
        if isinstance(v, TupV):
            if len(v.items) == 2:
                a, b = map(self.box, v.items)
                t = mkpair(a, b)
                self.assume(z3.And(item(t, 0) == a, item(t, 1) == b))
            else:
                t = boxseq(seq(*map(self.box, v.items)))
                self.assume(seqof(t) == seq(*map(self.box, v.items)))
            self.boxed[t.get_id()] = (t, v)
            return t
        if isinstance(v, SeqV):
            t = boxseq(v.seq)
            self.assume(seqof(t) == v.seq)
            return t
        if isinstance(v, Ref):
            t = z3.Const(f'ref:{v.id}', V)
            if t.get_id() not in self.boxed:
                self.assume(uf('constid', V, I)(t) == -1 - len(self.boxed))
                o = self.heap[v.id]
                if isinstance(o, ObjO) and not isinstance(o, ClassO):
                    c = self.box(Con(o.cls)) if isinstance(o.cls, type) else self.box(o.cls)
                    self.assume(typeof(t) == c)
                    self.assume(isinst(t, c))
            self.boxed[t.get_id()] = (t, v)
            return t
        if isinstance(v, (FuncV, BoundV, NativeV, PartialV, GenV, View, ChainV)):
            # a closure: an object known only to this path
            key = ('val', id(v))
            if key not in self.consts:
                t = z3.Const(f'fn:{getattr(v, "name", "") or type(v).__name__}:{len(self.consts)}', V)
                self.consts[key] = (t, v)
                self.assume(uf('constid', V, I)(t) == len(self.consts))
                self.boxed[t.get_id()] = (t, v)
            return self.consts[key][0]
        raise Unsupported(f'cannot box {v!r}')

    def unbox(self, t, cls=None):
        """the value of a term"""
        s = z3.simplify(t)
        for x in (t, s):
            if x.get_id() in self.boxed and self.boxed[x.get_id()][0].eq(x):
                return self.boxed[x.get_id()][1]
        if isinstance(cls, str):  # a special kind
            if cls == 'int':
                return SInt(unboxint(s))
            if cls == 'pair':
                return TupV([Sym(item(s, 0)), Sym(item(s, 1))])
            cls = None
        return Sym(s, cls)


WATCH = dict(until=None, thread=None)


def watched(solver, timeout_ms):
    """check, interrupted if it does not heed its time limit"""
    if WATCH['thread'] is None or WATCH['thread'][0] != os.getpid():
        th = threading.Thread(target=watch, daemon=True)
        WATCH['thread'] = os.getpid(), th
        th.start()
    WATCH['until'] = time.time() + 3 * timeout_ms / 1000 + 10
    try:
        return solver.check()
    except z3.Z3Exception:
        return z3.unknown
    finally:
        WATCH['until'] = None


def watch():
    while True:
        time.sleep(1)
        u = WATCH['until']
        if u is not None and time.time() > u:
            z3.main_ctx().interrupt()


def cvc5_check(assertions, timeout_ms):
    """second opinion on a query z3 gave up on"""
    import os
    import subprocess
    import tempfile
    s = z3.Solver()
    s.add(*assertions)
    text = '(set-logic ALL)\n(set-option :strings-exp true)\n' + s.to_smt2()
    t = time.time()
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        p = subprocess.run(['cvc5', f'--tlimit={timeout_ms}', f.name], capture_output=True, text=True,
                           timeout=timeout_ms / 1000 + 5)
        ans = p.stdout.strip().split('\n')[0]
    except Exception:
        ans = ''
    finally:
        os.unlink(f.name)
    return (z3.unsat if ans == 'unsat' else z3.sat if ans == 'sat' else None), time.time() - t
