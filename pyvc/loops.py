"""Loops of unknown length: invariants inferred from templates (Houdini), frames discovered by execution."""
import z3

from .core import *
from . import core


class LoopInfo:
    """what is known about a loop, kept across re-executions"""
    def __init__(self):
        self.mods = {}       # slot -> True: everything some iteration changes
        self.shapes = {}     # slot -> set of shapes its value takes at the loop head
        self.elems = {}      # slot -> element kind of a list or dict
        self.forked = set()  # slots whose shapes are told apart by forking
        self.dropped = set()
        self.kept = set()
        self.iterated = 0
        self.objs = {}
        self.told = set()    # candidates that were assumed of some state
        self.used = set()    # candidates assumed so far in this run


class LoopRun:
    def __init__(self, serial, heap0):
        self.serial, self.heap0, self.mods = serial, heap0, {}


class Poison(Val):
    __slots__ = 'info', 'slot'

    def __init__(self, info, slot): self.info, self.slot = info, slot


class Rec:
    """A recursive specification function over an index and a state.

    comps: kinds of the state components ('V', 'seq', 'dict', 'set', 'num', 'bool', 'W', 'base' (the sequence the loop runs over); a trailing '!' marks one that
    does not change).  results: sorts.  body(rec, i, *state) gives the result terms, with recursive calls made through
    rec(i, *state).
    """
    SORTS = {'base': [SV], 'V': [V], 'seq': [SV], 'dict': [AB, AV], 'odict': [AB, AV, SV], 'set': [AB], 'num': [I], 'bool': [B], 'W': [W]}

    def __init__(self, name, comps, results, body, hints=None, index=None, over=None, facts=None):
        self.facts = facts  # what is known of the terms of the body, beyond the equation
        self.name, self.comps, self.results, self.body = name, comps, results, body
        self.hints = hints or {}
        self.index = index
        self.over = over  # the sequence it runs over, if it is a fixed one: other loops are not tried
        sorts = [I] + [s for c in comps for s in self.SORTS[c.rstrip('!')]]
        self.fs = [uf(f'{name}.{k}', *sorts, r) for k, r in enumerate(results)]

    def flat(self, state):
        out = []
        for x in state:
            if isinstance(x, tuple):
                out += x
            else:
                out.append(x)
        return out

    def __call__(self, i, *state):
        i = z3.IntVal(i) if isinstance(i, int) else i
        st = self.flat(state)
        return tuple(f(i, *st) for f in self.fs)

    def unfold(self, p, i, *state, fuel=None):
        """assume the defining equation at this point"""
        i = z3.IntVal(i) if isinstance(i, int) else i
        if fuel is None:
            fuel = p.ex.unroll + 2 if p.ex.unroll else 1
        todo = [(i, state, fuel)]
        seen = p.__dict__.setdefault('unfolded', {})
        while todo:
            i, state, fuel = todo.pop()
            lhs = self(i, *state)
            key = (self.name, lhs[0].get_id())
            if seen.get(key, (0,))[0] >= fuel:
                continue
            seen[key] = (fuel, lhs)
            calls = []

            def rec(j, *st):
                calls.append((j, st))
                return self(j, *st)
            rhs = self.body(rec, i, *state)
            for a, b in zip(lhs, rhs):
                p.assume(a == b)
            for f in self.facts(i, *state) if self.facts else ():
                p.assume(f)
            if fuel > 1:
                todo += [(z3.simplify(j), st, fuel - 1) for j, st in calls]
            elif p.ex.unroll and calls:
                # counterexamples are looked for among the inputs that need no more unfolding
                a, b = ([z3.Const(f'beyond {n} {f.range()}', f.range()) for f in self.fs] for n in '12')
                one, other = (self.body(lambda j, *st, m=m: tuple(m), i, *state) for m in (a, b))
                for x, y in zip(a, b):
                    p.assume(x != y)
                for x, y in zip(one, other):
                    p.assume(x == y)

    def at(self, p, i, *state):
        """the value there, with its defining equation assumed"""
        self.unfold(p, i, *state)
        return self(i, *state)


class Ctx:
    """what templates may look at"""
    def __init__(self, I, view, info, envs, heap0):
        self.I, self.p, self.view, self.info, self.envs, self.heap0 = I, I.p, view, info, envs, heap0

    def value(self, slot):
        if slot[0] == 'var':
            env = self.envs.get(slot[1])
            return env.vars.get(slot[2], UNBOUND) if env is not None else UNBOUND
        if slot[0] == 'heap':
            o = self.p.heap.get(slot[1])
            if o is None:
                return UNBOUND
            if slot[2] is None or not isinstance(o, ObjO):
                return Ref(slot[1])
            return o.attrs.get(slot[2], UNBOUND)
        return UNBOUND

    def slots(self):
        out = []
        for label, env in self.envs.items():
            for n in env.vars:
                if not n.startswith('$') and n != '__class__':
                    out.append(('var', label, n))
        for s in self.info.mods:
            if s not in out and s[0] == 'heap':
                out.append(s)
        return out

    def changing(self, slot):
        """whether the slot's term may differ between iterations"""
        if slot in self.info.mods:
            return True
        v = self.value(slot)
        return isinstance(v, Ref) and any(m[0] == 'heap' and m[1] == v.id for m in self.info.mods)

    def term(self, slot, kind):
        return term_of(self.I, self.value(slot), kind)


def term_of(I, v, kind):
    p = I.p
    try:
        if isinstance(v, Ref):
            o = p.heap[v.id]
            if kind == 'seq' and isinstance(o, ListO):
                return I.list_seq(o)
            if kind == 'dict' and isinstance(o, DictO):
                return I.dict_terms(o)
            if kind == 'odict' and isinstance(o, DictO):
                if o.items is not None:
                    return *I.dict_terms(o), seq(*[p.box(I.lift(k)) for k in o.items])
                return None if o.order is None else (o.dom, o.map, o.order)
            if kind == 'set' and isinstance(o, SetO):
                return o.dom
            if kind == 'V' and isinstance(o, ObjO):
                return p.box(v)
            return None
        if kind == 'V':
            if isinstance(v, (Sym, SInt, SReal)):
                return p.box(v)
            if isinstance(v, Con) and (v.obj is None or isinstance(v.obj, (str, bool, int))):
                return p.box(v)
            return None
        if kind == 'seq':
            if isinstance(v, SeqV):
                return v.seq
            if isinstance(v, TupV):
                return seq(*map(p.box, v.items))
            if isinstance(v, Sym) and v.cls in (tuple, list):
                return seqof(v.t)
            return None
        if kind == 'num':
            if isinstance(v, SInt):
                return v.t
            if isinstance(v, Con) and isinstance(v.obj, int):
                return z3.IntVal(int(v.obj))
            if isinstance(v, Con) and v.obj == float('inf'):
                return z3.IntVal(INF)
            return None
        if kind == 'bool':
            if isinstance(v, SBool):
                return v.t
            if isinstance(v, Con) and isinstance(v.obj, bool):
                return z3.BoolVal(v.obj)
        return None
    except Unsupported:
        return None


INF = 10 ** 6


def shape_of(I, v, lp, info):
    if isinstance(v, Con):
        try:
            key = (type(v.obj).__name__, repr(v.obj))
        except Exception:
            key = ('?', id(v.obj))
        info.objs[key] = v.obj
        return 'con', key
    if isinstance(v, Sym):
        return 'sym', v.cls
    if isinstance(v, SInt):
        return 'int', v.enum
    if isinstance(v, SReal):
        return 'real',
    if isinstance(v, SBool):
        return 'bool',
    if isinstance(v, SeqV):
        return 'seq', v.elem
    if isinstance(v, TupV):
        return ('tup',) + tuple(shape_of(I, x, lp, info) for x in v.items)
    if isinstance(v, Ref):
        if v.id in lp.heap0:
            return 'ref', v.id
        o = I.get(v)
        if isinstance(o, ListO):
            return 'newlist', elem_of(o)
        if isinstance(o, DictO):
            return 'newdict',
        return 'other', 'ref'
    if v is UNBOUND or isinstance(v, Poison):
        return 'unbound',
    return 'other', type(v).__name__


def elem_of(o):
    if o.items is None:
        return o.elem
    if not o.items:
        return 'empty'
    ks = {elem_kind(x) for x in o.items}
    return ks.pop() if len(ks) == 1 else None


def values_of(o):
    """the kind of the values of a dict"""
    if o.items is None:
        return 'empty' if o.dom.eq(EMPTY_DOM) else o.velem
    if not o.items:
        return 'empty'
    ks = {elem_kind(x) for x in o.items.values()}
    return ks.pop() if len(ks) == 1 else None


def elem_kind(v):
    if isinstance(v, TupV) and len(v.items) == 2:
        return 'pair'
    if isinstance(v, Sym):
        return v.cls
    if isinstance(v, SInt) and v.enum is None:
        return 'int'
    return None


def join_elem(a, b):
    if a == 'empty':
        return b
    if b == 'empty':
        return a
    return a if a == b else None


def merged(shapes):
    """one shape covering all of these, or None"""
    shapes = list(shapes)
    if len(shapes) == 1:
        s = shapes[0]
        return s if s[0] != 'other' else None
    kinds = {s[0] for s in shapes}
    if kinds <= {'int', 'con'} and 'int' in kinds:
        if all(s[0] == 'int' or s[1][0] == 'int' for s in shapes) and len({s[1] for s in shapes if s[0] == 'int'}) == 1:
            return next(s for s in shapes if s[0] == 'int')
    if kinds == {'con'} and all(s[1][0] == 'int' for s in shapes):
        return 'int', None
    if kinds <= {'bool', 'con'} and all(s[0] == 'bool' or s[1][0] == 'bool' for s in shapes):
        return 'bool',
    if kinds <= {'sym', 'con'} and 'sym' in kinds:
        cl = {s[1] for s in shapes if s[0] == 'sym'}
        return 'sym', (cl.pop() if len(cl) == 1 and 'con' not in kinds else None)
    if kinds <= {'newlist', 'ref'} and 'newlist' in kinds:
        return None
    if kinds == {'newlist'}:
        e = 'empty'
        for s in shapes:
            e = join_elem(e, s[1])
        return 'newlist', e
    if kinds == {'seq'}:
        e = 'empty'
        for s in shapes:
            e = join_elem(e, s[1])
        return 'seq', e
    if kinds == {'tup'} and len({len(s) for s in shapes}) == 1:
        parts = [merged({s[k] for s in shapes}) for k in range(1, len(shapes[0]))]
        if all(parts):
            return ('tup', *parts)
    return None


def fresh_of(I, shape, name, info):
    p = I.p
    k = shape[0]
    if k == 'con':
        return Con(info.objs[shape[1]])
    if k == 'sym':
        return Sym(p.fresh(name, V), shape[1])
    if k == 'int':
        t = p.fresh(name, I_)
        if shape[1] is not None:
            p.assume(z3.Or(*[t == int(m) for m in shape[1]]))
        return SInt(t, shape[1])
    if k == 'real':
        return SReal(p.fresh(name, R))
    if k == 'bool':
        return SBool(p.fresh(name, B))
    if k == 'seq':
        return SeqV(p.fresh(name, SV), None if shape[1] == 'empty' else shape[1])
    if k == 'tup':
        return TupV([fresh_of(I, s, f'{name}.{j}', info) for j, s in enumerate(shape[1:])])
    if k == 'ref':
        return Ref(shape[1])
    if k == 'newlist':
        return I.alloc('hlist ' + name, ListO(seq=p.fresh(name, SV), elem=shape[1]))
    if k == 'newdict':
        return I.alloc('hdict ' + name, DictO(dom=p.fresh(name + '.dom', AB), map=p.fresh(name + '.map', AV)))
    if k == 'unbound':
        return UNBOUND
    raise Unsupported(f'shape {shape}')


I_ = core.I


def reachable_envs(I):
    envs = {}
    for fv, env in I.fn_stack:
        e = env
        while e is not None:
            envs[e.label] = e
            e = e.parent
    return envs


def symbolic_loop(I, view, body, node, tag, with_index):
    p, ex = I.p, I.ex
    run = (lambda i: body(view.elem(i), i) if with_index else body(view.elem(i))) if view is not None else \
        (lambda i: body(None))
    if ex.unroll:
        for k in range(ex.unroll + 1):
            if view is not None and not p.branch(z3.IntVal(k) < view.n):
                p.assume(view.n == k)
                return
            if k == ex.unroll:
                ex.bounded = True
                raise PathEnd
            run(z3.IntVal(k))
        return
    if not hasattr(node, 'lineno'):
        node = I.call_node
    key = (tuple(env.label for _, env in I.fn_stack), node.lineno, node.col_offset, tag,
           getattr(p, 'context', None))
    info = ex.loops.get(key)
    if info is None:
        info = ex.loops[key] = LoopInfo()
    I.env_count += 1
    lp = LoopRun(I.env_count, set(p.heap))
    envs = reachable_envs(I)
    ctx = Ctx(I, view, info, envs, lp.heap0)
    cur = cur_slots = None

    # --- entry
    for s in list(info.mods):
        if s[0] == 'world':
            continue
        note_shape(I, ctx, info, lp, s)
    entry_ctx = snapshot(ctx)
    cands = candidates(I, ctx, entry_ctx)
    zero = z3.IntVal(0)
    for ck, f in cands:
        if ck in info.dropped:
            continue
        fm = f(zero, ctx)
        if fm is None or (not z3.is_true(z3.simplify(fm)) and not p.implied(fm)):
            if getattr(ex, 'debug', None) and ck[0] == 'rec':
                print('  drop at entry', ck, fm)
            info.dropped.add(ck)
            if ck in info.used:
                raise Restart
    active = [(ck, f) for ck, f in cands if ck not in info.dropped]

    # --- an arbitrary iteration, or the exit
    which = p.choose(2) if view is not None else 0
    havoc(I, ctx, info, lp)
    if view is not None:
        i = p.fresh('i', core.I)
        p.assume(z3.And(i >= 0, i < view.n) if which == 0 else z3.And(i == view.n, view.n >= 0))
        if which == 1:
            i = view.n
    else:
        i = zero
    p.havocked = True
    info.used.update(ck for ck, _ in active)
    for ck, f in active:
        fm = f(i, ctx)
        if fm is not None:
            p.assume(fm)
            info.told.add(ck)
        elif ck[0] == 'rec':
            # tell apart the kinds of values the candidate speaks of
            for x in ck[3]:
                v = ctx.value(x[1]) if x[0] == 'slot' else None
                if isinstance(v, Poison) and not any(s[0] == 'other' for s in v.info.shapes.get(v.slot, ())):
                    v.info.forked.add(v.slot)
                    raise Restart
    for t in ex.templates:
        if isinstance(t, Rec):
            for ck, _ in active:
                if ck[0] == 'rec' and ck[1] == t.name:
                    rec_unfold(t, ck, i, ctx)
    if which == 1:
        if not p.feasible(True):
            raise PathEnd
        return
    I.loop_stack.append(lp)
    try:
        run(i)
    except (Exception,) as e:
        I.loop_stack.pop()
        raise
    I.loop_stack.pop()

    # --- back at the head
    changed = False
    for s in lp.mods:
        if s not in info.mods:
            info.mods[s] = True
            changed = True
    if changed:
        raise Restart
    for s in list(info.mods):
        if s[0] != 'world' and note_shape(I, ctx, info, lp, s):
            changed = True
    if changed:
        raise Restart
    if not p.feasible(True):
        raise PathEnd
    info.iterated += 1
    nxt = z3.simplify(i + 1) if view is not None else zero
    for ck, f in active:
        fm = f(nxt, ctx)
        if fm is None and (ck not in info.told or not_assumed(I, ctx, info, lp, ck)):
            # says nothing of states like this one
            continue
        if fm is None or not p.implied(fm):
            if getattr(ex, 'debug', None):
                print('  drop', ck)
            info.dropped.add(ck)
            info.kept.discard(ck)
            changed = True
        else:
            info.kept.add(ck)
    if changed:
        raise Restart
    raise PathEnd


def not_assumed(I, ctx, info, lp, ck):
    """whether the candidate is not assumed at the head of states of this shape"""
    if ck[0] != 'rec':
        return False
    kinds = [c.rstrip('!') for t in I.ex.templates if isinstance(t, Rec) and t.name == ck[1] for c in t.comps]
    for x, kind in zip(ck[3], kinds):
        if x[0] != 'slot' or x[1] not in info.forked or ctx.term(x[1], kind) is not None:
            continue
        sh = shape_of(I, ctx.value(x[1]), lp, info)
        for g in group(info.shapes[x[1]]):
            if merged({g, sh}) == g:
                return term_of(I, fresh_of(I, g, 'probe', info), kind) is None
    return False


class Snapshot:
    """slot values and heap at loop entry"""
    def __init__(self, ctx):
        self.ctx = ctx
        self.vals = {}
        self.heap = dict(ctx.p.heap)
        self.world = ctx.p.world
        for s in ctx.slots():
            self.vals[s] = ctx.value(s)

    def term(self, slot, kind):
        p = self.ctx.p
        now, p.heap = p.heap, {**p.heap, **self.heap}
        try:
            if slot[0] == 'heap' and slot[2] is None:
                return term_of(self.ctx.I, Ref(slot[1]), kind) if slot[1] in self.heap else None
            return term_of(self.ctx.I, self.vals.get(slot, UNBOUND), kind)
        finally:
            p.heap = now

    def value(self, slot):
        return self.vals.get(slot, UNBOUND)


def snapshot(ctx): return Snapshot(ctx)


def note_shape(I, ctx, info, lp, slot):
    """record the shape of the slot's value; says whether something new was seen"""
    v = ctx.value(slot)
    if slot[0] == 'heap' and slot[2] is None:
        o = I.p.heap.get(slot[1])
        if isinstance(o, ListO):
            e = elem_of(o)
            old = info.elems.get(slot, 'empty')
            new = join_elem(old, e)
            info.elems[slot] = new
            return new != old and slot in info.elems and old != 'empty' or (old == 'empty' and new != 'empty')
        if isinstance(o, DictO) and not isinstance(o.velem, Val):
            old = info.elems.get(slot, 'empty')
            info.elems[slot] = new = join_elem(old, values_of(o))
            return new != old
        return False
    if slot[0] == 'heap' and isinstance(I.p.heap.get(slot[1]), (ListO, DictO, SetO, IterO)):
        return False
    sh = shape_of(I, v, lp, info)
    if sh[0] == 'newlist' or sh[0] == 'newdict':
        check_owned(I, ctx, v, slot)
    ss = info.shapes.setdefault(slot, set())
    if sh in ss:
        return False
    before = merged(ss) if ss else None
    ss.add(sh)
    return True


def check_owned(I, ctx, ref, slot):
    n = 0
    for label, env in ctx.envs.items():
        for name, v in env.vars.items():
            if isinstance(v, Ref) and v.id == ref.id and ('var', label, name) != slot:
                raise Unsupported('aliased list at a loop head')
    for rid, o in I.p.heap.items():
        if isinstance(o, ObjO):
            for a, v in o.attrs.items():
                if isinstance(v, Ref) and v.id == ref.id and ('heap', rid, a) != slot:
                    raise Unsupported('aliased list at a loop head')
        elif isinstance(o, ListO) and o.items:
            if any(isinstance(v, Ref) and v.id == ref.id for v in o.items):
                raise Unsupported('aliased list at a loop head')


def havoc(I, ctx, info, lp):
    p = I.p
    for s in list(info.mods):
        if s[0] == 'world':
            p.set_world(p.fresh('w', W))
            continue
        if s[0] == 'var':
            env = ctx.envs.get(s[1])
            if env is None or s[2] not in env.vars and ('unbound',) not in info.shapes.get(s, ()):
                if env is None:
                    continue
            v = havoc_value(I, info, s, s[2])
            I.set_var_raw(env, s[2], v)
            continue
        o = p.heap.get(s[1])
        if o is None:
            continue
        nm = s[1].replace('#', '_')
        if isinstance(o, ListO):
            e = info.elems.get(s, 'empty')
            I.put(Ref(s[1]), ListO(seq=p.fresh(nm, SV), elem=e))
        elif isinstance(o, DictO):
            ordered = o.items is not None or o.order is not None
            e = o.velem
            if not isinstance(e, Val):
                e = info.elems.get(s, 'empty')
            I.put(Ref(s[1]), DictO(dom=p.fresh(nm + '.dom', AB), map=p.fresh(nm + '.map', AV), velem=e,
                                   order=p.fresh(nm + '.order', SV) if ordered else None, cls=o.cls))
        elif isinstance(o, SetO):
            I.put(Ref(s[1]), SetO(dom=p.fresh(nm, AB), elem=o.elem, cls=o.cls))
        elif isinstance(o, IterO):
            pos = p.fresh(nm + '.pos', core.I)
            p.assume(z3.And(pos >= 0, pos <= (o.view.n if o.view.n is not None else len(o.view.concrete))))
            I.put(Ref(s[1]), IterO(o.view, pos))
        elif isinstance(o, ObjO):
            I.put(Ref(s[1]), o.with_attr(s[2], havoc_value(I, info, s, f'{nm}.{s[2]}')), s[2])


def havoc_value(I, info, s, name):
    shapes = info.shapes.get(s) or {('unbound',)}
    if s in info.forked:
        groups = group(shapes)
        k = I.p.choose(len(groups))
        return fresh_of(I, groups[k], name, info)
    m = merged(shapes)
    if m is None:
        return Poison(info, s)
    return fresh_of(I, m, name, info)


def group(shapes):
    """the fewest shapes covering these, each a fresh value can be made of"""
    shapes = sorted(shapes, key=repr)
    out = []
    for s in shapes:
        if s[0] == 'other':
            raise Unsupported(f'value of kind {s[1]} at a loop head')
        for k, g in enumerate(out):
            m = merged({s, g})
            if m is not None:
                out[k] = m
                break
        else:
            out.append(s)
    return out


# ---------------------------------------------------------------- candidates

def candidates(I, ctx, entry):
    """[(key, formula(i, ctx) or None)]"""
    out = []
    view = ctx.view
    if view is not None:
        # no iteration ever completes
        out.append((('first',), lambda i, c: i == 0))
        # the last iteration never completes
        if view.n is not None:
            out.append((('notend',), lambda i, c: i < view.n))
    for t in I.ex.templates:
        if isinstance(t, Rec):
            out += rec_candidates(I, ctx, entry, t)
        else:
            out += t(I, ctx, entry)
    # counters and lengths
    for s in ctx.slots():
        if s[0] != 'world' and ctx.changing(s):
            v0 = entry.term(s, 'num')
            if v0 is not None and view is not None:
                out.append((('count', s), lambda i, c, s=s, v0=v0: none_or(c.term(s, 'num'), lambda x: x == v0 + i)))
            if v0 is not None and view is None:
                out.append((('ge', s), lambda i, c, s=s, v0=v0: none_or(c.term(s, 'num'), lambda x: x >= v0)))
                for q in ctx.slots():
                    sq = entry.term(q, 'seq')
                    if sq is not None and not ctx.changing(q):
                        out.append((('le', s, q), lambda i, c, s=s, sq=sq: none_or(
                            c.term(s, 'num'), lambda x: x <= z3.Length(sq))))
            s0 = entry.term(s, 'seq')
            if s0 is not None:
                if view is not None:
                    out.append((('len', s), lambda i, c, s=s, s0=s0: none_or(
                        c.term(s, 'seq'), lambda x: z3.Length(x) == z3.Length(s0) + i)))
                out.append((('prefix', s), lambda i, c, s=s, s0=s0: none_or(
                    c.term(s, 'seq'), lambda x: z3.PrefixOf(s0, x))))
                if view is not None:
                    for b, off in distinct_bases(view):
                        # the elements so far, in order
                        out.append((('copy', s, str(b)), lambda i, c, s=s, s0=s0, b=b, off=off: none_or(
                            c.term(s, 'seq'), lambda x: x == z3.Concat(s0, z3.SubSeq(b, off, i)))))
    return out


def none_or(x, f): return None if x is None else f(x)


def distinct_bases(view):
    out = []
    for b, off in view.bases:
        if not any(b.eq(x) and z3.simplify(off).eq(z3.simplify(y)) for x, y in out):
            out.append((b, off))
    return out


def rec_candidates(I, ctx, entry, rec):
    view = ctx.view
    if rec.over is not None and not (view is not None and any(b.eq(t) for b, _ in view.bases for t in rec.over)):
        return []
    opts = []
    for n, comp in enumerate(rec.comps):
        kind, const = comp.rstrip('!'), comp.endswith('!')
        o = []
        if kind == 'W':
            o = [('world',)]
        elif kind == 'base':
            o = [('base', k) for k in range(len(distinct_bases(view)))] if view is not None else []
            opts.append(o)
            if not o:
                return []
            continue
        else:
            for s in ctx.slots():
                if s[0] == 'heap' and s[2] is not None and not isinstance(ctx.p.heap.get(s[1]), ObjO):
                    continue
                t = entry.term(s, kind)
                if t is None:
                    continue
                if const or ctx.changing(s):
                    o.append(('slot', s))
            if kind == 'seq' and view is not None:
                for k, (b, off) in enumerate(distinct_bases(view)):
                    o.append(('pre', k))
            for k, h in enumerate(rec.hints.get(n, ())):
                o.append(('hint', n, k))
            if not o or not any(x[0] == 'slot' for x in o):
                for s in ctx.slots():
                    if entry.term(s, kind) is not None and ('slot', s) not in o:
                        o.append(('slot', s))
        if not o:
            return []
        # the same contents may be reachable under several names
        seen, uniq = [], []
        for x in o:
            t = entry_term(entry, ctx, rec, x, kind)
            tv = (ctx.value(x[1]) if x[0] == 'slot' else None)
            key = ('r', tv.id) if isinstance(tv, Ref) and kind != 'V' else x
            if key not in seen:
                seen.append(key)
                uniq.append(x)
        opts.append(uniq[:6])
    if view is not None:
        idx = [('i', z3.IntVal(0))]
        for b, off in distinct_bases(view):
            if not any(z3.simplify(off).eq(z3.simplify(o)) for _, o in idx):
                idx.append(('i', off))
        if rec.index is not None:
            idx = [('i', x) for x in rec.index(view)]
    else:
        idx = [('slot', s) for s in ctx.slots() if ctx.changing(s) and entry.term(s, 'num') is not None]
    combos = [()]
    for o in opts:
        combos = [c + (x,) for c in combos for x in o]
    out = []
    for ix in idx:
        for c in combos[:64]:
            ck = ('rec', rec.name, ix if ix[0] == 'slot' else ('i', str(z3.simplify(ix[1]))), c)
            ctx.info.objs[ck] = ix
            e_idx = ix[1] if ix[0] == 'i' else entry.term(ix[1], 'num')
            e_state = [entry_term(entry, ctx, rec, x, k.rstrip('!')) for x, k in zip(c, rec.comps)]
            if e_idx is None or any(t is None for t in e_state):
                continue
            e_val = rec(e_idx, *e_state)

            def f(i, cx, ix=ix, c=c, e_val=e_val):
                st = rec_state(rec, ix, c, i, cx)
                if st is None:
                    return None
                return z3.And(*[a == b for a, b in zip(rec(st[0], *st[1:]), e_val)])
            out.append((ck, f))
    return out


def entry_term(entry, ctx, rec, x, kind):
    if x[0] == 'world':
        return entry.world
    if x[0] == 'slot':
        return entry.term(x[1], kind)
    if x[0] == 'hint':
        return rec.hints[x[1]][x[2]]
    b, off = distinct_bases(ctx.view)[x[1]]
    if x[0] == 'base':
        return b
    return z3.simplify(z3.SubSeq(b, 0, off))


def rec_state(rec, ix, c, i, cx):
    idx = ix[1] + i if ix[0] == 'i' else cx.term(ix[1], 'num')
    if idx is None:
        return None
    out = [z3.simplify(idx)]
    for x, k in zip(c, rec.comps):
        k = k.rstrip('!')
        if x[0] == 'world':
            t = cx.p.world
        elif x[0] == 'slot':
            t = cx.term(x[1], k)
        elif x[0] == 'hint':
            t = rec.hints[x[1]][x[2]]
        elif x[0] == 'base':
            t = distinct_bases(cx.view)[x[1]][0]
        else:
            b, off = distinct_bases(cx.view)[x[1]]
            t = z3.SubSeq(b, 0, z3.simplify(off + i))
        if t is None:
            return None
        out.append(t)
    return out


def rec_unfold(rec, ck, i, ctx):
    ix = ctx.info.objs[ck]
    for x in ck[3]:
        if x[0] == 'pre':
            # lemmas on the elements so far
            b, off = distinct_bases(ctx.view)[x[1]]
            j = z3.simplify(off + i)
            ctx.p.assume(z3.Implies(z3.And(j >= 0, j < z3.Length(b)), z3.Concat(
                z3.SubSeq(b, 0, j), z3.Unit(b[j])) == z3.SubSeq(b, 0, z3.simplify(j + 1))))
            ctx.p.assume(z3.Implies(j == z3.Length(b), z3.SubSeq(b, 0, j) == b))
    st = rec_state(rec, ix, ck[3], i, ctx)
    if st is not None:
        rec.unfold(ctx.p, *st)
