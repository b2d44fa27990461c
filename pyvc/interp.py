"""Symbolic execution of the python source of /repo/records.

The functions executed are the live ones of the imported package; their syntax trees are read from the files they
were compiled from, on every run.
"""
import ast
import builtins
import os
import types
import z3

from .core import *
from . import core
from . import loops
from .loops import Poison

_files = {}


def source_tree(filename):
    tree = _files.get(filename)
    if tree is None:
        with open(filename) as f:
            tree = ast.parse(f.read())
        index = {}
        for node in ast.walk(tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node
            if isinstance(node, (ast.FunctionDef, ast.Lambda)):
                name = node.name if isinstance(node, ast.FunctionDef) else '<lambda>'
                line = node.lineno
                if isinstance(node, ast.FunctionDef) and node.decorator_list:
                    line = min(line, *(d.lineno for d in node.decorator_list))
                index.setdefault((name, line), node)
        for node in ast.walk(tree):
            if isinstance(node, ast.FunctionDef):
                node._is_gen = has_yield(node)
                cls = getattr(node, '_parent', None)
                node._cls = cls.name if isinstance(cls, ast.ClassDef) else None
        _files[filename] = tree = (tree, index)
    return tree


def has_yield(fn):
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.GeneratorExp)):
            continue
        todo += ast.iter_child_nodes(n)
    return False


def in_scope(filename):
    return any(filename.startswith(r) for r in SOURCE_ROOTS)


SOURCE_ROOTS = []


def func_of(live, defcls=None):
    """the function value for a live python function"""
    code = live.__code__
    node = source_tree(code.co_filename)[1].get((code.co_name, code.co_firstlineno))
    if node is None:
        raise Unsupported(f'no source for {live}')
    return FuncV(node, live.__globals__, None, None, None, live.__qualname__, defcls, live, code)


class _Return(Exception):
    def __init__(self, value): self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class _Emit(Exception):
    """a consumer of a generator unwinds it"""
    def __init__(self, exc, token): self.exc, self.token = exc, token


class _Stop(Exception):
    """the consumer of an iterable wants no more elements"""
    def __init__(self, token, value=None): self.token, self.value = token, value


class Star:
    def __init__(self, s, elem=None): self.seq, self.elem = s, elem


class Args:
    """arguments of a call: pos holds values and Stars, kw values by name, maps the (dom, map) of symbolic **"""
    def __init__(self, pos=(), kw=None, maps=()):
        self.pos, self.kw, self.maps = list(pos), dict(kw or {}), list(maps)


class Interp:
    def __init__(self, path):
        self.p = path
        self.ex = path.ex
        self.fn_stack = []
        self.loop_stack = []
        self.env_count = 0
        self.keys_of_interest = []
        path.interp = self

    # ------------------------------------------------------------ environments

    def new_env(self, label, parent=None):
        self.env_count += 1
        p = self.p
        k = p.counters['env ' + label] = p.counters.get('env ' + label, 0) + 1
        return Env(f'{label}#{k}', self.env_count, parent)

    def set_var(self, env, name, v):
        if name in env.outer:
            if env.outer[name] == 'global':
                raise Unsupported('global statement')
            e = env.parent
            while e is not None and name not in e.vars:
                e = e.parent
            env = e or env
        for lp in self.loop_stack:
            if env.serial <= lp.serial:
                lp.mods[('var', env.label, name)] = env
        env.vars[name] = v

    def set_var_raw(self, env, name, v):
        for lp in self.loop_stack:
            if env.serial <= lp.serial:
                lp.mods[('var', env.label, name)] = env
        env.vars[name] = v

    def get_var(self, env, name, glob):
        e = env
        while e is not None:
            if name in e.vars:
                v = e.vars[name]
                if isinstance(v, Poison):
                    v.info.forked.add(v.slot)
                    raise Restart
                if v is UNBOUND:
                    raise Unsupported(f'unbound local {name}')
                return v
            e = e.parent
        if name in glob:
            return self.lift(glob[name])
        if hasattr(builtins, name):
            return Con(getattr(builtins, name))
        raise Unsupported(f'unbound name {name}')

    # ------------------------------------------------------------ heap

    def get(self, ref):
        return self.p.heap[ref.id]

    def put(self, ref, obj, attr=None):
        for lp in self.loop_stack:
            if ref.id in lp.heap0:
                lp.mods[('heap', ref.id, attr)] = None
        self.p.heap[ref.id] = obj

    def alloc(self, label, obj):
        r = self.p.alloc(label, obj)
        if not self.fn_stack:
            self.p.given[r.id] = obj
        return r

    def set_attr(self, ref, name, v):
        o = self.get(ref)
        self.put(ref, o.with_attr(name, v), name)

    def lift(self, obj):
        if isinstance(obj, types.FunctionType) and in_scope(obj.__code__.co_filename):
            return func_of(obj)
        return Con(obj)

    # ------------------------------------------------------------ functions

    def call_function(self, fv, args):
        h = self.ex.handlers.get(fv.key) if fv.key is not None else None
        if h is not None:
            r = h(self, args)
            if r is not NotImplemented:
                return r
        node = fv.node
        if len(self.fn_stack) > 40:
            raise Unsupported('recursion too deep')
        if isinstance(node, ast.FunctionDef) and fv.live is not None:
            self.ex.inlined.add(fv.name)
        env = self.new_env(fv.name.split('.')[-1], fv.env)
        if fv.live is not None and fv.live.__closure__:
            for n, c in zip(fv.live.__code__.co_freevars, fv.live.__closure__):
                if n == '__class__':
                    env.vars['__class__'] = Con(c.cell_contents)
                else:
                    env.vars[n] = self.lift(c.cell_contents)
        self.bind_args(fv, env, args)
        frame = (fv, env)
        if isinstance(node, ast.Lambda):
            self.fn_stack.append(frame)
            try:
                return self.eval(node.body, env)
            finally:
                self.fn_stack.pop()
        if getattr(node, '_is_gen', None) is None:
            node._is_gen = has_yield(node)
        if node._is_gen:
            def run(emit):
                env.vars['$emit'] = emit
                self.fn_stack.append(frame)
                try:
                    self.exec_block(node.body, env)
                except _Return:
                    pass
                finally:
                    self.fn_stack.pop()
            return GenV(run, name=fv.name)
        self.fn_stack.append(frame)
        try:
            self.exec_block(node.body, env)
            return NONE
        except _Return as r:
            return r.value
        finally:
            self.fn_stack.pop()

    def bind_args(self, fv, env, args):
        a = fv.node.args
        params = a.posonlyargs + a.args
        if fv.live is not None:
            dv = [self.lift(x) for x in fv.live.__defaults__ or ()]
            kd = {k: self.lift(x) for k, x in (fv.live.__kwdefaults__ or {}).items()}
        else:
            dv, kd = fv.defaults, fv.kwdefaults
        defaults = dict(zip([x.arg for x in params][len(params) - len(dv):], dv))
        defaults.update(kd)
        pos, kw, maps = list(args.pos), dict(args.kw), list(args.maps)
        for prm in params:
            if pos and isinstance(pos[0], Star):
                s = pos[0]
                if self.p.branch(z3.Length(s.seq) > 0):
                    v = self.p.unbox(s.seq[0], s.elem)
                    pos[0] = Star(z3.SubSeq(s.seq, 1, z3.Length(s.seq) - 1), s.elem)
                    pos.insert(0, v)
                else:
                    pos.pop(0)
            if pos and not isinstance(pos[0], Star):
                if prm.arg in kw:
                    self.throw(TypeError)
                for dom, _ in maps:
                    if self.p.branch(dom[self.p.const(prm.arg)]):
                        self.throw(TypeError)
                env.vars[prm.arg] = pos.pop(0)
            elif not pos:
                self._bind_kw(env, prm.arg, kw, maps, defaults, prm in a.posonlyargs)
            else:
                raise Unsupported('star arguments')
        if a.vararg:
            env.vars[a.vararg.arg] = self.make_tuple(pos)
        elif any(isinstance(x, Star) for x in pos):
            for x in pos:
                if not isinstance(x, Star) or self.p.branch(z3.Length(x.seq) > 0):
                    self.throw(TypeError)
        elif pos:
            self.throw(TypeError)
        for prm in a.kwonlyargs:
            self._bind_kw(env, prm.arg, kw, maps, defaults, False)
        if a.kwarg:
            env.vars[a.kwarg.arg] = self.make_kwargs(kw, maps, a.kwarg.arg)
        elif kw:
            self.throw(TypeError)
        else:
            for dom, _ in maps:
                if self.p.branch(dom != EMPTY_DOM):
                    self.throw(TypeError)

    def _bind_kw(self, env, name, kw, maps, defaults, posonly):
        if not posonly:
            if name in kw:
                env.vars[name] = kw.pop(name)
                return
            key = self.p.const(name)
            for i, (dom, mp) in enumerate(maps):
                if self.p.branch(dom[key]):
                    env.vars[name] = self.p.unbox(mp[key])
                    maps[i] = (z3.Store(dom, key, False), mp)
                    return
        if name in defaults:
            env.vars[name] = defaults[name]
            return
        self.throw(TypeError)

    def make_tuple(self, parts):
        """a tuple from values and Stars"""
        if not any(isinstance(x, Star) for x in parts):
            return TupV(parts)
        if len(parts) == 1:
            return SeqV(parts[0].seq, parts[0].elem)
        elem = {x.elem for x in parts if isinstance(x, Star)}
        return SeqV(z3.simplify(z3.Concat(*[x.seq if isinstance(x, Star) else z3.Unit(self.p.box(x)) for x in parts])),
                    elem.pop() if len(elem) == 1 and all(isinstance(x, Star) for x in parts) else None, tuple(parts))

    def make_kwargs(self, kw, maps, label='kwargs'):
        if not maps:
            return self.alloc(label, DictO(items={k: v for k, v in kw.items()}))
        dom, mp = self.merge_maps(kw, maps)
        order = None
        if len(maps) == 1 and not kw and getattr(self, 'kw_orders', {}).get(maps[0][0].get_id()) is not None:
            order = self.kw_orders[maps[0][0].get_id()]
        return self.alloc(label, DictO(dom=dom, map=mp, order=order))

    def merge_maps(self, kw, maps):
        dom, mp = EMPTY_DOM, EMPTY_MAP
        for i, (d, m) in enumerate(maps):
            if i == 0:
                dom, mp = d, m
            else:
                if self.p.branch(z3.SetIntersect(dom, d) != EMPTY_DOM):
                    self.throw(TypeError)
                dom, mp = self.override(dom, mp, d, m)
        for k, v in kw.items():
            key = self.p.const(k)
            if maps and self.p.branch(dom[key]):
                self.throw(TypeError)
            dom, mp = z3.Store(dom, key, True), z3.Store(mp, key, self.p.box(v))
        return dom, mp

    def override(self, dom, mp, d, m):
        """the mapping (dom, mp) updated with (d, m)"""
        if d.eq(EMPTY_DOM):
            return dom, mp
        if dom.eq(EMPTY_DOM):
            return d, m
        return z3.SetUnion(dom, d), override_map(mp, d, m)

    # ------------------------------------------------------------ exceptions

    def throw(self, cls, *args):
        raise PyRaise(self.alloc(cls.__name__, ObjO(cls, {'args': TupV(args)})))

    def exc_class_term(self, e):
        """the class of an exception value"""
        if isinstance(e, Ref):
            return self.p.const(self.get(e).cls)
        return typeof(e.t)

    def exc_matches(self, e, typ):
        """whether except clause `typ` catches e"""
        if isinstance(typ, TupV):
            return any(self.exc_matches(e, t) for t in typ.items)
        if isinstance(typ, Con) and isinstance(typ.obj, tuple):
            return any(self.exc_matches(e, Con(t)) for t in typ.obj)
        if not isinstance(typ, Con):
            raise Unsupported('except clause')
        if isinstance(e, Ref):
            return issubclass(self.get(e).cls, typ.obj)
        return self.p.branch(self.isinst(e, typ.obj))

    def isinst(self, v, cls):
        """the condition of isinstance(v, cls) for a concrete class"""
        p = self.p
        if isinstance(v, Con):
            return z3.BoolVal(isinstance(v.obj, cls))
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, ClassO):
                return z3.BoolVal(issubclass(type, cls))
            if isinstance(o, ObjO):
                if isinstance(o.cls, type):
                    return z3.BoolVal(issubclass(o.cls, cls))
                c = self.get(o.cls)
                if issubclass(c.cls, cls):
                    return z3.BoolVal(True)
                return isinst(p.box(v), p.const(cls))
            return z3.BoolVal(issubclass({ListO: list, DictO: getattr(o, 'cls', dict), SetO: getattr(o, 'cls', set),
                                          IterO: object}[type(o)], cls))
        if isinstance(v, (TupV, SeqV)):
            return z3.BoolVal(issubclass(tuple, cls))
        if isinstance(v, SInt):
            return z3.BoolVal(issubclass(v.enum or int, cls))
        if isinstance(v, SBool):
            return z3.BoolVal(issubclass(bool, cls))
        if isinstance(v, (FuncV, BoundV, NativeV, PartialV)):
            import collections.abc
            return z3.BoolVal(cls in (object, collections.abc.Callable, types.FunctionType))
        if isinstance(v, SReal):
            # a float
            return z3.BoolVal(issubclass(float, cls))
        if not isinstance(v, Sym):
            return z3.BoolVal(cls is object)
        if cls is object:
            return z3.BoolVal(True)
        if v.cls is not None and isinstance(v.cls, type) and issubclass(v.cls, cls):
            return z3.BoolVal(True)
        t = v.t
        asked = p.isq.setdefault(t.get_id(), {})
        f = isinst(t, p.const(cls))
        if cls not in asked:
            p.keep = getattr(p, 'keep', [])
            p.keep.append(t)
            known = dict(asked)
            if v.cls is not None and isinstance(v.cls, type):
                known[v.cls] = z3.BoolVal(True)
            for c, g in known.items():
                try:
                    if issubclass(c, cls):
                        p.assume(z3.Implies(g, f))
                    if issubclass(cls, c):
                        p.assume(z3.Implies(f, g))
                    elif not issubclass(c, cls) and _disjoint(c, cls):
                        p.assume(z3.Not(z3.And(f, g)))
                except TypeError:
                    pass
            asked[cls] = f
            # the type of an instance of an exact type is a subtype
            p.assume(z3.Implies(typeof(t) == p.const(cls), f))
        return f

    def isinst_term(self, v, cterm):
        """the condition of isinstance(v, c) for an unknown class c"""
        t = self.p.box(v)
        f = isinst(t, cterm)
        self.p.assume(z3.Implies(typeof(t) == cterm, f))
        return f

    # ------------------------------------------------------------ opaque calls

    def seq_of_args(self, pos, by_elements=False):
        parts = []
        for x in pos:
            parts.append(x.seq if isinstance(x, Star) else z3.Unit(self.elements(x) if by_elements else self.snapshot(x)))
        if not parts:
            return EMPTY_SEQ
        return z3.simplify(parts[0] if len(parts) == 1 else z3.Concat(*parts))

    def snapshot(self, v):
        """the term passed for v to code that is not under contract: fresh containers go by their contents"""
        p = self.p
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, ListO):
                return uf('mklist', SV, V)(self.list_seq(o))
            if isinstance(o, DictO) and v.id not in getattr(p, 'by_identity', ()):
                d, m = self.dict_terms(o)
                return mkdict(d, m)
            if isinstance(o, SetO):
                return uf('mkset', AB, V)(o.dom)
            if isinstance(o, IterO):
                return boxseq(self.materialize(v))
        if isinstance(v, (GenV, ChainV, View, IsliceV)):
            return boxseq(self.materialize(v))
        return p.box(v)

    def elements(self, v):
        """what is passed to the constructor of the type of some value: it takes the elements of lists, tuples and iterators"""
        if isinstance(v, Ref) and isinstance(self.get(v), ListO):
            return boxseq(self.list_seq(self.get(v)))
        if isinstance(v, TupV):
            return boxseq(z3.simplify(seq(*map(self.p.box, v.items))))
        return self.snapshot(v)

    def opaque_call(self, f, args):
        """a call of code that is not under contract; f is a term"""
        p = self.p
        pos = self.seq_of_args(args.pos, z3.is_app(f) and f.decl().name() == 'typeof')
        kd, km = self.merge_maps(args.kw, args.maps)
        w = p.world
        ok = call_ok(w, f, pos, kd, km)
        p.set_world(call_w(w, f, pos, kd, km))
        if p.branch(ok):
            return p.unbox(call_val(w, f, pos, kd, km))
        e = call_exc(w, f, pos, kd, km)
        p.assume(isinst(e, p.const(Exception)))
        p.isq.setdefault(e.get_id(), {})[Exception] = isinst(e, p.const(Exception))
        p.keep = getattr(p, 'keep', [])
        p.keep.append(e)
        raise PyRaise(Sym(e, Exception))

    # ------------------------------------------------------------ calls

    def call(self, f, args):
        from . import models
        return models.call(self, f, args)

    def call_vals(self, f, *pos, **kw):
        return self.call(f, Args(pos, kw))

    # ------------------------------------------------------------ statements

    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(s).__name__}')
        m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env): pass

    def x_Return(self, s, env):
        raise _Return(self.eval(s.value, env) if s.value else NONE)

    def x_Break(self, s, env): raise _Break
    def x_Continue(self, s, env): raise _Continue

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def x_AugAssign(self, s, env):
        from . import models
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.get_var(env, t.id, self.glob())
            self.set_var(env, t.id, models.binop(self, s.op, cur, self.eval(s.value, env), True))
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = models.getattr_(self, o, self.mangle(t.attr))
            models.setattr_(self, o, self.mangle(t.attr), models.binop(self, s.op, cur, self.eval(s.value, env), True))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            k = self.eval(t.slice, env)
            cur = models.getitem(self, o, k)
            models.setitem(self, o, k, models.binop(self, s.op, cur, self.eval(s.value, env), True))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, env):
        from . import models
        if isinstance(t, ast.Name):
            self.set_var(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, len(t.elts), stars[0] if stars else None)
            for x, y in zip(t.elts, vals):
                self.assign(x.value if isinstance(x, ast.Starred) else x, y, env)
        elif isinstance(t, ast.Attribute):
            models.setattr_(self, self.eval(t.value, env), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            models.setitem(self, o, self.eval(t.slice, env), v)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, star=None):
        p = self.p
        if isinstance(v, Ref) and isinstance(self.get(v), ListO) and self.get(v).items is not None:
            v = TupV(self.get(v).items)
        if isinstance(v, Con) and isinstance(v.obj, (tuple, list)):
            v = TupV([self.lift(x) for x in v.obj])
        v = self.named_tuple(v) or v
        if isinstance(v, TupV):
            if star is not None:
                k = len(v.items) - (n - 1)
                if k < 0:
                    self.throw(ValueError)
                return [*v.items[:star], self.alloc('list', ListO(items=list(v.items[star:star + k]))),
                        *v.items[star + k:]]
            if len(v.items) != n:
                self.throw(ValueError)
            return v.items
        if isinstance(v, Sym) and star is None:
            if v.cls == 'pair' and n == 2:
                return [Sym(item(v.t, 0)), Sym(item(v.t, 1))]
            if v.cls is None:
                # unpacking an unknown object
                if not p.branch(uf('unpacks', V, I, B)(v.t, z3.IntVal(n))):
                    self.throw(ValueError)
                return [Sym(item(v.t, i)) for i in range(n)]
        if isinstance(v, Ref) and isinstance(self.get(v), ListO):
            v = SeqV(self.get(v).seq, self.get(v).elem)
        if isinstance(v, Ref) and isinstance(self.get(v), (SetO, DictO)):
            v = self.materialize_list(v)
            return self.unpack(v, n, star)
        if isinstance(v, SeqV):
            size = z3.Length(v.seq)
            if not p.branch(size == n if star is None else size >= n - 1):
                self.throw(ValueError)
            if star is None:
                return [p.unbox(v.seq[i], v.elem) for i in range(n)]
            after = n - 1 - star
            rest = z3.simplify(z3.SubSeq(v.seq, star, size - (n - 1)))
            return [*[p.unbox(v.seq[i], v.elem) for i in range(star)],
                    self.alloc('list', ListO(seq=rest, elem=v.elem)),
                    *[p.unbox(v.seq[size - after + i], v.elem) for i in range(after)]]
        raise Unsupported(f'unpack {v!r}')

    def named_tuple(self, v):
        """the elements of a named tuple, as a tuple"""
        if isinstance(v, Ref):
            o = self.get(v)
            if isinstance(o, ObjO) and isinstance(o.cls, type) and hasattr(o.cls, '_fields') and issubclass(o.cls, tuple):
                return TupV([o.attrs[k] for k in o.cls._fields])

    def x_Delete(self, s, env):
        from . import models
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                models.delitem(self, self.eval(t.value, env), self.eval(t.slice, env))
            elif isinstance(t, ast.Name):
                self.set_var(env, t.id, UNBOUND)
            else:
                raise Unsupported('del')

    def x_If(self, s, env):
        self.exec_block(s.body if self.test(s.test, env) else s.orelse, env)

    def x_Assert(self, s, env):
        if not self.test(s.test, env):
            self.throw(AssertionError)

    def x_FunctionDef(self, s, env):
        v = self.make_func(s, env, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(self.eval(d, env), Args([v]))
        self.set_var(env, s.name, v)

    def make_func(self, node, env, name):
        a = node.args
        fv = self.fn_stack[-1][0]
        return FuncV(node, self.glob(), env, [self.eval(d, env) for d in a.defaults],
                     {k.arg: self.eval(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None},
                     f'{fv.name}.{name}', fv.defcls, None, None)

    def x_Nonlocal(self, s, env):
        for n in s.names:
            env.outer[n] = 'nonlocal'

    def x_Global(self, s, env):
        for n in s.names:
            env.outer[n] = 'global'

    def x_Import(self, s, env):
        for a in s.names:
            if a.asname or '.' not in a.name:
                import importlib
                self.set_var(env, a.asname or a.name, Con(importlib.import_module(a.name)))
            else:
                raise Unsupported('import')

    def x_ImportFrom(self, s, env):
        import importlib
        if s.level:
            raise Unsupported('relative import')
        m = importlib.import_module(s.module)
        for a in s.names:
            self.set_var(env, a.asname or a.name, self.lift(getattr(m, a.name)))

    def x_Raise(self, s, env):
        if s.exc is None:
            if not self.p.exc_stack:
                raise Unsupported('bare raise')
            raise PyRaise(self.p.exc_stack[-1])
        e = self.eval(s.exc, env)
        cause = self.eval(s.cause, env) if s.cause is not None else None
        e = self.as_exception(e)
        if cause is not None:
            c = cause
            if isinstance(e, Ref):
                o = self.get(e)
                self.put(e, o.with_attr('__cause__', c), '__cause__')
            else:
                self.p.causes = {**getattr(self.p, 'causes', {}), e.t.get_id(): (e.t, c)}
        raise PyRaise(e)

    def as_exception(self, e):
        p = self.p
        if isinstance(e, Con) and isinstance(e.obj, type) and issubclass(e.obj, BaseException):
            return self.alloc(e.obj.__name__, ObjO(e.obj, {'args': TupV(())}))
        if isinstance(e, Con) and isinstance(e.obj, BaseException):
            return Sym(p.const(e.obj), type(e.obj))
        if isinstance(e, Con):
            return self.alloc('TypeError', ObjO(TypeError, {'args': TupV(())}))
        if isinstance(e, Ref) and isinstance(self.get(e), ObjO) and isinstance(self.get(e).cls, type) \
                and issubclass(self.get(e).cls, BaseException):
            return e
        if isinstance(e, Sym):
            if isinstance(e.cls, type) and issubclass(e.cls, BaseException):
                return e
            if p.branch(isinst(e.t, p.const(BaseException))):
                return Sym(e.t, BaseException)
            return self.alloc('TypeError', ObjO(TypeError, {'args': TupV(())}))
        raise Unsupported(f'raise {e!r}')

    def x_Try(self, s, env):
        try:
            self._try(s, env)
        except (PyRaise, _Return, _Break, _Continue, _Emit, _Stop):
            if s.finalbody:
                self.exec_block(s.finalbody, env)
            raise
        else:
            self.exec_block(s.finalbody, env)

    def _try(self, s, env):
        try:
            self.exec_block(s.body, env)
        except PyRaise as r:
            e = r.value
        else:
            self.exec_block(s.orelse, env)
            return
        for h in s.handlers:
            if h.type is None or self.exc_matches(e, self.eval(h.type, env)):
                if h.name:
                    self.set_var(env, h.name, e)
                self.p.exc_stack.append(e)
                try:
                    self.exec_block(h.body, env)
                finally:
                    self.p.exc_stack.pop()
                if h.name:
                    self.set_var(env, h.name, UNBOUND)
                return
        raise PyRaise(e)

    def x_With(self, s, env):
        from . import models
        if len(s.items) == 1:
            v = self.eval(s.items[0].context_expr, env)
            if isinstance(v, models.Suppress):
                try:
                    self.exec_block(s.body, env)
                except PyRaise as r:
                    if not any(self.exc_matches(r.value, t) for t in v.types):
                        raise
                return
        raise Unsupported('with')

    def x_For(self, s, env):
        it = self.eval(s.iter, env)

        def body(v):
            self.assign(s.target, v, env)
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
        try:
            self.iterate(it, body, s)
        except _Break:
            return
        self.exec_block(s.orelse, env)

    def x_While(self, s, env):
        n = 0
        while True:
            v = self.eval(s.test, env)
            c = self.truth(v)
            c = z3.simplify(c) if not isinstance(c, bool) else z3.BoolVal(c)
            if z3.is_false(c):
                self.exec_block(s.orelse, env)
                return
            if not z3.is_true(c) or n > 60:
                break
            n += 1
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
            except _Break:
                return

        def body(_):
            if not self.test(s.test, env):
                raise _Stop(token)
            try:
                self.exec_block(s.body, env)
            except _Continue:
                pass
        token = object()
        try:
            self.symbolic_loop(None, body, s)
        except _Break:
            return
        except _Stop as st:
            if st.token is not token:
                raise
        self.exec_block(s.orelse, env)

    # ------------------------------------------------------------ iteration

    def iterate(self, it, body, node, tag=''):
        """run body on each element"""
        from . import models
        if isinstance(it, SeqV) and it.parts and len(it.parts) > 1:
            # (*a, b): the elements of a, and then b
            for k, x in enumerate(it.parts):
                if isinstance(x, Star):
                    self.iterate(SeqV(x.seq, x.elem), body, node, f'{tag}.{k}')
                else:
                    body(x)
            return
        it = models.iter_view(self, it)
        if isinstance(it, GenV):
            token = object()

            def emit(v):
                try:
                    body(v)
                except (PyRaise, _Break, _Return, _Continue, _Stop) as e:
                    raise _Emit(e, token)
            try:
                it.run(emit)
            except _Emit as u:
                if u.token is token:
                    raise u.exc
                raise
            return
        if isinstance(it, ChainV):
            for k, part in enumerate(it.parts):
                self.iterate(part, body, node, f'{tag}.{k}')
            return
        if isinstance(it, IsliceV):
            return self.iterate_islice(it, body, node, tag)
        if isinstance(it, Ref):  # an iterator
            o = self.get(it)
            if o.view.concrete is not None and isinstance(o.pos, int):
                items = o.view.concrete
                while self.get(it).pos < len(items):
                    k = self.get(it).pos
                    self.put(it, IterO(o.view, k + 1))
                    body(items[k])
                return
            view, p0 = models.sub_view(o.view, o.pos), o.pos

            def step(v, i):
                self.put(it, IterO(o.view, p0 + i + 1))
                body(v)
            self.symbolic_loop(view, step, node, tag, with_index=True)
            self.put(it, IterO(o.view, o.view.n))
            return
        if it.concrete is not None:
            for v in it.concrete:
                body(v)
            return
        self.symbolic_loop(it, body, node, tag)

    def iterate_islice(self, it, body, node, tag):
        from . import models
        inner = models.iter_view(self, it.it)
        start = models.as_int(self, it.start) if it.start is not None else z3.IntVal(0)
        if isinstance(inner, Ref):
            o = self.get(inner)
            n = o.view.n if o.view.n is not None else z3.IntVal(len(o.view.concrete))
            pos = z3.IntVal(o.pos) if isinstance(o.pos, int) else o.pos
            lo = z3.simplify(zmin(pos + start, n))
            hi = n if it.stop is None else z3.simplify(zmin(pos + models.as_int(self, it.stop), n))
            hi = z3.simplify(z3.If(hi < lo, lo, hi))
            view = models.sub_view(o.view, lo, hi)
            # the underlying iterator ends up after the slice; code reading it in between is not handled
            self.iterate(view, body, node, tag)
            self.put(inner, IterO(o.view, hi))
            return
        if isinstance(inner, View):
            n = inner.n if inner.n is not None else z3.IntVal(len(inner.concrete))
            lo = z3.simplify(zmin(start, n))
            hi = n if it.stop is None else z3.simplify(zmin(models.as_int(self, it.stop), n))
            hi = z3.simplify(z3.If(hi < lo, lo, hi))
            return self.iterate(models.sub_view(inner, lo, hi), body, node, tag)
        raise Unsupported('islice')

    def materialize(self, it, node=None):
        """the sequence term of the elements of an iterable, consuming it"""
        from . import models
        ref = self.materialize_list(it, node)
        return self.list_seq(self.get(ref))

    def materialize_list(self, it, node=None):
        """a fresh list of the elements"""
        from . import models
        v = models.iter_view(self, it)
        if isinstance(v, View):
            if v.concrete is not None:
                return self.alloc('list', ListO(items=list(v.concrete)))
            if v.what == 'seq':
                b, off = v.bases[0]
                s = b if z3.is_int_value(z3.simplify(off)) and z3.simplify(off).as_long() == 0 and \
                    z3.simplify(v.n).eq(z3.simplify(z3.Length(b))) else z3.SubSeq(b, off, v.n)
                return self.alloc('list', ListO(seq=s, elem=v.elem.kind))
        if isinstance(v, Ref) and isinstance(self.get(v), IterO):
            o = self.get(v)
            if o.view.concrete is None and o.view.what == 'seq':
                # what is left of it
                self.put(v, IterO(o.view, o.view.n))
                return self.materialize_list(models.sub_view(o.view, o.pos), node)
        if isinstance(v, ChainV):
            # each part in turn, appended to one list
            acc = self.alloc('acc', ListO(items=[]))
            for k, part in enumerate(v.parts):
                pv = models.iter_view(self, part)
                if isinstance(pv, (View, IsliceV)) or isinstance(pv, Ref):
                    r = self.materialize_list(pv, node)
                    models.list_extend(self, acc, r)
                else:
                    self.iterate(pv, lambda x: models.list_append(self, acc, x), node or self, f'mat{k}')
            return acc
        if isinstance(v, IsliceV):
            inner = models.iter_view(self, v.it)
            if isinstance(inner, Ref) or isinstance(inner, View):
                o = self.get(inner) if isinstance(inner, Ref) else IterO(inner, 0)
                if o.view.concrete is None and o.view.what == 'seq':
                    n = o.view.n
                    pos = z3.IntVal(o.pos) if isinstance(o.pos, int) else o.pos
                    lo = zmin(pos + (models.as_int(self, v.start) if v.start is not None else 0), n)
                    hi = n if v.stop is None else zmin(pos + models.as_int(self, v.stop), n)
                    hi = z3.simplify(z3.If(hi < lo, lo, hi))
                    if isinstance(inner, Ref):
                        self.put(inner, IterO(o.view, hi))
                    return self.materialize_list(models.sub_view(o.view, z3.simplify(lo), hi), node)
        acc = self.alloc('acc', ListO(items=[]))
        self.iterate(v, lambda x: models.list_append(self, acc, x), node or self, 'mat')
        return acc

    def list_seq(self, o):
        if o.seq is not None:
            return o.seq
        return seq(*map(self.p.box, o.items))

    # ------------------------------------------------------------ loops with invariants

    def symbolic_loop(self, view, body, node, tag='', with_index=False):

        return loops.symbolic_loop(self, view, body, node, tag, with_index)

    # ------------------------------------------------------------ dictionaries

    def dict_terms(self, o):
        if o.items is None:
            return o.dom, o.map
        dom, mp = EMPTY_DOM, EMPTY_MAP
        for k, v in o.items.items():
            key = self.p.box(self.lift(k))
            dom, mp = z3.Store(dom, key, True), z3.Store(mp, key, self.p.box(v))
        return dom, mp

    def dict_sym(self, ref):
        """make the dict symbolic, and return it"""
        o = self.get(ref)
        if o.items is not None:
            dom, mp = self.dict_terms(o)
            order = seq(*[self.p.box(self.lift(k)) for k in o.items])
            velem = o.velem if isinstance(o.velem, Val) else loops.values_of(o)
            o = DictO(dom=dom, map=mp, order=order, velem=velem, cls=o.cls)
            self.p.heap[ref.id] = o
        return o

    # ------------------------------------------------------------ expressions

    def glob(self):
        return self.fn_stack[-1][0].glob

    def mangle(self, attr):
        if attr.startswith('__') and not attr.endswith('__'):
            n = self.fn_stack[-1][0].node
            while n is not None and not isinstance(n, ast.ClassDef):
                n = getattr(n, '_parent', None)
            if n is not None:
                return f'_{n.name.lstrip("_")}{attr}'
        return attr

    def test(self, node, env):
        return self.branch_on(self.eval(node, env))

    def branch_on(self, v):
        c = self.truth(v)
        return c if isinstance(c, bool) else self.p.branch(c)

    def truth(self, v):
        from . import models
        return models.truth(self, v)

    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__}')
        return m(e, env)

    def e_Constant(self, e, env): return Con(e.value)

    def e_Name(self, e, env): return self.get_var(env, e.id, self.glob())

    def e_NamedExpr(self, e, env):
        v = self.eval(e.value, env)
        tgt = env
        while tgt.label.startswith('<comp>'):
            tgt = tgt.parent
        self.set_var(tgt, e.target.id, v)
        return v

    def e_Attribute(self, e, env):
        from . import models
        return models.getattr_(self, self.eval(e.value, env), self.mangle(e.attr))

    def e_Subscript(self, e, env):
        from . import models
        o = self.eval(e.value, env)
        return models.getitem(self, o, self.eval(e.slice, env))

    def e_Slice(self, e, env):
        return models_slice(*[self.eval(x, env) if x is not None else None for x in (e.lower, e.upper, e.step)])

    def e_Tuple(self, e, env):
        return self.make_tuple(self.eval_parts(e.elts, env))

    def eval_parts(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out += self.star_parts(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return out

    def star_parts(self, v):
        """the positional parts of *v"""
        if isinstance(v, TupV):
            return list(v.items)
        if isinstance(v, SeqV):
            return list(v.parts) if v.parts is not None else [Star(v.seq, v.elem)]
        r = self.get(self.materialize_list(v))
        return list(r.items) if r.items is not None else [Star(r.seq, r.elem)]

    def e_List(self, e, env):
        parts = self.eval_parts(e.elts, env)
        t = self.make_tuple(parts)
        if isinstance(t, TupV):
            return self.alloc('list', ListO(items=list(t.items)))
        return self.alloc('list', ListO(seq=t.seq, elem=t.elem))

    def e_Set(self, e, env):
        from . import models
        return models.make_set(self, set, View(concrete=self.eval_parts(e.elts, env)))

    def e_Dict(self, e, env):
        from . import models
        d = self.alloc('dict', DictO(items={}))
        for k, v in zip(e.keys, e.values):
            if k is None:
                models.dict_update(self, d, self.eval(v, env))
            else:
                kk = self.eval(k, env)
                models.setitem(self, d, kk, self.eval(v, env))
        return d

    def e_IfExp(self, e, env):
        return self.eval(e.body if self.test(e.test, env) else e.orelse, env)

    def e_BoolOp(self, e, env):
        is_and = isinstance(e.op, ast.And)
        for x in e.values[:-1]:
            v = self.eval(x, env)
            if self.branch_on(v) != is_and:
                # the deciding value: a boolean of known truth
                return Con(not is_and) if isinstance(v, SBool) else v
        return self.eval(e.values[-1], env)

    def e_UnaryOp(self, e, env):
        from . import models
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return Con(not c) if isinstance(c, bool) else SBool(z3.Not(c))
        return models.unop(self, e.op, v)

    def e_BinOp(self, e, env):
        from . import models
        a = self.eval(e.left, env)
        return models.binop(self, e.op, a, self.eval(e.right, env))

    def e_Compare(self, e, env):
        from . import models
        left = self.eval(e.left, env)
        res = None
        for k, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, env)
            res = models.compare(self, op, left, right)
            if k < len(e.ops) - 1:
                if not self.branch_on(res):
                    return Con(False) if isinstance(res, SBool) else res
            left = right
        return res

    def e_Call(self, e, env):
        from . import models
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return self.make_super(env)
        f = self.eval(e.func, env)
        pos = self.eval_parts(e.args, env)
        kw, maps = {}, []
        for k in e.keywords:
            v = self.eval(k.value, env)
            if k.arg is None:
                items, dm = models.mapping_parts(self, v)
                if items is not None:
                    for kk, vv in items.items():
                        if kk in kw:
                            self.throw(TypeError)
                        kw[kk] = vv
                else:
                    maps.append(dm)
            else:
                if k.arg in kw:
                    self.throw(TypeError)
                kw[k.arg] = v
        self.call_node = e
        return self.call(f, Args(pos, kw, maps))

    def make_super(self, env):
        fv, fenv = self.fn_stack[-1]
        e = env
        cls = None
        while e is not None:
            if '__class__' in e.vars:
                cls = e.vars['__class__'].obj
                break
            e = e.parent
        if cls is None:
            raise Unsupported('super')
        # the first parameter of the method
        for f, en in reversed(self.fn_stack):
            if isinstance(f.node, ast.FunctionDef) and '__class__' in en.vars:
                a = f.node.args
                return SuperV(cls, en.vars[(a.posonlyargs + a.args)[0].arg])
        raise Unsupported('super')

    def e_Lambda(self, e, env):
        return self.make_func(e, env, '<lambda>')

    def e_JoinedStr(self, e, env):
        # the text of a message; formatting is assumed not to fail nor to change anything
        pieces, exact = [], True
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                pieces.append((self.eval(v.value, env), 'r' if v.conversion == 114 else ''))
                exact &= v.conversion in (-1, 114, 115) and v.format_spec is None
            else:
                pieces.append(v.value)
        return self.text([x[0] for x in pieces if not isinstance(x, str)], pieces if exact else None)

    def text(self, parts, pieces=None):
        """a text made of these and of constants; pieces, if known: the constant texts and (value, conversion) it is the
        concatenation of"""
        known = self.p.__dict__.setdefault('texts', {})
        if not self.p.__dict__.get('exact_texts'):
            t = self.p.fresh('fstr', V)
            known[t.get_id()] = t, list(parts), None
            return Sym(t, str)
        if pieces is None:
            self.p.vague()
            pieces = [(self.p.unbox(self.p.fresh('text', V)), '')]
        flat = self.flat_pieces(pieces)
        if not any(not isinstance(x, str) for x in flat):
            return Con(''.join(flat))
        if len(flat) == 1 and flat[0][1] == 'text':
            return Sym(flat[0][0], str)
        template = ''.join(x.replace('{', '{{') if isinstance(x, str) else '{%s}' % x[1].removeprefix('text') for x in flat)
        args = [x[0] for x in flat if not isinstance(x, str)]
        t = uf('text ' + template, *[V] * len(args), V)(*args)
        known.setdefault(t.get_id(), (t, list(parts), flat))
        return Sym(t, str)

    def flat_pieces(self, pieces):
        """constants, and (term, 'text') for a text, (term, '') for the str() and (term, 'r') for the repr() of any value"""
        out = []
        known = self.p.__dict__.get('texts', {})
        for x in pieces:
            if isinstance(x, str):
                new = [x]
            else:
                v, conv = x
                if isinstance(v, Con) and type(v.obj) in (str, int):
                    new = [repr(v.obj) if conv else str(v.obj)]
                elif isinstance(v, Sym) and v.cls is str and not conv:
                    new = known.get(v.t.get_id(), (0, 0, None))[2] or [(v.t, 'text')]
                else:
                    new = [(self.p.box(v), conv)]
            for y in new:
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != '':
                    out.append(y)
        return out

    def text_parts(self, v):
        """the values a text is made of"""
        out, todo, seen = [], [v], set()
        while todo:
            x = todo.pop()
            out.append(x)
            if isinstance(x, Sym) and x.t.get_id() not in seen:
                seen.add(x.t.get_id())
                todo += self.p.__dict__.get('texts', {}).get(x.t.get_id(), (None, [], None))[1]
            elif isinstance(x, TupV):
                todo += x.items
        return out

    def e_Starred(self, e, env):
        raise Unsupported('starred')

    def e_Yield(self, e, env):
        v = self.eval(e.value, env) if e.value else NONE
        en = env
        while '$emit' not in en.vars:
            en = en.parent
        fr = self.fn_stack.pop()
        try:
            en.vars['$emit'](v)
        finally:
            self.fn_stack.append(fr)
        return NONE

    def e_YieldFrom(self, e, env):
        v = self.eval(e.value, env)
        en = env
        while '$emit' not in en.vars:
            en = en.parent

        def emit(x):
            fr = self.fn_stack.pop()
            try:
                en.vars['$emit'](x)
            finally:
                self.fn_stack.append(fr)
        self.iterate(v, emit, e)
        return NONE

    def comp_gen(self, e, env, emit_node):
        """the values of a comprehension, as a generator; the first iterable is evaluated at once"""
        first = self.eval(e.generators[0].iter, env)
        frame = self.fn_stack[-1]
        cenv = self.new_env('<comp>', env)

        def run(emit):
            def level(k, it):
                g = e.generators[k]

                def body(v):
                    self.assign(g.target, v, cenv)
                    for c in g.ifs:
                        if not self.test(c, cenv):
                            return
                    if k + 1 < len(e.generators):
                        level(k + 1, self.eval(e.generators[k + 1].iter, cenv))
                    else:
                        x = emit_node(cenv)
                        fr = self.fn_stack.pop()
                        try:
                            emit(x)
                        finally:
                            self.fn_stack.append(fr)
                self.iterate(it, body, e, f'comp{k}')
            self.fn_stack.append(frame)
            try:
                level(0, first)
            finally:
                self.fn_stack.pop()
        return GenV(run, name='comprehension')

    def e_GeneratorExp(self, e, env):
        return self.comp_gen(e, env, lambda c: self.eval(e.elt, c))

    def e_ListComp(self, e, env):
        return self.materialize_list(self.e_GeneratorExp(e, env), e)

    def e_SetComp(self, e, env):
        from . import models
        return models.make_set(self, set, self.e_GeneratorExp(e, env), e)

    def e_DictComp(self, e, env):
        from . import models
        return models.make_dict(self, self.comp_gen(
            e, env, lambda c: TupV((self.eval(e.key, c), self.eval(e.value, c)))), e)


def _disjoint(a, b):
    """no object can be an instance of both of these classes"""
    layout = (int, str, bytes, float, complex, list, tuple, dict, set, frozenset, type(None), types.FunctionType)
    ba = [c for c in layout if issubclass(a, c)]
    bb = [c for c in layout if issubclass(b, c)]
    return bool(ba and bb and ba != bb)


def zmin(a, b):
    return z3.If(a < b, a, b)


def override_map(mp, d, m):
    """map with m's values on d and mp's elsewhere"""
    f = _ite_decl()
    return z3.Map(f, d, m, mp)


_ite = []


def _ite_decl():
    if not _ite:
        _ite.append(z3.If(z3.Const('b', B), z3.Const('x', V), z3.Const('y', V)).decl())
    return _ite[0]


def models_slice(lo, hi, step):
    from .models import SliceV
    return SliceV(lo, hi, step)
