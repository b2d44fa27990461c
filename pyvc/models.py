"""The part of python's builtins and standard library the verifier knows."""
import ast
import builtins
import collections
import collections.abc
import contextlib
import enum
import functools
import inspect
import itertools
import math
import re
import string
import types
import typing
import warnings
import z3

from .core import *
from .interp import (Args, Star, _Stop, func_of, in_scope, override_map, zmin, Interp)
from . import core
from .known import new_state


class SliceV(Val):
    __slots__ = 'lo', 'hi', 'step'

    def __init__(self, lo, hi, step): self.lo, self.hi, self.step = lo, hi, step


class Suppress(Val):
    __slots__ = 'types',

    def __init__(self, types): self.types = types


class MethodV(Val):
    """a method of a builtin container"""
    __slots__ = 'self', 'name'

    def __init__(self, self_, name): self.self, self.name = self_, name
    def __repr__(self): return f'MethodV({self.self}.{self.name})'


class SeqElem:
    def __init__(self, p, base, off, kind): self.p, self.base, self.off, self.kind = p, base, off, kind
    def __call__(self, i):
        i = z3.IntVal(i) if isinstance(i, int) else i
        return self.p.unbox(self.base[z3.simplify(self.off + i)], self.kind)


# kinds of the attributes of objects of known classes: (class, name) -> kind
#   a class, 'V', 'int', 'bool', 'seq', ('seq', elem), ('pure', kind): a method without effects, ('enum', cls)
SCHEMA = {}


def schema_of(cls, name):
    if isinstance(cls, type):
        for c in cls.__mro__:
            if (c, name) in SCHEMA:
                return SCHEMA[c, name]
    return None


def of_kind(I, kind, fname, *ts):
    p = I.p
    sorts = [t.sort() for t in ts]
    if kind == 'bool':
        return SBool(uf(fname, *sorts, B)(*ts))
    if kind == 'int':
        t = uf(fname, *sorts, core.I)(*ts)
        return SInt(t)
    if kind == 'nat':
        t = uf(fname, *sorts, core.I)(*ts)
        p.assume(t >= 0)
        return SInt(t)
    if kind == 'V':
        return p.unbox(uf(fname, *sorts, V)(*ts))
    if kind == 'seq':
        return SeqV(uf(fname, *sorts, SV)(*ts))
    if isinstance(kind, tuple) and kind[0] == 'seq':
        return SeqV(uf(fname, *sorts, SV)(*ts), kind[1])
    if isinstance(kind, tuple) and kind[0] == 'enum':
        t = uf(fname, *sorts, core.I)(*ts)
        p.assume(z3.Or(*[t == int(m) for m in kind[1]]))
        return SInt(t, kind[1])
    if isinstance(kind, tuple) and kind[0] == 'const':
        return kind[1]
    if isinstance(kind, type):
        return p.unbox(uf(fname, *sorts, V)(*ts), kind)
    raise Unsupported(f'kind {kind}')


# ---------------------------------------------------------------- truth

def truth(I, v):
    p = I.p
    if isinstance(v, bool):
        return v
    if isinstance(v, Con):
        return bool(v.obj)
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SInt):
        return v.t != 0
    if isinstance(v, SReal):
        return v.t != 0
    if isinstance(v, TupV):
        return bool(v.items)
    if isinstance(v, SeqV):
        return z3.Length(v.seq) > 0
    if isinstance(v, DictView):
        return truth(I, v.ref)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            return bool(o.items) if o.items is not None else z3.Length(o.seq) > 0
        if isinstance(o, DictO):
            if o.items is not None:
                return bool(o.items)
            return o.dom != EMPTY_DOM
        if isinstance(o, SetO):
            return o.dom != EMPTY_DOM
        if isinstance(o, ClassO):
            return True
        if isinstance(o, ObjO):
            if isinstance(o.cls, type):
                m = mro_lookup(o.cls, '__bool__')
                if m is not None:
                    return truth(I, I.call(BoundV(I.lift(m), v), Args()))
                if I.named_tuple(v) is not None and mro_lookup(o.cls, '__len__') is tuple.__len__:
                    return bool(I.named_tuple(v).items)
                if mro_lookup(o.cls, '__len__') is not None:
                    raise Unsupported('__len__')
                return True
            # an instance of an unknown class: it may define __bool__
            return truthy(p.box(v))
        return True
    if isinstance(v, Sym):
        if isinstance(v.cls, type):
            s = schema_of(v.cls, '__bool__')
            if s is not None:
                return of_kind(I, s[1], f'{v.cls.__name__}.__bool__', v.t).t
            if v.cls.__module__.startswith('records') and isinstance(mro_lookup(v.cls, '__bool__'), types.FunctionType):
                return truth(I, I.call(BoundV(I.lift(mro_lookup(v.cls, '__bool__')), v), Args()))
            if issubclass(v.cls, (tuple, list)):
                return z3.Length(seqof(v.t)) > 0
            if issubclass(v.cls, (dict, collections.abc.Mapping)):
                return dictdom(v.t) != EMPTY_DOM
            if issubclass(v.cls, (set, frozenset)):
                return setdom(v.t) != EMPTY_DOM
            if v.cls is type or (v.cls.__module__.startswith('records') and not hasattr(v.cls, '__bool__')
                                 and not hasattr(v.cls, '__len__')) or issubclass(v.cls, BaseException):
                return True
        if v.cls == 'pair':
            return True
        return truthy(v.t)
    if isinstance(v, (FuncV, BoundV, NativeV, PartialV, MethodV, GenV, ChainV, IsliceV)):
        return True
    raise Unsupported(f'truth of {v!r}')


def mro_lookup(cls, name):
    for c in cls.__mro__:
        if name in c.__dict__:
            return c.__dict__[name]
    return None


# ---------------------------------------------------------------- attributes

def bind_class_attr(I, v, cls, raw, name, owner_val):
    """the value of a raw class attribute accessed through instance v (None for the class itself)"""
    if isinstance(raw, types.FunctionType):
        f = I.lift(raw)
        return f if v is None else BoundV(f, v)
    if isinstance(raw, classmethod):
        return BoundV(I.lift(raw.__func__), owner_val)
    if isinstance(raw, staticmethod):
        return I.lift(raw.__func__)
    if isinstance(raw, property):
        if v is None:
            return Con(raw)
        return I.call(I.lift(raw.fget), Args([v]))
    if type(raw).__module__.startswith('records') and hasattr(type(raw), '__get__'):
        m = mro_lookup(type(raw), '__get__')
        return I.call(I.lift(m), Args([Con(raw), v if v is not None else NONE, owner_val]))
    if isinstance(raw, (types.WrapperDescriptorType, types.MethodDescriptorType)) and v is not None:
        return BoundV(Con(raw), v)
    if isinstance(raw, types.MemberDescriptorType) and v is not None:
        I.throw(AttributeError)
    return I.lift(raw)


def getattr_(I, v, name):
    p = I.p
    if isinstance(v, Con):
        return con_attr(I, v, name)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ClassO):
            if name in o.attrs:
                return o.attrs[name]
            h = I.ex.handlers.get(('classattr', name))
            if h is not None:
                return h(I, v)
            raw = mro_lookup(o.cls, name)
            if raw is not None:
                if isinstance(raw, types.MemberDescriptorType):
                    return Con(raw)
                return bind_class_attr(I, None, o.cls, raw, name, v)
            if name in ('__name__', '__qualname__', '__module__'):
                return of_kind(I, str, f'a.{name}', p.box(v))
            return opaque_attr(I, p.box(v), name)
        if isinstance(o, ObjO):
            return obj_attr(I, v, o, name)
        if name == '__class__':
            return type_of(I, v)
        if isinstance(o, DictO) and o.cls is not dict:
            raw = mro_lookup(o.cls, name)
            if isinstance(raw, types.FunctionType) and in_scope(raw.__code__.co_filename):
                return BoundV(I.lift(raw), v)
        if isinstance(o, DictO) and name == 'default_factory':
            return o.velem if isinstance(o.velem, Val) else NONE
        return MethodV(v, name)
    if isinstance(v, Sym):
        return sym_attr(I, v, name)
    if isinstance(v, (TupV, SeqV, GenV, ChainV, View, DictView, SBool, SReal, IsliceV)):
        return MethodV(v, name)
    if isinstance(v, SInt):
        if v.enum is not None and name == 'value':
            return SInt(v.t)
        return MethodV(v, name)
    if isinstance(v, SuperV):
        return super_attr(I, v, name)
    if isinstance(v, (FuncV, BoundV, NativeV, PartialV)):
        if name == '__call__':
            return v
        if isinstance(v, BoundV) and name == '__func__':
            return v.func
        if isinstance(v, BoundV) and name == '__self__':
            return v.self
        if name in ('__name__', '__qualname__', '__doc__', '__module__'):
            return Sym(p.fresh('fname', V), str)
        if isinstance(v, FuncV) and v.live is not None and hasattr(v.live, name):
            return I.lift(getattr(v.live, name))
        I.throw(AttributeError)
    raise Unsupported(f'attribute {name} of {v!r}')


def con_attr(I, v, name):
    obj = v.obj
    if isinstance(obj, type):
        if obj.__module__.startswith('records') or name == '__new__':
            raw = mro_lookup(obj, name)
            if raw is not None and not isinstance(raw, (types.MemberDescriptorType,)) and \
                    not isinstance(obj, enum.EnumMeta):
                return bind_class_attr(I, None, obj, raw, name, v)
        return I.lift(getattr(obj, name))
    if isinstance(obj, (types.ModuleType, enum.Enum)):
        if isinstance(obj, types.ModuleType):
            h = I.ex.handlers.get(('module', obj.__name__, name))
            if h is not None:
                return h
        return I.lift(getattr(obj, name))
    if isinstance(obj, (str, bytes, int, float, tuple, list, dict, set, frozenset, type({}.items()))):
        return MethodV(v, name)
    if type(obj).__module__.startswith('records'):
        if name in getattr(obj, '__dict__', {}):
            return I.lift(obj.__dict__[name])
        raw = mro_lookup(type(obj), name)
        if raw is not None:
            return bind_class_attr(I, v, type(obj), raw, name, Con(type(obj)))
    if isinstance(obj, (classmethod, staticmethod)) and name == '__func__':
        return I.lift(obj.__func__)
    if not hasattr(obj, name):
        I.throw(AttributeError)
    return I.lift(getattr(obj, name))


def no_new_state(name):
    if name in new_state() or any(n.startswith('__') and name.endswith(n) for n in new_state()):
        raise Unsupported(f'attribute {name}, which is set elsewhere and which the contracts do not know')


def obj_attr(I, v, o, name):
    p = I.p
    cls = o.cls if isinstance(o.cls, type) else I.get(o.cls).cls
    owner = Con(o.cls) if isinstance(o.cls, type) else o.cls
    raw = mro_lookup(cls, name)
    if isinstance(raw, property):
        return bind_class_attr(I, v, cls, raw, name, owner)
    if name in o.attrs:
        return o.attrs[name]
    if name == '__dict__':
        if o.dyn is None:
            d = I.alloc('__dict__', DictO(items={}))
            I.put(v, ObjO(o.cls, o.attrs, d), '__dict__')
            return d
        return o.dyn
    if name == '__class__':
        return owner
    if not isinstance(o.cls, type):
        h = I.ex.handlers.get(('method', name))
        if h is not None:
            return BoundV(NativeV(h, name), v)
        c = I.get(o.cls)
        if raw is None and name in c.attrs:
            # records are assumed not to shadow the attributes their class keeps
            return c.attrs[name]
        if o.dyn is not None:
            # a field of a record
            d = I.get(o.dyn)
            if d.items is not None and name in d.items:
                return d.items[name]
            if d.items is None and raw is None:
                if p.branch(d.dom[p.const(name)]):
                    return p.unbox(d.map[p.const(name)])
    if raw is None:
        ga = mro_lookup(cls, '__getattr__')
        if ga is not None:
            return I.call(BoundV(I.lift(ga), v), Args([Con(name)]))
        if name in getattr(o, 'attrs', {}):
            return o.attrs[name]
        no_new_state(name)
        I.throw(AttributeError)
    if isinstance(o.cls, type) or True:
        return bind_class_attr(I, v, cls, raw, name, owner)


def super_attr(I, v, name):
    s = v.self
    cls = None
    if isinstance(s, Ref):
        o = I.get(s)
        if isinstance(o, ClassO):
            cls = o.cls
        elif isinstance(o, ObjO):
            cls = o.cls if isinstance(o.cls, type) else I.get(o.cls).cls
    elif isinstance(s, Con):
        cls = s.obj if isinstance(s.obj, type) and issubclass(s.obj, v.after) else type(s.obj)
    elif isinstance(s, Sym):
        cls = s.cls
    if cls is None:
        raise Unsupported('super')
    mro = list(cls.__mro__)
    is_cls = isinstance(s, Ref) and isinstance(I.get(s), ClassO) or isinstance(s, Con) and isinstance(s.obj, type)
    for c in mro[mro.index(v.after) + 1:]:
        if name in c.__dict__:
            raw = c.__dict__[name]
            if isinstance(raw, staticmethod) or name == '__new__':
                return I.lift(getattr(raw, '__func__', raw))
            if isinstance(raw, classmethod):
                return BoundV(I.lift(raw.__func__), s)
            if isinstance(raw, types.FunctionType):
                return BoundV(I.lift(raw), s)
            if isinstance(raw, types.ClassMethodDescriptorType):
                return NativeV(lambda I, a: NONE, name)
            return BoundV(Con(raw), s)
    I.throw(AttributeError)


def opaque_attr(I, t, name_term_or_str):
    """getattr of an object that is not under contract: assumed to read, and to fail with AttributeError only"""
    p = I.p
    if isinstance(name_term_or_str, str):
        no_new_state(name_term_or_str)
    n = p.const(name_term_or_str) if isinstance(name_term_or_str, str) else name_term_or_str
    if not p.branch(uf('hasattr', V, V, B)(t, n)):
        I.throw(AttributeError)
    return p.unbox(uf('getattr', V, V, V)(t, n))


def sym_attr(I, v, name):
    p = I.p
    s = schema_of(v.cls, name)
    if s is not None:
        if isinstance(s, tuple) and s[0] == 'pure':
            cn = next(c for c in v.cls.__mro__ if (c, name) in SCHEMA).__name__

            def fn(I, a):
                return of_kind(I, s[1], f'{cn}.{name}', v.t, *[I.snapshot(x) for x in a.pos])
            return NativeV(fn, name)
        if callable(s) and not isinstance(s, type):
            return s(I, v)
        cn = next(c for c in v.cls.__mro__ if (c, name) in SCHEMA).__name__
        return of_kind(I, s, f'{cn}.{name}', v.t)
    h = I.ex.handlers.get(('method', name))
    if h is not None:
        return BoundV(NativeV(h, name), v)
    if name == '__class__':
        return type_of(I, v)
    if name == '__call__' :
        return v
    if isinstance(v.cls, type):
        if v.cls.__module__.startswith('records'):
            raw = mro_lookup(v.cls, name)
            if isinstance(raw, property) or isinstance(raw, (types.FunctionType, classmethod, staticmethod)) \
                    and name not in I.ex.__dict__.get('opaque_methods', ()):
                if getattr(getattr(raw, '__func__', raw), '__isabstractmethod__', False):
                    raise Unsupported(f'abstract {v.cls.__name__}.{name}')
                return bind_class_attr(I, v, v.cls, raw, name, type_of(I, v))
        if issubclass(v.cls, (list, tuple, dict, set, frozenset, str, collections.abc.Mapping,
                              collections.abc.Container)) and hasattr(v.cls, name):
            return MethodV(v, name)
        if v.cls is type and name in ('__name__', '__qualname__', '__module__'):
            return of_kind(I, str, f'a.{name}', v.t)
    if name in ('__qualname__', '__name__') and v.cls is None:
        return of_kind(I, str, f'a.{name}', v.t)
    if v.cls is None and name in OPAQUE_METHODS:
        return MethodV(v, name)
    return opaque_attr(I, v.t, name)


OPAQUE_METHODS = {'items'}


def setattr_(I, v, name, x):
    p = I.p
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ClassO):
            h = I.ex.handlers.get(('setclassattr', name))
            if h is not None:
                return h(I, v, x)
            I.set_attr(v, name, x)
            return
        if isinstance(o, ObjO):
            if isinstance(o.cls, type):
                sa = mro_lookup(o.cls, '__setattr__')
                if isinstance(sa, types.FunctionType):
                    I.call(I.lift(sa), Args([v, Con(name), x]))
                    return
                if isinstance(mro_lookup(o.cls, name), property):
                    raise Unsupported('property setter')
                I.set_attr(v, name, x)
                return
            # an instance of an unknown record class: its __setattr__ is the one its class set
            c = I.get(o.cls)
            sa = c.attrs.get('__setattr__')
            if sa is None:
                raise Unsupported('setattr on an instance of an unknown class')
            I.call(sa, Args([v, Con(name), x]))
            return
    raise Unsupported(f'set attribute {name} of {v!r}')


def type_of(I, v):
    p = I.p
    if isinstance(v, Con):
        return Con(type(v.obj))
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ClassO):
            return Sym(typeof(p.box(v)), type)
        if isinstance(o, ObjO):
            return Con(o.cls) if isinstance(o.cls, type) else o.cls
        if isinstance(o, DictO):
            return Con(o.cls)
        if isinstance(o, SetO):
            return Con(o.cls)
        if isinstance(o, ListO):
            return Con(list)
    if isinstance(v, Sym):
        t = typeof(v.t)
        for c in p.isq.get(v.t.get_id(), {}):
            p.assume(z3.Implies(t == p.const(c), isinst(v.t, p.const(c))))
        if t.get_id() in p.boxed:
            return p.boxed[t.get_id()][1]
        return Sym(t, type)
    if isinstance(v, (TupV, SeqV)):
        return Con(tuple)
    if isinstance(v, SInt):
        return Con(v.enum or int)
    if isinstance(v, SBool):
        return Con(bool)
    raise Unsupported(f'type of {v!r}')


# ---------------------------------------------------------------- iteration

def iter_view(I, v):
    """View, GenV, ChainV, IsliceV or a Ref to an IterO"""
    p = I.p
    if isinstance(v, (View, GenV, ChainV, IsliceV)):
        return v
    if isinstance(v, TupV):
        return View(concrete=list(v.items))
    if isinstance(v, SeqV):
        return seq_view(I, v.seq, v.elem)
    if isinstance(v, Con):
        if isinstance(v.obj, (tuple, list, dict, set, frozenset, str, range, enum.EnumMeta,
                              collections.abc.KeysView, collections.abc.ValuesView, collections.abc.ItemsView)):
            out = []
            for x in v.obj:
                out.append(TupV([I.lift(y) for y in x]) if isinstance(v.obj, collections.abc.ItemsView)
                           else I.lift(x))
            return View(concrete=out)
        if not isinstance(v.obj, collections.abc.Iterable):
            I.throw(TypeError)
    if isinstance(v, DictView):
        return dict_view(I, v)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            return View(concrete=list(o.items)) if o.items is not None else seq_view(I, o.seq, o.elem)
        if isinstance(o, DictO):
            return dict_view(I, DictView(v, 'keys'))
        if isinstance(o, SetO):
            return set_view(I, v)
        if isinstance(o, IterO):
            return v
        if I.named_tuple(v) is not None:
            return iter_view(I, I.named_tuple(v))
        if isinstance(o, ObjO) and isinstance(o.cls, type) and mro_lookup(o.cls, '__iter__'):
            return iter_view(I, I.call(BoundV(I.lift(mro_lookup(o.cls, '__iter__')), v), Args()))
    if isinstance(v, Sym):
        if isinstance(v.cls, type) and issubclass(v.cls, (dict, collections.abc.Mapping)):
            return dict_view(I, DictView(v, 'keys'))
        if isinstance(v.cls, type) and issubclass(v.cls, (set, frozenset)):
            return set_view(I, v)
        if v.cls == 'pair':
            return View(concrete=[Sym(item(v.t, 0)), Sym(item(v.t, 1))])
        if not (isinstance(v.cls, type) and issubclass(v.cls, collections.abc.Iterable)):
            for q, g in p.isq.get(v.t.get_id(), {}).items():
                if isinstance(q, type) and issubclass(q, collections.abc.Iterable):
                    p.assume(z3.Implies(g, uf('iterable', V, B)(v.t)))
            if not p.branch(uf('iterable', V, B)(v.t)):
                I.throw(TypeError)
        s = seqof(v.t)
        return seq_view(I, s, I.ex.__dict__.get('elem_kinds', {}).get(v.t.get_id()))
    raise Unsupported(f'iterate {v!r}')


def seq_view(I, s, kind=None, off=None, n=None):
    if off is None and n is None and z3.is_app_of(s, z3.Z3_OP_SEQ_EXTRACT):
        # a part of another sequence: its elements are elements of that
        b, lo, k = s.children()
        if I.p.implied(z3.And(lo >= 0, k >= 0, lo + k <= z3.Length(b))):
            return seq_view(I, b, kind, lo, k)
    off = z3.IntVal(0) if off is None else off
    n = z3.Length(s) if n is None else n
    I.p.assume(z3.Length(s) >= 0)
    return View(n=z3.simplify(n), elem=SeqElem(I.p, s, off, kind), bases=[(s, off)], what='seq')


def sub_view(view, lo, hi=None):
    if view.concrete is not None:
        lo_ = lo if isinstance(lo, int) else (z3.simplify(lo).as_long() if z3.is_int_value(z3.simplify(lo)) else None)
        hi_ = None
        if hi is not None:
            hi_ = hi if isinstance(hi, int) else (
                z3.simplify(hi).as_long() if z3.is_int_value(z3.simplify(hi)) else None)
        if lo_ is None or hi is not None and hi_ is None:
            raise Unsupported('slice of a concrete sequence at an unknown place')
        return View(concrete=view.concrete[lo_:hi_])
    lo = z3.IntVal(lo) if isinstance(lo, int) else lo
    hi = view.n if hi is None else hi
    n = z3.simplify(hi - lo)
    if view.what == 'seq':
        b, off = view.bases[0]
        off2 = z3.simplify(off + lo)
        return View(n=n, elem=SeqElem(view.elem.p, b, off2, view.elem.kind), bases=[(b, off2)], what='seq')
    return View(n=n, elem=lambda i: view.elem(z3.simplify(lo + i)),
                bases=[(b, z3.simplify(o + lo)) for b, o in view.bases])


def order_facts(I, dom, order):
    """order lists the members of dom, once each; instances for the keys of interest"""
    p = I.p
    for k in I.keys_of_interest:
        order_fact_key(I, dom, order, k)
    # emptiness
    p.assume((z3.Length(order) == 0) == (dom == EMPTY_DOM))
    p.assume(z3.Implies(z3.Length(order) == 1, dom == z3.Store(EMPTY_DOM, order[0], True)))


def order_fact_key(I, dom, order, k):
    p = I.p
    pos = uf('posof', SV, V, core.I)(order, k)
    p.assume(dom[k] == z3.And(pos >= 0, pos < z3.Length(order), order[pos] == k))


def order_fact_at(I, dom, order, i):
    p = I.p
    pos = uf('posof', SV, V, core.I)(order, order[i])
    p.assume(z3.Implies(z3.And(i >= 0, i < z3.Length(order)), z3.And(dom[order[i]], pos == i)))


class DictElem:
    def __init__(self, I, dom, mp, order, what, velem, kelem=None):
        self.I, self.dom, self.mp, self.order, self.what, self.velem = I, dom, mp, order, what, velem
        self.kelem = kelem

    kind = property(lambda self: 'pair' if self.what == 'items' else self.velem if self.what == 'values' else
                    self.kelem)

    def __call__(self, i):
        I = self.I
        i = z3.IntVal(i) if isinstance(i, int) else i
        order_fact_at(I, self.dom, self.order, i)
        k = self.order[i]
        if self.what == 'keys':
            return I.p.unbox(k, self.kelem)
        v = I.p.unbox(self.mp[k], self.velem)
        return v if self.what == 'values' else TupV([I.p.unbox(k, self.kelem), v])


def dict_parts(I, d):
    """(dom, map, order, velem, concrete items or None) of a dict value"""
    p = I.p
    if isinstance(d, Ref):
        o = I.get(d)
        if isinstance(o, DictO):
            if o.items is not None:
                return None, None, None, o.velem, o.items
            if o.order is None:
                if p.given.get(d.id) is not o:
                    p.vague()  # it has one
                order = p.fresh('order ' + d.id.replace('#', '_'), SV)
                o = DictO(dom=o.dom, map=o.map, order=order, velem=o.velem, cls=o.cls)
                p.heap[d.id] = o
            order_facts(I, o.dom, o.order)
            return o.dom, o.map, o.order, o.velem, None
    if isinstance(d, Con):
        return None, None, None, None, {k: I.lift(x) for k, x in d.obj.items()}
    if isinstance(d, Sym):
        dom, order = dictdom(d.t), seqof(d.t)
        order_facts(I, dom, order)
        return dom, dictmap(d.t), order, I.ex.__dict__.get('elem_kinds', {}).get(d.t.get_id()), None
    raise Unsupported(f'dict {d!r}')


def dict_view(I, dv):
    vals = getattr(I.get(dv.ref), 'vals', None) if isinstance(dv.ref, Ref) else None
    if vals is not None and dv.what == 'values':
        return seq_view(I, vals)
    dom, mp, order, velem, items = dict_parts(I, dv.ref)
    if items is not None:
        if dv.what == 'keys':
            return View(concrete=[I.lift(k) for k in items])
        if dv.what == 'values':
            return View(concrete=list(items.values()))
        return View(concrete=[TupV([I.lift(k), v]) for k, v in items.items()])
    I.last_order = order
    kelem = str if I.ex.__dict__.get('str_keys') else None
    return View(n=z3.Length(order), elem=DictElem(I, dom, mp, order, dv.what, velem, kelem),
                bases=[(order, z3.IntVal(0))], what='dict' + dv.what if dv.what != 'keys' else 'seq')


def set_view(I, v):
    p = I.p
    if isinstance(v, Ref):
        o = I.get(v)
        if o.items is not None:
            return View(concrete=list(o.items))
        if o.order is None:
            order = p.fresh('order ' + v.id.replace('#', '_'), SV)
            o = SetO(dom=o.dom, elem=o.elem, order=order, cls=o.cls)
            p.heap[v.id] = o
        dom, order, elem = o.dom, o.order, o.elem
    else:
        dom, order, elem = setdom(v.t), seqof(v.t), I.ex.__dict__.get('elem_kinds', {}).get(v.t.get_id())
    order_facts(I, dom, order)
    I.last_order = order
    kelem = elem or (str if I.ex.__dict__.get('str_keys') else None)
    return View(n=z3.Length(order), elem=DictElem(I, dom, None, order, 'keys', None, kelem),
                bases=[(order, z3.IntVal(0))], what='seq')


def as_int(I, v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, Con) and isinstance(v.obj, int):
        return z3.IntVal(int(v.obj))
    if isinstance(v, Sym) and (v.cls is int or I.p.implied(isinst(v.t, I.p.const(int)))):
        return uf('int value', V, core.I)(v.t)
    raise Unsupported(f'not an int: {v!r}')


def length(I, v):
    p = I.p
    if isinstance(v, Con):
        return Con(len(v.obj))
    if isinstance(v, TupV):
        return Con(len(v.items))
    if isinstance(v, SeqV):
        return SInt(z3.Length(v.seq))
    if isinstance(v, DictView):
        return length(I, v.ref)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ListO):
            return Con(len(o.items)) if o.items is not None else SInt(z3.Length(o.seq))
        if isinstance(o, DictO):
            if o.items is not None:
                return Con(len(o.items))
            return SInt(z3.Length(dict_parts(I, v)[2]))
        if isinstance(o, SetO):
            vw = set_view(I, v)
            return Con(len(vw.concrete)) if vw.concrete is not None else SInt(vw.n)
    if isinstance(v, Sym):
        if isinstance(v.cls, type) and issubclass(v.cls, (dict, collections.abc.Mapping)):
            return SInt(z3.Length(dict_parts(I, v)[2]))
        if isinstance(v.cls, type) and issubclass(v.cls, (set, frozenset)):
            return SInt(set_view(I, v).n)
        # the length of a sequence is the number of elements it yields
        if not (isinstance(v.cls, type) and issubclass(v.cls, collections.abc.Sized)):
            if not p.branch(uf('sized', V, B)(v.t)):
                I.throw(TypeError)
        return SInt(z3.Length(seqof(v.t)))
    raise Unsupported(f'len of {v!r}')


# ---------------------------------------------------------------- containers

def list_append(I, ref, x):
    o = I.get(ref)
    if o.items is not None:
        I.put(ref, ListO(items=o.items + [x]))
    else:
        from .loops import elem_kind, join_elem
        I.put(ref, ListO(seq=z3.simplify(z3.Concat(o.seq, z3.Unit(I.p.box(x)))),
                         elem=o.elem if elem_kind(x) == o.elem or z3.simplify(o.seq).eq(EMPTY_SEQ) and False else
                         (elem_kind(x) if _is_empty(o) or o.elem == 'empty' else (o.elem if _boxable_as(x, o.elem) else None))))


def _is_empty(o): return o.seq is not None and z3.simplify(o.seq).eq(EMPTY_SEQ)


def _boxable_as(x, elem):
    from .loops import elem_kind
    return elem_kind(x) == elem


def list_extend(I, ref, other):
    o = I.get(ref)
    r = I.get(I.materialize_list(other))
    if r.items is not None and o.items is not None:
        I.put(ref, ListO(items=o.items + r.items))
        return
    if r.items is not None:
        for x in r.items:
            list_append(I, ref, x)
        return
    from .loops import elem_of, join_elem
    s = I.list_seq(o)
    e = join_elem(elem_of(o), r.elem)
    I.put(ref, ListO(seq=z3.simplify(z3.Concat(s, r.seq)) if not s.eq(EMPTY_SEQ) else r.seq,
                     elem=None if e == 'empty' else e))


def set_dom(I, v):
    """the characteristic function of a set-like value, or None"""
    p = I.p
    if isinstance(v, Con) and isinstance(v.obj, (set, frozenset)):
        d = EMPTY_DOM
        for x in v.obj:
            d = z3.Store(d, p.const(x), True)
        return d
    if isinstance(v, DictView):
        if v.what != 'keys':
            return None
        return map_dom(I, v.ref)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, SetO):
            return o.dom
        if isinstance(o, DictO):
            return map_dom(I, v)
    if isinstance(v, Sym) and isinstance(v.cls, type):
        if issubclass(v.cls, (set, frozenset)):
            return setdom(v.t)
        if issubclass(v.cls, (dict, collections.abc.Mapping)):
            return dictdom(v.t)
    return None


def map_dom(I, v):
    if isinstance(v, Ref):
        return I.dict_terms(I.get(v))[0]
    if isinstance(v, Sym):
        return dictdom(v.t)
    if isinstance(v, Con):
        d = EMPTY_DOM
        for x in v.obj:
            d = z3.Store(d, I.p.const(x), True)
        return d
    raise Unsupported('mapping')


def make_set(I, cls, it, node=None):
    p = I.p
    d = None
    if not isinstance(it, (GenV, View, ChainV)):
        d = set_dom(I, it)
    if d is not None:
        elem = I.get(it).elem if isinstance(it, Ref) and isinstance(I.get(it), SetO) else None
        return I.alloc('set', SetO(dom=d, elem=elem, cls=cls))
    v = iter_view(I, it)
    if isinstance(v, View) and v.concrete is not None:
        dom = EMPTY_DOM
        order = seq(*[p.box(x) for x in v.concrete])
        for x in v.concrete:
            dom = z3.Store(dom, p.box(x), True)
        items = list(v.concrete) if all(isinstance(x, Con) for x in v.concrete) else None
        return I.alloc('set', SetO(dom=dom, order=order if len(v.concrete) < 2 else None, items=items if items is not
                                   None and len({id(x.obj) for x in items}) == len(items) else None, cls=cls))
    acc = I.alloc('setacc', SetO(dom=EMPTY_DOM, cls=cls))

    def add(x):
        o = I.get(acc)
        I.put(acc, SetO(dom=z3.Store(o.dom, p.box(x), True), elem=None, cls=cls))
    I.iterate(v, add, node or I, 'set')
    return acc


def make_dict(I, it, node=None, cls=dict, label='dict'):
    acc = I.alloc(label, DictO(items={}, cls=cls))

    def add(x):
        k, v = I.unpack(x, 2)
        setitem(I, acc, k, v)
    I.iterate(it, add, node or I, 'dict')
    return acc


def is_mapping(I, v):
    if isinstance(v, Con):
        return isinstance(v.obj, collections.abc.Mapping)
    if isinstance(v, Ref):
        return isinstance(I.get(v), DictO)
    return isinstance(v, Sym) and isinstance(v.cls, type) and issubclass(v.cls, collections.abc.Mapping)


def mapping_parts(I, v):
    """(concrete items, None) or (None, (dom, map)) of a mapping used with **"""
    p = I.p
    if isinstance(v, Con):
        return {k: I.lift(x) for k, x in v.obj.items()}, None
    if isinstance(v, Ref) and isinstance(I.get(v), DictO):
        o = I.get(v)
        if o.items is not None and all(isinstance(k, str) for k in o.items):
            return o.items, None
        d, m = I.dict_terms(o)
        if o.order is not None:
            I.kw_orders = getattr(I, 'kw_orders', {})
            I.kw_orders[d.get_id()] = o.order
            p.keep = getattr(p, 'keep', [])
            p.keep.append(d)
        return None, (d, m)
    if isinstance(v, Sym):
        if not (isinstance(v.cls, type) and issubclass(v.cls, collections.abc.Mapping)):
            if not p.branch(uf('is_mapping', V, B)(v.t)):
                I.throw(TypeError)
        return None, (dictdom(v.t), dictmap(v.t))
    raise Unsupported(f'** of {v!r}')


def dict_update(I, ref, v):
    p = I.p
    o = I.get(ref)
    if not is_mapping(I, v):
        if isinstance(v, Sym):
            if p.branch(uf('is_mapping', V, B)(v.t)):
                v = Sym(v.t, collections.abc.Mapping)
        if not is_mapping(I, v):
            def add(x):
                k, val = I.unpack(x, 2)
                setitem(I, ref, k, val)
            I.iterate(v, add, I, 'update')
            return
    items, dm = mapping_parts(I, v)
    if items is None and isinstance(v, Ref) and I.get(v).items is not None:
        items = I.get(v).items
    if items is not None:
        for k, x in items.items():
            setitem(I, ref, I.lift(k), x)
        return
    d, m = I.dict_terms(o)
    nd, nm = I.override(d, m, *dm)
    velem = I.get(v).velem if isinstance(v, Ref) and (o.items == {} or o.velem == I.get(v).velem) else None
    if isinstance(v, Sym):
        velem = I.ex.__dict__.get('elem_kinds', {}).get(v.t.get_id()) if o.items == {} else None
    order = None
    if o.items == {}:
        if isinstance(v, Ref):
            order = dict_parts(I, v)[2]
        elif isinstance(v, Sym):
            order = seqof(v.t)
    elif isinstance(v, Ref) and (o.order is not None or o.items is not None and len(o.items) < 2) and p.implied(
            z3.SetIntersect(d, dm[0]) == EMPTY_DOM):
        # what is added comes after what is there
        o1 = o.order if o.items is None else seq(*map(p.const, o.items))
        order = z3.Concat(o1, dict_parts(I, v)[2])
        for k in I.keys_of_interest:
            order_fact_key(I, nd, order, k)
    I.put(ref, DictO(dom=nd, map=nm, order=order, velem=velem, cls=o.cls))


def key_of(v):
    """a python object usable as key of a concrete dict, or None"""
    if isinstance(v, Con) and isinstance(v.obj, (str, type, enum.Enum, int, bool)) or isinstance(v, Con) and v.obj is None:
        return (v.obj,)
    return None


def setitem(I, o, k, x):
    p = I.p
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, DictO):
            if ob.items is not None:
                kk = key_of(k)
                if kk is not None and all(isinstance(q, (str, type, enum.Enum)) or type(q) is type(kk[0])
                                          for q in ob.items):
                    I.put(o, DictO(items={**ob.items, kk[0]: x}, velem=ob.velem, cls=ob.cls))
                    return
                ob = I.dict_sym(o)
            key = p.box(k)
            order = ob.order
            if order is not None:
                if order.eq(EMPTY_SEQ) and ob.dom.eq(EMPTY_DOM):
                    order = z3.Unit(key)
                else:
                    order = z3.If(ob.dom[key], order, z3.Concat(order, z3.Unit(key)))
            velem = ob.velem
            if not isinstance(velem, Val):
                from . import loops
                velem = loops.join_elem(loops.values_of(ob), loops.elem_kind(x))
            I.put(o, DictO(dom=z3.Store(ob.dom, key, True), map=z3.Store(ob.map, key, p.box(x)), order=order,
                           velem=velem, cls=ob.cls))
            return
        if isinstance(ob, ListO) and ob.items is not None and isinstance(k, Con):
            items = list(ob.items)
            if not -len(items) <= k.obj < len(items):
                I.throw(IndexError)
            items[k.obj] = x
            I.put(o, ListO(items=items))
            return
        if isinstance(ob, ObjO) and isinstance(ob.cls, type) and mro_lookup(ob.cls, '__setitem__'):
            I.call(BoundV(I.lift(mro_lookup(ob.cls, '__setitem__')), o), Args([k, x]))
            return
    raise Unsupported(f'item assignment on {o!r}')


def delitem(I, o, k):
    if isinstance(o, Ref) and isinstance(I.get(o), DictO):
        method(I, o, 'pop', Args([k]))
        return
    raise Unsupported('del item')


def getitem(I, o, k):
    p = I.p
    if isinstance(k, SliceV):
        return slice_of(I, o, k)
    if isinstance(o, Con):
        if isinstance(o.obj, collections.defaultdict) and isinstance(k, Con):
            raise Unsupported('defaultdict')
        if isinstance(o.obj, dict):
            return const_lookup(I, o.obj, k)
        if isinstance(o.obj, (tuple, list, str)):
            if isinstance(k, Con):
                try:
                    return I.lift(o.obj[k.obj])
                except (IndexError, TypeError) as e:
                    I.throw(type(e))
            return getitem(I, TupV([I.lift(x) for x in o.obj]), k)
        h = I.ex.handlers.get(('getitem', id(o.obj)))
        if h is not None:
            return h(I, k)
        if isinstance(k, Con):
            return I.lift(o.obj[k.obj])
        raise Unsupported(f'item of {o!r}')
    if isinstance(o, TupV):
        return list_item(I, list(o.items), k)
    if isinstance(o, SeqV):
        return seq_item(I, o.seq, o.elem, k)
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, ListO):
            return list_item(I, ob.items, k) if ob.items is not None else seq_item(I, ob.seq, ob.elem, k)
        if isinstance(ob, DictO):
            r = dict_get(I, o, k)
            if r is None:
                if isinstance(ob.velem, Val) and ob.cls is collections.defaultdict:
                    x = I.call(ob.velem, Args())
                    setitem(I, o, k, x)
                    return x
                I.throw(KeyError)
            return r
        if I.named_tuple(o) is not None:
            return getitem(I, I.named_tuple(o), k)
        if isinstance(ob, ObjO) and isinstance(ob.cls, type) and mro_lookup(ob.cls, '__getitem__'):
            return I.call(BoundV(I.lift(mro_lookup(ob.cls, '__getitem__')), o), Args([k]))
    if isinstance(o, Sym):
        if isinstance(o.cls, type) and issubclass(o.cls, (dict, collections.abc.Mapping)):
            r = dict_get(I, o, k)
            if r is None:
                if p.choose(2):
                    # it may make up a value, and keep it, as a defaultdict does
                    p.set_world(p.fresh('w', W))
                    return p.unbox(uf('__missing__', V, V, V)(o.t, p.box(k)))
                I.throw(KeyError)
            return r
        if isinstance(o.cls, type) and issubclass(o.cls, (list, tuple)):
            return seq_item(I, seqof(o.t), I.ex.__dict__.get('elem_kinds', {}).get(o.t.get_id()), k)
        if o.cls == 'pair' and isinstance(k, Con):
            return Sym(item(o.t, k.obj % 2))
        # an unknown container
        kt = p.box(k)
        if not p.branch(uf('contains', V, V, B)(o.t, kt)):
            I.throw(KeyError)
        return p.unbox(uf('getitem', V, V, V)(o.t, kt))
    raise Unsupported(f'item of {o!r}')


def list_item(I, items, k):
    p = I.p
    if isinstance(k, Con):
        try:
            return items[k.obj]
        except (IndexError, TypeError) as e:
            I.throw(type(e))
    if isinstance(k, SInt):
        for j in range(len(items)):
            if p.branch(z3.Or(k.t == j, k.t == j - len(items))):
                return items[j]
        I.throw(IndexError)
    raise Unsupported('index')


def seq_item(I, s, elem, k):
    p = I.p
    if isinstance(k, (Con, SInt, Sym)):
        i = as_int(I, k)
        n = z3.Length(s)
        if p.branch(z3.And(i >= 0, i < n)):
            return p.unbox(s[z3.simplify(i)], elem)
        if p.branch(z3.And(i < 0, i >= -n)):
            return p.unbox(s[z3.simplify(n + i)], elem)
        I.throw(IndexError)
    raise Unsupported('index')


def slice_of(I, o, sl):
    p = I.p
    if sl.step is not None:
        if isinstance(sl.step, Con) and sl.step.obj == -1 and sl.lo is None and sl.hi is None:
            return make_reversed(I, o, keep_type=True)
        raise Unsupported('slice step')
    if isinstance(o, Con) and isinstance(o.obj, (tuple, list)):
        o = TupV([I.lift(x) for x in o.obj])
    con = (sl.lo is None or isinstance(sl.lo, Con)) and (sl.hi is None or isinstance(sl.hi, Con))
    lo_, hi_ = (sl.lo.obj if sl.lo is not None and con else None), (sl.hi.obj if sl.hi is not None and con else None)
    if isinstance(o, TupV):
        if con:
            return TupV(o.items[lo_:hi_])
        o = SeqV(seq(*map(p.box, o.items)))
    if isinstance(o, Ref) and isinstance(I.get(o), ListO):
        ob = I.get(o)
        if ob.items is not None and con:
            return I.alloc('list', ListO(items=ob.items[lo_:hi_]))
        s = subseq(I, I.list_seq(ob), sl)
        return I.alloc('list', ListO(seq=s, elem=ob.elem))
    if isinstance(o, SeqV):
        return SeqV(subseq(I, o.seq, sl), o.elem)
    if isinstance(o, Sym):
        if isinstance(o.cls, type) and issubclass(o.cls, (tuple, list)):
            return slice_sym(I, o, sl)
        if not p.branch(uf('sliceable', V, B)(o.t)):
            I.throw(TypeError)
        return slice_sym(I, o, sl)
    raise Unsupported(f'slice of {o!r}')


def slice_sym(I, o, sl):
    """a slice of a sequence of unknown type: some iterable of the elements in that range"""
    return SeqV(subseq(I, seqof(o.t), sl))


def subseq(I, s, sl):
    n = z3.Length(s)

    def at(v, d):
        if v is None:
            return d
        i = as_int(I, v)
        i = z3.If(i < 0, z3.If(n + i < 0, z3.IntVal(0), n + i), z3.If(i > n, n, i))
        return z3.simplify(i)
    lo, hi = at(sl.lo, z3.IntVal(0)), at(sl.hi, n)
    I.p.assume(n >= 0)
    # decide the easy comparisons once, to keep terms small
    p = I.p
    lo, hi = tidy(p, lo, n), tidy(p, hi, n)
    return z3.SubSeq(s, lo, z3.simplify(z3.If(hi < lo, z3.IntVal(0), hi - lo)) if not p.implied(lo <= hi)
                     else z3.simplify(hi - lo))


def tidy(p, i, n):
    """drop the conditionals of a clamped index where they are known"""
    while z3.is_app_of(i, z3.Z3_OP_ITE):
        c, a, b = i.children()
        if p.implied(c):
            i = a
        elif p.implied(z3.Not(c)):
            i = b
        else:
            break
    return i


def dict_get(I, d, k):
    """the value at the key, or None after deciding that the key is missing"""
    p = I.p
    if isinstance(d, Con):
        try:
            return const_lookup(I, d.obj, k)
        except PyRaise as r:
            if I.exc_matches(r.value, Con(KeyError)) is not True:
                raise
            return None
    if isinstance(d, Ref):
        o = I.get(d)
        if o.items is not None:
            kk = key_of(k)
            if kk is not None and all(isinstance(q, (str, type, enum.Enum)) for q in o.items):
                return o.items.get(kk[0])
            if not o.items:
                return None
            o = I.dict_sym(d)
        dom, mp, velem = o.dom, o.map, o.velem
    else:
        dom, mp, velem = dictdom(d.t), dictmap(d.t), I.ex.__dict__.get('elem_kinds', {}).get(d.t.get_id())
    key = p.box(k)
    if not p.branch(dom[key]):
        return None
    return p.unbox(mp[key], velem if not isinstance(velem, Val) else None)


def const_lookup(I, d, k):
    p = I.p
    if isinstance(k, Con):
        try:
            if k.obj in d:
                return I.lift(d[k.obj])
        except TypeError:
            I.throw(TypeError)
        I.throw(KeyError)
    t = p.box(k)
    if I.ex.__dict__.get('unhashable_keys') and isinstance(k, Sym) and k.cls is None:
        if not p.branch(uf('hashable', V, B)(t)):
            I.throw(TypeError)
    for q, x in d.items():
        if p.branch(t == p.const(q)):
            return I.lift(x)
    I.throw(KeyError)


def contains(I, c, x):
    """x in c"""
    p = I.p
    if isinstance(c, Con):
        if isinstance(c.obj, str):
            if isinstance(x, Con):
                return x.obj in c.obj
            return uf('contains', V, V, B)(p.box(c), p.box(x))
        if isinstance(x, Con):
            return x.obj in c.obj
        if isinstance(c.obj, (dict, set, frozenset, tuple, list)):
            t = p.box(x)
            return z3.Or(*[same_or_eq(I, Con(q), x) for q in c.obj]) if len(c.obj) else False
    d = set_dom(I, c)
    if d is not None:
        return d[p.box(x)]
    if isinstance(c, TupV) or isinstance(c, Ref) and isinstance(I.get(c), ListO) and I.get(c).items is not None:
        items = c.items if isinstance(c, TupV) else I.get(c).items
        return z3.Or(*[zbool(same_or_eq(I, y, x)) for y in items]) if items else False
    if isinstance(c, SeqV):
        return in_seq(I, p.box(x), c.seq)
    if isinstance(c, Ref) and isinstance(I.get(c), ListO):
        return in_seq(I, p.box(x), I.get(c).seq)
    if isinstance(c, Ref) and isinstance(I.get(c), ObjO) and isinstance(I.get(c).cls, type):
        m = mro_lookup(I.get(c).cls, '__contains__')
        if m:
            return truth(I, I.call(BoundV(I.lift(m), c), Args([x])))
    if isinstance(c, Sym):
        return uf('contains', V, V, B)(c.t, p.box(x))
    if isinstance(c, DictView) and c.what == 'values':
        raise Unsupported('in values')
    raise Unsupported(f'in {c!r}')


def zbool(x): return z3.BoolVal(x) if isinstance(x, bool) else x


def same_or_eq(I, a, b):
    """the element test of `in`: identity or equality"""
    s = is_same(I, a, b)
    if s is True:
        return z3.BoolVal(True)
    e = equal(I, a, b)
    return z3.simplify(z3.Or(zbool(s), zbool(e)))


def is_same(I, a, b):
    """a is b"""
    p = I.p
    if isinstance(a, Con) and isinstance(b, Con):
        return a.obj is b.obj or type(a.obj) is type(b.obj) is int and a.obj == b.obj or \
            type(a.obj) is type(b.obj) is str and a.obj == b.obj
    if isinstance(a, Ref) and isinstance(b, Ref):
        return a.id == b.id
    if isinstance(a, Ref) and isinstance(b, Con) or isinstance(a, Con) and isinstance(b, Ref):
        return False
    if a is b:
        return True
    if isinstance(a, SInt) and isinstance(b, SInt) and a.enum is b.enum:
        return a.t == b.t
    if isinstance(a, SInt) and a.enum and isinstance(b, Con):
        return a.t == int(b.obj) if type(b.obj) is a.enum else False
    if isinstance(b, SInt) and b.enum and isinstance(a, Con):
        return is_same(I, b, a)
    if isinstance(a, SBool) and isinstance(b, Con):
        return a.t == b.obj if isinstance(b.obj, bool) else False
    if isinstance(b, SBool) and isinstance(a, Con):
        return is_same(I, b, a)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (FuncV, BoundV, NativeV, PartialV, TupV, SeqV)) and isinstance(y, Con):
            return isinstance(x, FuncV) and x.live is not None and x.live is y.obj
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SReal) and isinstance(y, Con):
            return False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Sym) and isinstance(y, Con) and (x.cls == 'pair' or isinstance(x.cls, type) and
                                                          not isinstance(y.obj, x.cls)):
            return x.cls == 'pair' and isinstance(y.obj, tuple) and len(y.obj) == 2 and p.box(x) == p.box(y)
    if isinstance(a, Val) and isinstance(b, Val):
        if isinstance(a, (TupV, SeqV)) or isinstance(b, (TupV, SeqV)):
            if isinstance(a, (TupV, SeqV)) and isinstance(b, (TupV, SeqV)):
                return False
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Ref) and isinstance(y, Sym) and x.id not in p.given and not p.havocked and \
                    z3.Const(f'ref:{x.id}', V).get_id() not in p.boxed:
                return False  # made by the code under contract, which did not show it to anyone
        ta, tb = p.box(a), p.box(b)
        return ta == tb
    raise Unsupported('is')


def equal(I, a, b):
    """a == b, as a condition"""
    p = I.p
    if isinstance(a, Con) and isinstance(b, Con):
        return bool(a.obj == b.obj)
    if isinstance(a, (SInt, Con)) and isinstance(b, (SInt, Con)):
        x, y = num(a), num(b)
        if x is not None and y is not None:
            return x == y
        if isinstance(a, SInt) or isinstance(b, SInt):
            c = a if isinstance(a, Con) else b
            if c.obj == float('inf') or not isinstance(c.obj, (int, float)):
                return False
    if isinstance(a, SReal) and isinstance(b, SReal):
        return a.t == b.t
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SReal) and isinstance(y, Con) and isinstance(y.obj, (int, float)):
            return x.t == z3.RealVal(repr(y.obj))
    if isinstance(a, SBool) and isinstance(b, SBool):
        return a.t == b.t
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SBool) and isinstance(y, Con):
            if isinstance(y.obj, (bool, int)):
                return x.t if y.obj == 1 else z3.Not(x.t) if y.obj == 0 else False
            return False
    # singletons and classes compare by identity
    for x, y in ((a, b), (b, a)):
        if isinstance(y, Con) and (y.obj is None or isinstance(y.obj, (enum.Enum, str))
                                   or isinstance(y.obj, type) and type(y.obj).__eq__ is type.__eq__):
            if isinstance(x, Sym) and (x.cls is None or x.cls is type or isinstance(y.obj, str) and x.cls is str
                                       or isinstance(y.obj, enum.Enum)):
                if x.cls is None and not getattr(I.ex, 'std_eq', True):
                    break
                return x.t == p.box(y)
            if isinstance(x, (Ref, FuncV, BoundV, NativeV, TupV, SeqV)):
                return is_same(I, x, y)
    if isinstance(a, Sym) and isinstance(b, Sym) and a.cls in (type, str) and b.cls in (type, str):
        return a.t == b.t
    if isinstance(a, Ref) and isinstance(b, Ref):
        oa, ob = I.get(a), I.get(b)
        if isinstance(oa, ClassO) and isinstance(ob, ClassO):
            return a.id == b.id
        if isinstance(oa, ListO) and isinstance(ob, ListO):
            return list_eq(I, I.list_seq(oa), I.list_seq(ob))
        if isinstance(oa, DictO) and isinstance(ob, DictO):
            if oa.items == {} or ob.items == {}:
                return z3.Not(zbool(truth(I, a if ob.items == {} else b)))
    if isinstance(a, (TupV, SeqV)) and isinstance(b, (TupV, SeqV)):
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return False
            return z3.And(*[zbool(same_or_eq(I, x, y)) for x, y in zip(a.items, b.items)])
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SeqV) and isinstance(y, TupV):
                return z3.And(z3.Length(x.seq) == len(y.items), *[
                    zbool(same_or_eq(I, p.unbox(x.seq[k], x.elem), v)) for k, v in enumerate(y.items)])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (TupV, SeqV)) and isinstance(y, Con):
            if y.obj == () and type(y.obj) is tuple:
                return z3.Not(zbool(truth(I, x)))
            if not isinstance(y.obj, tuple):
                return False
            if type(y.obj) is tuple:
                items = x.items if isinstance(x, TupV) else [p.unbox(x.seq[k], x.elem) for k in range(len(y.obj))]
                if len(items) != len(y.obj):
                    return False
                size = z3.BoolVal(True) if isinstance(x, TupV) else z3.Length(x.seq) == len(items)
                return z3.And(size, *[zbool(same_or_eq(I, v, I.lift(w))) for v, w in zip(items, y.obj)])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and isinstance(I.get(x), ClassO) and isinstance(y, (Sym, Con)):
            return is_same(I, x, y)
    for x, y in ((a, b), (b, a)):
        if isinstance(x, Ref) and isinstance(I.get(x), ListO):
            raise Unsupported('list equality')
    if isinstance(a, Ref) and isinstance(I.get(a), ObjO) and isinstance(I.get(a).cls, type):
        m = mro_lookup(I.get(a).cls, '__eq__')
        if isinstance(m, types.FunctionType):
            return truth(I, I.call(BoundV(I.lift(m), a), Args([b])))
    if isinstance(a, Con) and type(a.obj).__module__.startswith('records'):
        m = mro_lookup(type(a.obj), '__eq__')
        if isinstance(m, types.FunctionType):
            return truth(I, I.call(BoundV(I.lift(m), a), Args([b])))
        if m is object.__eq__:
            return is_same(I, a, b)
    ta, tb = p.box(a), p.box(b)
    p.assume(pyeq(ta, tb) == pyeq(tb, ta))
    return pyeq(ta, tb)


def in_seq(I, x, s):
    f = uf('inseq', V, SV, B)(x, s)
    define(I.p, f, lambda i, rec: z3.And(i < z3.Length(s), z3.Or(same_item(s[i], x), rec)), z3.Length(s))
    return f


def list_eq(I, s, t):
    """lists are equal if they have equal elements"""
    f = uf('seq_eq', SV, SV, B)(s, t)

    def at(i, rec):
        return z3.If(i >= z3.Length(s), i >= z3.Length(t), z3.And(i < z3.Length(t), same_item(s[i], t[i]), rec))
    define(I.p, f, at, z3.If(z3.Length(s) < z3.Length(t), z3.Length(s), z3.Length(t)))
    return f


def same_item(x, y): return z3.Or(x == y, pyeq(x, y))


def define(p, f, at, n):
    """f is at(0, at(1, ...)) of n elements: known in full where counterexamples are looked for, and else vague"""
    if not p.ex.unroll:
        return p.vague()
    key = 'defined', f.get_id()
    if key in p.__dict__.setdefault('unfolded', {}):
        return
    p.unfolded[key] = 0, f
    k = p.ex.unroll + 2
    p.assume(n <= k)
    r = z3.BoolVal(False)
    for i in range(k, -1, -1):
        r = at(z3.IntVal(i), r)
    p.assume(f == r)


def num(v):
    if isinstance(v, SInt):
        return v.t
    if isinstance(v, Con) and isinstance(v.obj, int):
        return z3.IntVal(int(v.obj))
    return None


def subset(a, b):
    return z3.IsSubset(a, b)


def compare(I, op, a, b):
    p = I.p

    def ret(x): return Con(x) if isinstance(x, bool) else SBool(x)
    if isinstance(op, ast.Is):
        return ret(is_same(I, a, b))
    if isinstance(op, ast.IsNot):
        c = is_same(I, a, b)
        return ret(not c if isinstance(c, bool) else z3.Not(c))
    if isinstance(op, ast.Eq):
        return ret(equal(I, a, b))
    if isinstance(op, ast.NotEq):
        c = equal(I, a, b)
        return ret(not c if isinstance(c, bool) else z3.Not(c))
    if isinstance(op, ast.In):
        return ret(contains(I, b, a))
    if isinstance(op, ast.NotIn):
        c = contains(I, b, a)
        return ret(not c if isinstance(c, bool) else z3.Not(c))
    sym = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[type(op)]
    return ret(order(I, sym, a, b))


PYOPS = {'<': lambda a, b: a < b, '<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
MIRROR = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}
DUNDER = {'<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}


def order(I, op, a, b):
    p = I.p
    if isinstance(a, Con) and isinstance(b, Con):
        try:
            return bool(PYOPS[op](a.obj, b.obj))
        except TypeError:
            I.throw(TypeError)
    # user-level ordering methods of the package's own classes
    for x, y, o in ((a, b, op), (b, a, MIRROR[op])):
        if isinstance(x, Con) and type(x.obj).__module__.startswith('records') and not isinstance(x.obj, enum.Enum):
            m = mro_lookup(type(x.obj), DUNDER[o])
            if isinstance(m, types.FunctionType):
                return truth(I, I.call(BoundV(I.lift(m), x), Args([y])))
    x, y = num(a), num(b)
    if x is not None and y is not None:
        return PYOPS[op](x, y)
    for u, v, o in ((a, b, op), (b, a, MIRROR[op])):
        if isinstance(u, SInt) and isinstance(v, Con) and v.obj == float('inf'):
            return o in ('<', '<=')
    if isinstance(a, SReal) or isinstance(b, SReal):
        u, v = real(a), real(b)
        if u is not None and v is not None:
            return PYOPS[op](u, v)
    sa, sb = set_dom(I, a), set_dom(I, b)
    if sa is not None and sb is not None:
        if op == '<=':
            return subset(sa, sb)
        if op == '>=':
            return subset(sb, sa)
        return z3.And(subset(sa, sb) if op == '<' else subset(sb, sa), sa != sb)
    if isinstance(a, Ref) and isinstance(b, Ref) and isinstance(I.get(a), ListO) and isinstance(I.get(b), ListO):
        return list_order(I, op, I.list_seq(I.get(a)), I.list_seq(I.get(b)))
    if isinstance(a, (TupV, SeqV)) and isinstance(b, (TupV, SeqV)):
        return list_order(I, op, *[seq(*map(p.box, x.items)) if isinstance(x, TupV) else x.seq for x in (a, b)])
    if isinstance(a, Sym) or isinstance(b, Sym):
        return uf('py' + op, V, V, B)(p.box(a), p.box(b))
    raise Unsupported(f'{a!r} {op} {b!r}')


def list_order(I, op, s, t):
    """python's lexicographic comparison of two lists, as an uninterpreted relation of their contents"""
    f = uf('lex' + op, SV, SV, B)(s, t)
    ls, lt = z3.Length(s), z3.Length(t)
    end = {'<': ls < lt, '<=': ls <= lt, '>': ls > lt, '>=': ls >= lt}.get(op)
    if end is None:
        I.p.vague()
        return f

    def at(i, rec):
        return z3.If(z3.Or(i >= ls, i >= lt), end, z3.If(same_item(s[i], t[i]), rec, uf('py' + op, V, V, B)(s[i], t[i])))
    define(I.p, f, at, z3.If(ls < lt, ls, lt))
    return f


def real(v):
    if isinstance(v, SReal):
        return v.t
    if isinstance(v, Con) and isinstance(v.obj, (int, float)) and not isinstance(v.obj, bool) and v.obj == v.obj and \
            abs(v.obj) != float('inf'):
        return z3.RealVal(repr(v.obj))
    if isinstance(v, SInt):
        return z3.ToReal(v.t)
    return None


OPNAME = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Mod: '%', ast.FloorDiv: '//', ast.Div: '/',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.Pow: '**', ast.LShift: '<<', ast.RShift: '>>'}


def binop(I, op, a, b, inplace=False):
    p = I.p
    o = OPNAME.get(type(op))
    if isinstance(a, Con) and isinstance(b, Con) and not (inplace and isinstance(a.obj, (list, dict, set))):
        try:
            return Con({'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
                        '%': lambda x, y: x % y, '//': lambda x, y: x // y, '/': lambda x, y: x / y,
                        '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y,
                        '**': lambda x, y: x ** y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}[o](a.obj, b.obj))
        except (TypeError, ZeroDivisionError) as e:
            I.throw(type(e))
    x, y = num(a), num(b)
    if x is not None and y is not None and o in '+-*':
        return SInt(z3.simplify({'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[o]()))
    if x is not None and y is not None and o in ('//', '%') and z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
        return SInt(x / y if o == '//' else x % y)
    if isinstance(a, SReal) or isinstance(b, SReal):
        u, v = real(a), real(b)
        if u is not None and v is not None:
            if o in '+-*':
                return SReal({'+': lambda: u + v, '-': lambda: u - v, '*': lambda: u * v}[o]())
            if o == '%':
                if p.branch(v == 0):
                    I.throw(ZeroDivisionError)
                return SReal(floored(p, u, v)[1])
            if o == '//':
                if p.branch(v == 0):
                    I.throw(ZeroDivisionError)
                return SReal(z3.ToReal(floored(p, u, v)[0]))
    sa, sb = set_dom(I, a), set_dom(I, b)
    if sa is not None and sb is not None and o in '&|-^':
        d = {'&': z3.SetIntersect, '|': z3.SetUnion, '-': z3.SetDifference,
             '^': lambda u, v: z3.SetUnion(z3.SetDifference(u, v), z3.SetDifference(v, u))}[o](sa, sb)
        if is_mapping(I, a) and is_mapping(I, b) and o == '|':
            r = I.alloc('dict', DictO(items={}))
            dict_update(I, r, a)
            dict_update(I, r, b)
            return r
        if inplace and isinstance(a, Ref) and isinstance(I.get(a), SetO):
            I.put(a, SetO(dom=d, elem=None, cls=I.get(a).cls))
            return a
        return I.alloc('set', SetO(dom=d, cls=set))
    if o == '+':
        if isinstance(a, Ref) and isinstance(I.get(a), ListO):
            if inplace:
                list_extend(I, a, b)
                return a
            r = I.alloc('list', I.get(a))
            list_extend(I, r, b)
            return r
        if isinstance(a, (TupV, SeqV)) or isinstance(b, (TupV, SeqV)):
            u, v = as_tuple(I, a), as_tuple(I, b)
            if u is not None and v is not None:
                return I.make_tuple(I.star_parts(u) + I.star_parts(v))
        if isinstance(a, Sym) and a.cls is str or isinstance(b, Sym) and b.cls is str:
            if p.__dict__.get('exact_texts') and all(
                    isinstance(x, Sym) and x.cls is str or isinstance(x, Con) and isinstance(x.obj, str) for x in (a, b)):
                return I.text([a, b], [(a, ''), (b, '')])
            p.vague()
            t = uf('strcat', V, V, V)(p.box(a), p.box(b))
            p.__dict__.setdefault('texts', {})[t.get_id()] = t, [a, b], None
            return Sym(t, str)
    if o == '|' and inplace and isinstance(a, Ref) and isinstance(I.get(a), DictO):
        dict_update(I, a, b)
        return a
    if isinstance(a, Sym) or isinstance(b, Sym):
        if o == '%' and isinstance(a, Con) and isinstance(a.obj, str):
            return I.text([b], percent(a.obj, [b]) if isinstance(b, Sym) and b.cls is str else None)
        ta, tb = p.box(a), p.box(b)
        if o == '&' and isinstance(a, (Sym, Ref, Con)):
            if set_dom(I, a) is not None:
                # a set and a container that may not be a set
                if not p.branch(isinst(tb, p.const(collections.abc.Set))):
                    I.throw(TypeError)
                return I.alloc('set', SetO(dom=z3.SetIntersect(set_dom(I, a), setdom(tb))))
        ok = uf('binop_ok ' + o, V, V, B)(ta, tb)
        if not p.branch(ok):
            I.throw(TypeError)
        return p.unbox(uf('binop ' + o, V, V, V)(ta, tb))
    if o == '%' and isinstance(a, Con) and isinstance(a.obj, str) and isinstance(b, TupV):
        return I.text([b], percent(a.obj, b.items))
    raise Unsupported(f'{a!r} {o} {b!r}')


def percent(template, items):
    """the pieces of template % items"""
    parts = re.split('(%[^%])', template)
    if '%' in ''.join(parts[::2]) or len(parts) // 2 != len(items) or set(parts[1::2]) - {'%s', '%r'}:
        return None
    out = parts[:1]
    for d, x, s in zip(parts[1::2], items, parts[2::2]):
        out += [(x, 'r' if d == '%r' else ''), s]
    return out


def formatted(template, a):
    """the pieces of template.format(...)"""
    out, n = [], 0
    try:
        for s, name, spec, conv in string.Formatter().parse(template):
            out.append(s)
            if name is None:
                continue
            if spec or conv not in (None, 's', 'r'):
                return None
            x = a.pos[int(name or n)] if name.isdigit() or not name else a.kw[name]
            n += not name
            if not isinstance(x, Val):
                return None
            out.append((x, 'r' if conv == 'r' else ''))
    except (KeyError, IndexError, ValueError):
        return None
    return out


def decompose(p, x, k, f):
    """x is the whole k and the fraction 0 <= f < 1"""
    p.assume(z3.And(x == z3.ToReal(k) + f, 0 <= f, f < 1))
    p.__dict__.setdefault('decomposed', []).append((x, k, f))


def decomposition(p, x):
    for y, k, f in p.__dict__.get('decomposed', ()):
        if y.eq(x):
            return k, f
    return None


def floored(p, u, v):
    """(q, r) with u = q * v + r for a whole q, and r between 0 and v"""
    if z3.is_rational_value(v) and v.as_fraction() == 1:
        kf = decomposition(p, u)
        if kf is not None:
            return kf
    q, r = p.fresh('q', core.I), p.fresh('r', R)
    p.assume(z3.And(u == z3.ToReal(q) * v + r, z3.If(v > 0, z3.And(0 <= r, r < v), z3.And(v < r, r <= 0))))
    p.__dict__.setdefault('quotients', []).append(q)
    return q, r


def as_tuple(I, v):
    if isinstance(v, (TupV, SeqV)):
        return v
    if isinstance(v, Con) and isinstance(v.obj, tuple):
        return TupV([I.lift(x) for x in v.obj])
    if isinstance(v, Sym) and v.cls is tuple:
        return SeqV(seqof(v.t))
    return None


def unop(I, op, v):
    if isinstance(v, Con):
        return Con({ast.USub: lambda x: -x, ast.UAdd: lambda x: +x, ast.Invert: lambda x: ~x}[type(op)](v.obj))
    if isinstance(v, SInt) and isinstance(op, ast.USub):
        return SInt(z3.simplify(-v.t))
    if isinstance(v, SReal) and isinstance(op, ast.USub):
        return SReal(-v.t)
    raise Unsupported('unary operator')


# ---------------------------------------------------------------- calls

def call(I, f, a):
    p = I.p
    if isinstance(f, FuncV):
        return I.call_function(f, a)
    if isinstance(f, BoundV):
        return call(I, f.func, Args([f.self] + a.pos, a.kw, a.maps))
    if isinstance(f, NativeV):
        return f.fn(I, a)
    if isinstance(f, PartialV):
        return call(I, f.func, Args(list(f.args) + a.pos, {**f.kwargs, **a.kw}, a.maps))
    if isinstance(f, MethodV):
        return method(I, f.self, f.name, a)
    if isinstance(f, Con):
        return call_con(I, f.obj, a)
    if isinstance(f, Sym):
        h = I.ex.handlers.get(('call', f.cls))
        if h is not None:
            return h(I, f, a)
        return I.opaque_call(f.t, a)
    if isinstance(f, Ref):
        o = I.get(f)
        if isinstance(o, ClassO):
            h = I.ex.handlers.get('construct')
            if h is not None:
                return h(I, f, a)
            return I.opaque_call(p.box(f), a)
        if isinstance(o, ObjO):
            if isinstance(o.cls, type):
                m = mro_lookup(o.cls, '__call__')
                if m is not None:
                    return call(I, I.lift(m), Args([f] + a.pos, a.kw, a.maps))
            else:
                return I.opaque_call(p.box(f), a)
        I.throw(TypeError)
    raise Unsupported(f'call of {f!r}')


def call_con(I, obj, a):
    p = I.p
    h = I.ex.handlers.get(('con', id(obj))) or isinstance(obj, types.FunctionType) and I.ex.handlers.get(obj.__code__)
    if h:
        return h(I, a)
    try:
        fn = BUILTINS.get(obj)
    except TypeError:
        fn = None
    if fn is not None:
        if a.maps or any(isinstance(x, Star) for x in a.pos):
            # a symbolic number of arguments
            pass
        return fn(I, a)
    if isinstance(obj, type):
        return construct(I, obj, a)
    if isinstance(obj, types.BuiltinMethodType) and isinstance(obj.__self__, type):
        raise Unsupported(f'call of {obj!r}')
    if isinstance(obj, functools.partial):
        return call(I, I.lift(obj.func), Args([I.lift(x) for x in obj.args] + a.pos,
                                              {**{k: I.lift(x) for k, x in obj.keywords.items()}, **a.kw}, a.maps))
    if isinstance(obj, types.MethodType):
        return call(I, I.lift(obj.__func__), Args([I.lift(obj.__self__)] + a.pos, a.kw, a.maps))
    if type(obj).__module__.startswith('records'):
        m = mro_lookup(type(obj), '__call__')
        if m is not None:
            return call(I, I.lift(m), Args([Con(obj)] + a.pos, a.kw, a.maps))
    raise Unsupported(f'call of {obj!r}')


def construct(I, cls, a):
    p = I.p
    if issubclass(cls, BaseException):
        if a.maps:
            raise Unsupported('exception with keywords')
        return I.alloc(cls.__name__, ObjO(cls, {'args': I.make_tuple(a.pos)}))
    h = I.ex.handlers.get(('new', cls))
    if h is not None:
        return h(I, a)
    if hasattr(cls, '_fields') and issubclass(cls, tuple):
        vals = dict(zip(cls._fields, a.pos))
        vals.update(a.kw)
        for k, d in getattr(cls, '_field_defaults', {}).items():
            vals.setdefault(k, I.lift(d))
        if set(vals) != set(cls._fields) or len(a.pos) + len(a.kw) > len(cls._fields):
            I.throw(TypeError)
        return I.alloc(cls.__name__, ObjO(cls, vals))
    if issubclass(cls, dict) and cls.__module__.startswith('records'):
        return b_dict(I, a, cls)
    if issubclass(cls, enum.Enum):
        return p_enum(I, cls, a)
    if cls.__module__.startswith('records'):
        if getattr(cls, '__abstractmethods__', None):
            I.throw(TypeError)
        new = mro_lookup(cls, '__new__')
        if isinstance(new, staticmethod):
            raise Unsupported('__new__')
        r = I.alloc(cls.__name__, ObjO(cls, {}))
        init = mro_lookup(cls, '__init__')
        if isinstance(init, types.FunctionType):
            call(I, I.lift(init), Args([r] + a.pos, a.kw, a.maps))
        elif a.pos or a.kw or a.maps:
            if a.maps and not a.pos and not a.kw:
                for dom, _ in a.maps:
                    if p.branch(dom != EMPTY_DOM):
                        I.throw(TypeError)
            else:
                I.throw(TypeError)
        return r
    if cls is object:
        return I.alloc('object', ObjO(object, {}))
    if cls in (float, complex, bytes) and not a.maps and all(
            isinstance(x, Con) and isinstance(x.obj, (str, int, float, bytes)) for x in [*a.pos, *a.kw.values()]):
        try:
            return Con(cls(*[x.obj for x in a.pos], **{k: x.obj for k, x in a.kw.items()}))
        except Exception as e:
            I.throw(type(e))
    raise Unsupported(f'construct {cls!r}')


def p_enum(I, cls, a):
    if isinstance(a.pos[0], Con):
        return Con(cls(a.pos[0].obj))
    if isinstance(a.pos[0], SInt) and issubclass(cls, int):
        return SInt(a.pos[0].t, cls)
    raise Unsupported('enum')


def arg(a, i, name=None, default=None):
    if i < len(a.pos):
        if isinstance(a.pos[i], Star):
            raise Unsupported('star argument')
        return a.pos[i]
    if name is not None and name in a.kw:
        return a.kw[name]
    return default


BUILTINS = {}


def builtin(*objs):
    def deco(f):
        for o in objs:
            BUILTINS[o] = f
        return f
    return deco


@builtin(len)
def b_len(I, a): return length(I, a.pos[0])


@builtin(isinstance)
def b_isinstance(I, a):
    v, c = a.pos
    return ret_bool(isinst_any(I, v, c))


def ret_bool(x):
    if isinstance(x, bool):
        return Con(x)
    s = z3.simplify(x)
    if z3.is_true(s) or z3.is_false(s):
        return Con(z3.is_true(s))
    return SBool(x)


def isinst_any(I, v, c):
    p = I.p
    if isinstance(c, TupV):
        return z3.Or(*[zbool(isinst_any(I, v, x)) for x in c.items]) if c.items else False
    if isinstance(c, Con) and isinstance(c.obj, tuple):
        return isinst_any(I, v, TupV([Con(x) for x in c.obj]))
    if isinstance(c, Con) and isinstance(c.obj, typing._SpecialGenericAlias):
        # typing.Mapping and the like
        c = Con(c.obj.__origin__)
    if isinstance(c, Con):
        if not isinstance(c.obj, type):
            try:
                isinstance(None, c.obj)
            except TypeError:
                I.throw(TypeError)
            return isinst(p.box(v), p.const(c.obj))
        return I.isinst(v, c.obj)
    if isinstance(c, Ref) and isinstance(I.get(c), ClassO):
        if isinstance(v, Ref) and isinstance(I.get(v), ObjO) and I.get(v).cls == c:
            return True
        if isinstance(v, Ref) and isinstance(I.get(v), ObjO) and isinstance(I.get(v).cls, Ref) and \
                I.get(v).cls.id == c.id:
            return True
        return I.isinst_term(v, p.box(c))
    if isinstance(c, Sym):
        h = I.ex.handlers.get('classlike')
        if not (isinstance(c.cls, type) and issubclass(c.cls, type) or h is not None and h(I, c.t)):
            # not everything may be used as the second argument
            if not p.branch(uf('classlike', V, B)(c.t)):
                I.throw(TypeError)
        return I.isinst_term(v, c.t)
    if isinstance(c, SeqV):
        return isinst(p.box(v), uf('anyof', SV, V)(c.seq))
    raise Unsupported('isinstance')


@builtin(issubclass)
def b_issubclass(I, a):
    p = I.p
    v, c = a.pos
    if isinstance(v, Con) and isinstance(c, Con):
        try:
            return Con(issubclass(v.obj, c.obj))
        except TypeError:
            I.throw(TypeError)
    if isinstance(c, TupV):
        return ret_bool(z3.Or(*[zbool(truth(I, b_issubclass(I, Args([v, x])))) for x in c.items]))
    if isinstance(v, Ref) and isinstance(I.get(v), ClassO):
        if isinstance(c, Con):
            if issubclass(I.get(v).cls, c.obj):
                return Con(True)
        if isinstance(c, Ref) and c.id == v.id:
            return Con(True)
    tv, tc = p.box(v), p.box(c)
    if isinstance(v, Sym) and v.cls is not type and not p.implied(isinst(tv, p.const(type))):
        if not p.branch(I.isinst(v, type)):
            I.throw(TypeError)
    f = uf('issub', V, V, B)(tv, tc)
    p.assume(z3.Implies(tv == tc, f))
    if isinstance(c, Con) and isinstance(c.obj, type):
        # transitivity among known classes
        asked = p.__dict__.setdefault('subq', {}).setdefault(tv.get_id(), {})
        for q, g in asked.items():
            if issubclass(q, c.obj):
                p.assume(z3.Implies(g, f))
            if issubclass(c.obj, q):
                p.assume(z3.Implies(f, g))
        asked[c.obj] = f
        p.keep = getattr(p, 'keep', [])
        p.keep.append(tv)
    return SBool(f)


@builtin(type)
def b_type(I, a):
    if len(a.pos) != 1:
        raise Unsupported('type()')
    return type_of(I, a.pos[0])


@builtin(callable)
def b_callable(I, a):
    v = a.pos[0]
    if isinstance(v, Con):
        return Con(callable(v.obj))
    if isinstance(v, (FuncV, BoundV, NativeV, PartialV, MethodV)):
        return Con(True)
    if isinstance(v, Ref):
        o = I.get(v)
        if isinstance(o, ClassO):
            return Con(True)
        if isinstance(o, ObjO) and isinstance(o.cls, type):
            return Con(mro_lookup(o.cls, '__call__') is not None)
        if not isinstance(o, ObjO):
            return Con(False)
    if isinstance(v, (TupV, SeqV, SInt, SBool, SReal)):
        return Con(False)
    if isinstance(v, Sym) and isinstance(v.cls, type) and (v.cls is type or mro_lookup(v.cls, '__call__') is not None):
        return Con(True)
    return SBool(uf('callable', V, B)(I.p.box(v)))


@builtin(getattr)
def b_getattr(I, a):
    o, n = a.pos[0], a.pos[1]
    if isinstance(n, Con):
        try:
            return getattr_(I, o, n.obj)
        except PyRaise as r:
            if len(a.pos) > 2 and I.exc_matches(r.value, Con(AttributeError)):
                return a.pos[2]
            raise
    # an attribute whose name is not known
    p = I.p
    nt = p.box(n)
    t = None
    if isinstance(o, Ref) and isinstance(I.get(o), ObjO) and not isinstance(I.get(o), ClassO):
        ob = I.get(o)
        if ob.dyn is not None:
            d, m = I.dict_terms(I.get(ob.dyn))
            if p.branch(d[nt]):
                return p.unbox(m[nt])
            if len(a.pos) > 2:
                return a.pos[2]
            I.throw(AttributeError)
    t = p.box(o)
    if len(a.pos) > 2:
        if not p.branch(uf('hasattr', V, V, B)(t, nt)):
            return a.pos[2]
        return p.unbox(uf('getattr', V, V, V)(t, nt))
    return opaque_attr(I, t, nt)


@builtin(hasattr)
def b_hasattr(I, a):
    try:
        b_getattr(I, Args(a.pos))
    except PyRaise as r:
        if I.exc_matches(r.value, Con(AttributeError)):
            return Con(False)
        raise
    return Con(True)


@builtin(setattr)
def b_setattr(I, a):
    o, n, v = a.pos
    if isinstance(n, Con):
        setattr_(I, o, n.obj, v)
        return NONE
    h = I.ex.handlers.get('setattr')
    if h is not None:
        return h(I, a)
    raise Unsupported('setattr with an unknown name')


@builtin(hash)
def b_hash(I, a):
    p = I.p
    v = a.pos[0]
    t = I.snapshot(v) if not isinstance(v, (TupV,)) else boxseq(seq(*map(p.box, v.items)))
    if not p.branch(uf('hashable', V, B)(t)):
        I.throw(TypeError)
    return SInt(uf('hash', V, core.I)(t))


@builtin(bool)
def b_bool(I, a):
    if not a.pos:
        return Con(False)
    return ret_bool(truth(I, a.pos[0]))


@builtin(int)
def b_int(I, a):
    v = a.pos[0]
    if isinstance(v, Con):
        try:
            return Con(int(v.obj))
        except (TypeError, ValueError) as e:
            I.throw(type(e))
    if isinstance(v, SInt):
        return SInt(v.t)
    if isinstance(v, SReal):
        # truncation towards zero
        t = v.t
        return SInt(z3.If(t >= 0, z3.ToInt(t), -z3.ToInt(-t)))
    if isinstance(v, SBool):
        return SInt(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
    raise Unsupported('int()')


@builtin(repr)
def b_repr(I, a):
    return b_str(I, a, 'r')


@builtin(str, format)
def b_str(I, a, conv=''):
    if a.pos and not conv and all(isinstance(x, Con) and isinstance(x.obj, (str, int)) for x in a.pos):
        return Con(str(*[x.obj for x in a.pos]))
    if len(a.pos) == 1 and isinstance(a.pos[0], Val) and not a.kw and not a.maps:
        return I.text(a.pos, [(a.pos[0], conv)])
    return I.text(a.pos[:1])


@builtin(print)
def b_print(I, a): return NONE


@builtin(list)
def b_list(I, a):
    if not a.pos:
        return I.alloc('list', ListO(items=[]))
    return I.materialize_list(a.pos[0])


@builtin(tuple)
def b_tuple(I, a):
    if not a.pos:
        return TupV(())
    v = a.pos[0]
    if isinstance(v, (TupV, SeqV)):
        return v
    o = I.get(I.materialize_list(v))
    return TupV(o.items) if o.items is not None else SeqV(o.seq, o.elem)


@builtin(set, frozenset)
def b_set(I, a, cls=set):
    if not a.pos:
        return I.alloc('set', SetO(dom=EMPTY_DOM, cls=cls))
    return make_set(I, cls, a.pos[0])


BUILTINS[frozenset] = lambda I, a: b_set(I, a, frozenset)


@builtin(dict)
def b_dict(I, a, cls=dict):
    if len(a.pos) > 1:
        I.throw(TypeError)
    r = I.alloc('dict', DictO(items={}, cls=cls))
    if a.pos:
        dict_update(I, r, a.pos[0])
    for k, v in a.kw.items():
        setitem(I, r, Con(k), v)
    for dom, mp in a.maps:
        o = I.get(r)
        if o.items == {}:
            I.put(r, DictO(dom=dom, map=mp, cls=cls,
                           order=getattr(I, 'kw_orders', {}).get(dom.get_id())))
        else:
            nd, nm = I.override(*I.dict_terms(o), dom, mp)
            I.put(r, DictO(dom=nd, map=nm, cls=cls))
    return r


@builtin(collections.defaultdict)
def b_defaultdict(I, a):
    return I.alloc('defaultdict', DictO(items={}, cls=collections.defaultdict, velem=a.pos[0] if a.pos else None))


@builtin(collections.OrderedDict)
def b_odict(I, a): return b_dict(I, a)


@builtin(zip)
def b_zip(I, a):
    views = [iter_view(I, x) for x in a.pos]
    if any(not isinstance(v, View) for v in views):
        vs = []
        for v in views:
            vs.append(v if isinstance(v, View) else iter_view(I, I.materialize_list(v)))
        views = vs
    if all(v.concrete is not None for v in views):
        return View(concrete=[TupV(t) for t in zip(*[v.concrete for v in views])])
    if any(v.concrete is not None for v in views):
        # a known number of elements against an unknown one
        p = I.p
        k = min(len(v.concrete) for v in views if v.concrete is not None)
        m = k
        for j in range(k):
            if not p.branch(z3.And(*[v.n > j for v in views if v.concrete is None])):
                m = j
                break
        return View(concrete=[TupV([v.concrete[j] if v.concrete is not None else v.elem(z3.IntVal(j)) for v in views])
                              for j in range(m)])
    n = views[0].n
    for v in views[1:]:
        if I.p.implied(n == v.n):
            continue
        n = zmin(n, v.n)
    return View(n=z3.simplify(n), elem=lambda i: TupV([v.elem(i) for v in views]),
                bases=[b for v in views for b in v.bases], what='zip')


@builtin(enumerate)
def b_enumerate(I, a):
    v = iter_view(I, a.pos[0])
    start = as_int(I, arg(a, 1, 'start', Con(0)))
    if isinstance(v, View):
        if v.concrete is not None:
            s = start.as_long()
            return View(concrete=[TupV([Con(s + k), x]) for k, x in enumerate(v.concrete)])
        return View(n=v.n, elem=lambda i: TupV([SInt(z3.simplify(start + i)), v.elem(i)]), bases=v.bases,
                    what='enumerate')
    raise Unsupported('enumerate')


@builtin(range)
def b_range(I, a):
    if all(isinstance(x, Con) for x in a.pos):
        return View(concrete=[Con(k) for k in range(*[x.obj for x in a.pos])])
    lo, hi = (z3.IntVal(0), as_int(I, a.pos[0])) if len(a.pos) == 1 else (as_int(I, a.pos[0]), as_int(I, a.pos[1]))
    if len(a.pos) > 2:
        raise Unsupported('range step')
    n = z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))
    n = tidy(I.p, n, n)
    view = View(n=n, elem=lambda i: SInt(z3.simplify(lo + i)), bases=[(EMPTY_SEQ, lo)], what='range')
    return view


def make_reversed(I, o, keep_type=False):
    v = iter_view(I, o)
    if not isinstance(v, View):
        raise Unsupported('reversed')
    if v.concrete is not None:
        if keep_type and isinstance(o, Ref):
            return I.alloc('list', ListO(items=v.concrete[::-1]))
        return TupV(v.concrete[::-1]) if keep_type else View(concrete=v.concrete[::-1])
    if v.what == 'seq':
        b, off = v.bases[0]
        if z3.simplify(off).eq(z3.IntVal(0)) and z3.simplify(v.n).eq(z3.simplify(z3.Length(b))):
            r = reverse_term(I, b)
            if keep_type:
                return I.alloc('list', ListO(seq=r, elem=v.elem.kind)) if isinstance(o, Ref) else SeqV(r, v.elem.kind)
            return seq_view(I, r, v.elem.kind)
    return View(n=v.n, elem=lambda i: v.elem(z3.simplify(v.n - 1 - i)), bases=[(EMPTY_SEQ, z3.IntVal(0))])


def reverse_term(I, s):
    """the reversed sequence"""
    r = uf('reverse', SV, SV)(s)
    I.p.assume(z3.Length(r) == z3.Length(s))
    if s.eq(EMPTY_SEQ):
        return s
    if I.p.ex.unroll and z3.is_const(s):
        n = z3.Length(s)
        I.p.assume(n <= I.p.ex.unroll + 2)
        for i in range(I.p.ex.unroll + 2):
            I.p.assume(z3.Implies(i < n, r[i] == s[n - 1 - i]))
    else:
        I.p.vague()
    return r


@builtin(reversed)
def b_reversed(I, a): return make_reversed(I, a.pos[0])


@builtin(any)
def b_any(I, a): return quantifier(I, a.pos[0], True)


@builtin(all)
def b_all(I, a): return quantifier(I, a.pos[0], False)


def quantifier(I, it, want):
    token = object()

    def body(v):
        if I.branch_on(v) == want:
            raise _Stop(token)
    try:
        I.iterate(it, body, I.call_node, 'any')
    except _Stop as s:
        if s.token is not token:
            raise
        return Con(want)
    return Con(not want)


@builtin(iter)
def b_iter(I, a):
    v = iter_view(I, a.pos[0])
    if isinstance(v, View):
        return I.alloc('iter', IterO(v, 0))
    return v


@builtin(next)
def b_next(I, a):
    p = I.p
    it = a.pos[0]
    if isinstance(it, Ref) and isinstance(I.get(it), IterO):
        o = I.get(it)
        n = o.view.n if o.view.concrete is None else z3.IntVal(len(o.view.concrete))
        pos = z3.IntVal(o.pos) if isinstance(o.pos, int) else o.pos
        if p.branch(pos < n):
            I.put(it, IterO(o.view, o.pos + 1))
            if o.view.concrete is not None:
                return list_item(I, o.view.concrete, Con(o.pos) if isinstance(o.pos, int) else SInt(o.pos))
            return o.view.elem(z3.simplify(pos))
    else:
        # the first element of a generator that is not used again
        token = object()

        def body(v):
            raise _Stop(token, v)
        if not isinstance(it, (GenV, ChainV)):
            raise Unsupported(f'next of {it!r}')
        try:
            I.iterate(it, body, I.call_node, 'next')
        except _Stop as s:
            if s.token is token:
                return s.value
            raise
    if len(a.pos) > 1:
        return a.pos[1]
    I.throw(StopIteration)


@builtin(itertools.chain)
def b_chain(I, a):
    parts = []
    for x in a.pos:
        if isinstance(x, Star):
            raise Unsupported('chain(*...)')
        parts.append(x)
    return ChainV(parts)


@builtin(itertools.islice)
def b_islice(I, a):
    def opt(v): return None if v is None or isinstance(v, Con) and v.obj is None else v
    if len(a.pos) == 2:
        return IsliceV(a.pos[0], None, opt(a.pos[1]))
    if len(a.pos) == 3:
        return IsliceV(a.pos[0], opt(a.pos[1]), opt(a.pos[2]))
    raise Unsupported('islice step')


@builtin(map)
def b_map(I, a):
    f = a.pos[0]
    its = a.pos[1:]
    src = its[0] if len(its) == 1 else b_zip(I, Args(its))
    node = I.call_node

    def run(emit):
        def body(v):
            emit(I.call(f, Args([v] if len(its) == 1 else list(v.items))))
        I.iterate(src, body, node, 'map')
    return GenV(run, name='map')


@builtin(filter)
def b_filter(I, a):
    f, src = a.pos
    node = I.call_node

    def run(emit):
        def body(v):
            if I.branch_on(v if isinstance(f, Con) and f.obj is None else I.call(f, Args([v]))):
                emit(v)
        I.iterate(src, body, node, 'filter')
    return GenV(run, name='filter')


@builtin(min, max)
def b_min(I, a): return min_max(I, a, '<')


def min_max(I, a, op):
    if a.kw or len(a.pos) < 2:
        raise Unsupported('min/max')
    best = a.pos[0]
    for x in a.pos[1:]:
        if I.branch_on(ret_bool(order(I, op, x, best))):
            best = x
    return best


BUILTINS[max] = lambda I, a: min_max(I, a, '>')


@builtin(sorted)
def b_sorted(I, a):
    ref = I.materialize_list(a.pos[0])
    h = I.ex.handlers.get('sorted')
    if h is not None:
        return h(I, ref, a)
    raise Unsupported('sorted')


@builtin(round)
def b_round(I, a):
    v = a.pos[0]
    if isinstance(v, SReal):
        # the nearest integer; halves go to one of the two neighbours
        n = I.p.fresh('round', core.I)
        kf = decomposition(I.p, v.t)
        if kf is not None:
            k, f = kf
            half = z3.RealVal('1/2')
            return SInt(z3.If(f < half, k, z3.If(f > half, k + 1, z3.If(k % 2 == 0, k, k + 1))))
        I.p.assume(z3.And(z3.ToReal(n) - v.t <= z3.RealVal('1/2'), v.t - z3.ToReal(n) <= z3.RealVal('1/2')))
        return SInt(n)
    raise Unsupported('round')


@builtin(abs)
def b_abs(I, a):
    v = a.pos[0]
    if isinstance(v, SReal):
        return SReal(z3.If(v.t < 0, -v.t, v.t))
    if isinstance(v, SInt):
        return SInt(z3.If(v.t < 0, -v.t, v.t))
    raise Unsupported('abs')


@builtin(math.isclose)
def b_isclose(I, a):
    if a.kw or len(a.pos) != 2:
        raise Unsupported('isclose')
    x, y = real(a.pos[0]), real(a.pos[1])
    if x is None or y is None:
        raise Unsupported('isclose')

    def ab(t): return z3.If(t < 0, -t, t)
    rel = z3.RealVal('1/1000000000')
    return SBool(z3.Or(x == y, ab(x - y) <= rel * z3.If(ab(x) > ab(y), ab(x), ab(y))))


@builtin(functools.partial)
def b_partial(I, a):
    if a.maps or any(isinstance(x, Star) for x in a.pos):
        raise Unsupported('partial')
    return PartialV(a.pos[0], a.pos[1:], a.kw)


@builtin(functools.update_wrapper)
def b_update_wrapper(I, a):
    # copies names and documentation
    return a.pos[0]


@builtin(functools.wraps)
def b_wraps(I, a): return NativeV(lambda I, b: b.pos[0], 'wraps')


@builtin(contextlib.suppress)
def b_suppress(I, a): return Suppress(a.pos)


@builtin(inspect.isabstract)
def b_isabstract(I, a):
    v = a.pos[0]
    if isinstance(v, Con):
        return Con(inspect.isabstract(v.obj))
    return SBool(uf('isabstract', V, B)(I.p.box(v)))


@builtin(super)
def b_super(I, a):
    if len(a.pos) == 2 and isinstance(a.pos[0], Con):
        return SuperV(a.pos[0].obj, a.pos[1])
    raise Unsupported('super')


@builtin(object.__new__)
def b_object_new(I, a):
    c = a.pos[0]
    if isinstance(c, Con):
        return I.alloc(c.obj.__name__, ObjO(c.obj, {}))
    d = I.alloc('__dict__', DictO(items={}))
    return I.alloc('instance', ObjO(c, {}, d))


@builtin(object.__setattr__)
def b_object_setattr(I, a):
    o, n, v = a.pos
    ob = I.get(o)
    if isinstance(n, Con):
        if isinstance(ob.cls, type) or n.obj in getattr(I.get(ob.cls).cls, '__slots__', ()):
            I.set_attr(o, n.obj, v)
        else:
            setitem(I, obj_attr(I, o, ob, '__dict__'), n, v)
        return NONE
    h = I.ex.handlers.get('object.__setattr__')
    if h is not None:
        return h(I, a)
    raise Unsupported('setattr with an unknown name')


@builtin(object.__delattr__)
def b_object_delattr(I, a):
    o, n = a.pos
    ob = I.get(o)
    if isinstance(n, Con) and (isinstance(ob.cls, type) or n.obj in getattr(I.get(ob.cls).cls, '__slots__', ())):
        if n.obj not in ob.attrs:
            I.throw(AttributeError)
        I.put(o, ObjO(ob.cls, {k: v for k, v in ob.attrs.items() if k != n.obj}, ob.dyn), n.obj)
        return NONE
    r = attempt_pop(I, obj_attr(I, o, ob, '__dict__'), n)
    if r is None:
        I.throw(AttributeError)
    return NONE


def attempt_pop(I, d, k):
    try:
        return method(I, d, 'pop', Args([k]))
    except PyRaise as r:
        if I.exc_matches(r.value, Con(KeyError)):
            return None
        raise


@builtin(delattr)
def b_delattr(I, a):
    delattr_(I, a.pos[0], a.pos[1])
    return NONE


def delattr_(I, v, n):
    if isinstance(v, Ref) and isinstance(I.get(v), ObjO) and not isinstance(I.get(v), ClassO):
        o = I.get(v)
        cls = o.cls if isinstance(o.cls, type) else I.get(o.cls).cls
        m = mro_lookup(cls, '__delattr__')
        call(I, I.lift(m), Args([v, n]))
        return
    raise Unsupported('delattr')


@builtin(object.__init__)
def b_object_init(I, a): return NONE


@builtin(vars)
def b_vars(I, a): return getattr_(I, a.pos[0], '__dict__')


@builtin(id)
def b_id(I, a): return SInt(uf('id', V, core.I)(I.p.box(a.pos[0])))


# ---------------------------------------------------------------- methods of containers

def method(I, o, name, a):
    p = I.p
    if isinstance(o, Ref):
        ob = I.get(o)
        if isinstance(ob, ListO):
            return list_method(I, o, ob, name, a)
        if isinstance(ob, DictO):
            return dict_method(I, o, name, a)
        if isinstance(ob, SetO):
            return set_method(I, o, name, a)
        if isinstance(ob, IterO) and name == '__next__':
            return b_next(I, Args([o]))
    if isinstance(o, Con):
        if isinstance(o.obj, dict):
            return dict_method(I, o, name, a)
        if isinstance(o.obj, (set, frozenset)):
            return set_method(I, o, name, a)
        if isinstance(o.obj, str):
            return str_method(I, o, name, a)
        if isinstance(o.obj, (tuple, int, float)) and all(isinstance(x, Con) for x in a.pos):
            try:
                return Con(getattr(o.obj, name)(*[x.obj for x in a.pos]))
            except AttributeError:
                I.throw(AttributeError)
    if isinstance(o, Sym):
        if o.cls is str:
            return str_method(I, o, name, a)
        if isinstance(o.cls, type) and issubclass(o.cls, (dict, collections.abc.Mapping)):
            return dict_method(I, o, name, a)
        if isinstance(o.cls, type) and issubclass(o.cls, (set, frozenset)):
            return set_method(I, o, name, a)
        if o.cls is None and name == 'items':
            if not p.branch(uf('is_mapping', V, B)(o.t)):
                I.throw(AttributeError)
            return DictView(Sym(o.t, collections.abc.Mapping), 'items')
        return I.opaque_call(opaque_attr(I, o.t, name).t, a)
    if name == '__iter__':
        return b_iter(I, Args([o]))
    if name == '__len__':
        return length(I, o)
    if name == '__contains__':
        return ret_bool(contains(I, o, a.pos[0]))
    if isinstance(o, DictView):
        if name in ('isdisjoint',):
            return SBool(z3.SetIntersect(set_dom(I, o), set_dom(I, a.pos[0])) == EMPTY_DOM)
    raise Unsupported(f'method {name} of {o!r}')


def list_method(I, o, ob, name, a):
    p = I.p
    if name == 'append':
        list_append(I, o, a.pos[0])
        return NONE
    if name == 'extend':
        list_extend(I, o, a.pos[0])
        return NONE
    if name == 'reverse':
        if ob.items is not None:
            I.put(o, ListO(items=ob.items[::-1]))
        else:
            I.put(o, ListO(seq=reverse_term(I, ob.seq), elem=ob.elem))
        return NONE
    if name == 'copy':
        return I.alloc('list', ob)
    if name == 'clear':
        I.put(o, ListO(items=[]))
        return NONE
    if name == 'insert' and isinstance(a.pos[0], Con) and a.pos[0].obj == 0:
        if ob.items is not None:
            I.put(o, ListO(items=[a.pos[1]] + ob.items))
        else:
            I.put(o, ListO(seq=z3.Concat(z3.Unit(p.box(a.pos[1])), ob.seq), elem=None))
        return NONE
    if name == 'pop':
        if ob.items is not None and (not a.pos or isinstance(a.pos[0], Con)):
            k = a.pos[0].obj if a.pos else -1
            if not -len(ob.items) <= k < len(ob.items):
                I.throw(IndexError)
            items = list(ob.items)
            x = items.pop(k)
            I.put(o, ListO(items=items))
            return x
        n = z3.Length(ob.seq)
        if not p.branch(n > 0):
            I.throw(IndexError)
        if not a.pos:
            x = p.unbox(ob.seq[n - 1], ob.elem)
            I.put(o, ListO(seq=z3.SubSeq(ob.seq, 0, n - 1), elem=ob.elem))
            return x
        if isinstance(a.pos[0], Con) and a.pos[0].obj == 0:
            x = p.unbox(ob.seq[0], ob.elem)
            I.put(o, ListO(seq=z3.SubSeq(ob.seq, 1, n - 1), elem=ob.elem))
            return x
    if name == '__iter__':
        return b_iter(I, Args([o]))
    if name == '__len__':
        return length(I, o)
    raise Unsupported(f'list.{name}')


def dict_method(I, d, name, a):
    p = I.p
    ref = isinstance(d, Ref)
    if name in ('items', 'keys', 'values'):
        return DictView(d, name)
    if name == 'get':
        if isinstance(d, Con) and not isinstance(a.pos[0], Con):
            try:
                return const_lookup(I, d.obj, a.pos[0])
            except PyRaise:
                return arg(a, 1, None, NONE)
        if isinstance(d, Con):
            try:
                r = d.obj.get(a.pos[0].obj, None) if a.pos[0].obj in d.obj else None
            except TypeError:
                I.throw(TypeError)
            if a.pos[0].obj in d.obj:
                return I.lift(r)
            return arg(a, 1, None, NONE)
        r = dict_get(I, d, a.pos[0])
        return r if r is not None else arg(a, 1, None, NONE)
    if name == '__contains__':
        return ret_bool(contains(I, d, a.pos[0]))
    if name == '__getitem__':
        return getitem(I, d, a.pos[0])
    if name == '__len__':
        return length(I, d)
    if name == 'copy':
        r = I.alloc('dict', DictO(items={}))
        dict_update(I, r, d)
        return r
    if not ref:
        raise Unsupported(f'{name} of a dict that is not under contract')
    if name == 'pop':
        o = I.get(d)
        if o.items is not None and key_of(a.pos[0]) is not None and \
                all(isinstance(q, (str, type, enum.Enum)) for q in o.items):
            k = key_of(a.pos[0])[0]
            if k in o.items:
                items = dict(o.items)
                x = items.pop(k)
                I.put(d, DictO(items=items, velem=o.velem, cls=o.cls))
                return x
        else:
            o = I.dict_sym(d)
            key = p.box(a.pos[0])
            if p.branch(o.dom[key]):
                x = p.unbox(o.map[key], o.velem)
                I.put(d, DictO(dom=z3.Store(o.dom, key, False), map=o.map, velem=o.velem, cls=o.cls))
                return x
        if len(a.pos) > 1:
            return a.pos[1]
        I.throw(KeyError)
    if name == 'update':
        if a.pos:
            dict_update(I, d, a.pos[0])
        for k, v in a.kw.items():
            setitem(I, d, Con(k), v)
        for dom, mp in a.maps:
            o = I.get(d)
            nd, nm = I.override(*I.dict_terms(o), dom, mp)
            I.put(d, DictO(dom=nd, map=nm, cls=o.cls))
        return NONE
    if name == 'setdefault':
        r = dict_get(I, d, a.pos[0])
        if r is not None:
            return r
        v = arg(a, 1, None, NONE)
        setitem(I, d, a.pos[0], v)
        return v
    if name == 'clear':
        I.put(d, DictO(items={}, cls=I.get(d).cls))
        return NONE
    raise Unsupported(f'dict.{name}')


def any_dom(I, v):
    """the set of elements of any iterable whose membership is known"""
    d = set_dom(I, v)
    if d is not None:
        return d
    if isinstance(v, TupV) or isinstance(v, Ref) and isinstance(I.get(v), ListO) and I.get(v).items is not None:
        d = EMPTY_DOM
        for x in (v.items if isinstance(v, TupV) else I.get(v).items):
            d = z3.Store(d, I.p.box(x), True)
        return d
    if isinstance(v, (GenV, View, ChainV, SeqV, IsliceV)) or isinstance(v, Ref) and isinstance(I.get(v), (ListO, IterO)):
        return I.get(make_set(I, set, v)).dom
    raise Unsupported(f'set of {v!r}')


def set_method(I, o, name, a):
    p = I.p
    dom = set_dom(I, o)
    if name in ('difference', 'union', 'intersection'):
        for x in a.pos:
            d = any_dom(I, x)
            dom = {'difference': z3.SetDifference, 'union': z3.SetUnion, 'intersection': z3.SetIntersect}[name](dom, d)
        return I.alloc('set', SetO(dom=dom))
    if name == 'issubset':
        return SBool(subset(dom, any_dom(I, a.pos[0])))
    if name == 'issuperset':
        return SBool(subset(any_dom(I, a.pos[0]), dom))
    if name == 'isdisjoint':
        return SBool(z3.SetIntersect(dom, any_dom(I, a.pos[0])) == EMPTY_DOM)
    if name == 'copy':
        return I.alloc('set', SetO(dom=dom))
    if name == '__contains__':
        return ret_bool(contains(I, o, a.pos[0]))
    if not isinstance(o, Ref):
        h = I.ex.handlers.get(('setmethod', name))
        if h is not None:
            return h(I, o, a)
        raise Unsupported(f'{name} of a set that is not under contract')
    c = I.get(o).cls
    if name == 'add':
        I.put(o, SetO(dom=z3.Store(dom, p.box(a.pos[0]), True), cls=c))
        return NONE
    if name == 'discard':
        I.put(o, SetO(dom=z3.Store(dom, p.box(a.pos[0]), False), cls=c))
        return NONE
    if name == 'update':
        for x in a.pos:
            if isinstance(x, (GenV, View, ChainV, SeqV, IsliceV)) or isinstance(x, Ref) and isinstance(I.get(x), (ListO, IterO)):
                I.iterate(x, lambda e: I.put(o, SetO(dom=z3.Store(I.get(o).dom if I.get(o).dom is not None else set_dom(
                    I, o), p.box(e), True), cls=c)), I.call_node, 'set.update')
            else:
                I.put(o, SetO(dom=z3.SetUnion(set_dom(I, o), any_dom(I, x)), cls=c))
        return NONE
    if name == 'difference_update':
        for x in a.pos:
            dom = z3.SetDifference(dom, any_dom(I, x))
        I.put(o, SetO(dom=dom, cls=c))
        return NONE
    if name == 'remove':
        if not p.branch(dom[p.box(a.pos[0])]):
            I.throw(KeyError)
        I.put(o, SetO(dom=z3.Store(dom, p.box(a.pos[0]), False), cls=c))
        return NONE
    raise Unsupported(f'set.{name}')


def str_method(I, o, name, a):
    p = I.p
    if isinstance(o, Con) and all(isinstance(x, Con) for x in a.pos):
        return Con(getattr(o.obj, name)(*[x.obj for x in a.pos]))
    if name == 'join':
        exact = p.__dict__.get('exact_texts')
        if exact:
            it = a.pos[0]
            items = it.items if isinstance(it, TupV) else I.get(it).items if isinstance(it, Ref) and isinstance(
                I.get(it), ListO) else None
            if items is not None and all(isinstance(x, Sym) and x.cls is str or isinstance(x, Con) and isinstance(
                    x.obj, str) for x in items):
                return I.text(items, [y for x in items for y in ((o, ''), (x, ''))][1:])
        s = I.materialize(a.pos[0])
        if not (isinstance(o, Con) and o.obj == '' or exact):
            p.vague()
        # joining fails unless every element is a string
        ok = uf('join_ok', V, SV, B)(p.box(o), s)
        if not p.branch(ok):
            if exact:
                p.vague()  # whether elements of sequences are texts is not known
            I.throw(TypeError)
        return Sym(uf('join', V, SV, V)(p.box(o), s), str)
    if name == 'format':
        return I.text([o, *[x for x in a.pos if isinstance(x, Val)], *a.kw.values()],
                      formatted(o.obj, a) if isinstance(o, Con) and not a.maps else None)
    p.vague()
    if name in ('lower', 'upper', 'strip', 'replace'):
        return Sym(p.fresh('str', V), str)
    if name in ('startswith', 'endswith'):
        return SBool(uf(name, V, V, B)(p.box(o), p.box(a.pos[0])))
    raise Unsupported(f'str.{name}')
