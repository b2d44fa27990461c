"""C13: the factories and exporters hold the functions they are made of, and a shortcut makes a new factory."""
from .c13 import *

ASSUMES = ['functools.update_wrapper only copies names and documentation']

FN, SC = z3.Const('func', V), z3.Const('shortcut', V)
FACTORIES = [SelectableFactory, SpecializedSelectableFactory, SelectableShortcutFactory, SpecializedShortcutFactory]
EXPORTERS = [Exporter, NoArgExporter]


def wrapped(t, wrapper, p):
    """the function in a classmethod or staticmethod, or the function itself"""
    c = isinst(t, p.const(wrapper))
    return c, z3.If(c, uf('getattr', V, V, V)(t, p.const('__func__')), t)


def has_func(p, *ts):
    for t in ts:
        for w in (classmethod, staticmethod):
            p.assume(z3.Implies(isinst(t, p.const(w)), uf('hasattr', V, V, B)(t, p.const('__func__'))))
        # neither is both, nor a class, nor None
        p.assume(z3.Not(z3.And(isinst(t, p.const(classmethod)), isinst(t, p.const(staticmethod)))))


def attr(I, v, name):
    o = I.get(v)
    if name not in o.attrs:
        raise Unsupported(f'no attribute {name}')
    return I.p.box(o.attrs[name])


def run_make(cls, wrapper, shortcut=None):
    def run(I, p):
        p.observe(func=FN)
        has_func(p, FN, SC)
        args = [Sym(FN)]
        if shortcut == 'given':
            args.append(Sym(SC))
        w0 = p.world
        out = attempt(I, lambda: I.call(Con(cls), Args(args)))
        p.prove('no error', z3.BoolVal(out.ok))
        if not out.ok:
            return
        _, f = wrapped(FN, wrapper, p)
        p.prove('of its class', z3.BoolVal(I.get(out.value).cls is cls))
        p.prove('the function it was given', attr(I, out.value, 'func') == f)
        if shortcut:
            _, s = wrapped(SC, wrapper, p)
            p.prove('the shortcut it was given', attr(I, out.value, '_shortcut') == (s if shortcut == 'given' else p.const(None)))
        p.prove('nothing is called', p.world == w0)
    return run


def run_shortcut(cls, old):
    def run(I, p):
        p.observe(func=FN, shortcut=SC)
        has_func(p, SC, FN)
        for w in (classmethod, staticmethod):
            p.assume(z3.Not(isinst(FN, p.const(w))))
        me = I.alloc('factory', ObjO(cls, dict(func=Sym(FN), _shortcut=Sym(z3.Const('old', V)) if old else NONE)))
        if old:
            p.assume(models.zbool(models.truth(I, Sym(z3.Const('old', V)))))
        w0 = p.world
        f = I.lift(models.mro_lookup(cls, 'shortcut'))
        out = attempt(I, lambda: I.call(f, Args([me, Sym(SC)])))
        p.prove('one that has a shortcut takes no other', z3.BoolVal(out.ok == (not old)))
        if not out.ok:
            p.prove('a ValueError', out.exc_is(ValueError))
        else:
            _, s = wrapped(SC, classmethod, p)
            new = out.value
            p.prove('a new factory', z3.BoolVal(isinstance(new, Ref) and new.id != me.id and I.get(new).cls is cls))
            p.prove('of the same function', attr(I, new, 'func') == FN)
            p.prove('with the shortcut', attr(I, new, '_shortcut') == s)
        p.prove('the one it is made of is unchanged', z3.And(attr(I, me, 'func') == FN, attr(I, me, '_shortcut') == (
            z3.Const('old', V) if old else p.const(None))))
        p.prove('nothing is called', p.world == w0)
    return run


CONTRACTS = [
    *[Contract(f'{c.__name__}.__init__', run_make(c, classmethod, None if c in FACTORIES[:2] else 'absent'),
               ['SelectableFactory.__init__', *(['SelectableShortcutFactory.__init__'] if c in FACTORIES[2:] else [])]) for c in FACTORIES],
    *[Contract(f'{c.__name__}.__init__ with a shortcut', run_make(c, classmethod, 'given'), ['SelectableShortcutFactory.__init__'])
      for c in FACTORIES[2:]],
    *[Contract(f'{c.__name__}.__init__', run_make(c, staticmethod), ['Exporter.__init__']) for c in EXPORTERS],
    *[Contract(f'{c.__name__}.shortcut{" of one that has one" if old else ""}', run_shortcut(c, old), ['SelectableShortcutFactory.shortcut'])
      for c in FACTORIES[2:] for old in (False, True)],
]
