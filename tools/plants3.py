import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
BV = 'records/fillers/builtin_validators.py'
COE = 'records/fillers/coercers.py'
FIL = 'records/fillers/filler.py'
SEL = 'records/select.py'
REC = 'records/record.py'
FLD = 'records/field.py'

plant('C03-filled-once-per-value', 'C03', [(TYP, """                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
""", """                        done = {}

                        def fill_rest(a):
                            # no need to process the same element again
                            if id(a) not in done:
                                done[id(a)] = self.element_filler(a)
                            return done[id(a)]

                        all_elements = chain(
                            pre,
                            [filled],
                            (fill_rest(a) for a in post)
                        )
""")], '''
from typing import List
from records import RecordBase, Annotated, check, CallCoercion
class A(RecordBase):
    x: Annotated[List[Annotated[list, check, CallCoercion(lambda v: [v])]], check]
a = A(x=["p", "q", "q"]).x
assert a == [["p"], ["q"], ["q"]], a
a[1].append(1)
assert a[2] == ["q"], a
''', 'a list with the same object twice after its first changed element, and a coercer that makes mutable objects', 'an element hint is not applied to each element')

plant('C06-error-message-parts', 'C06', [(REC, """                msg = f'error filling filling {k}'
                # try to create a parent error of the same type as the original error
                try:
                    parent_error = type(e)(msg)
""", """                msg = f'error filling filling {k}'
                # try to create a parent error of the same type as the original error
                try:
                    parent_error = type(e)(msg, *e.args[1:])
""")], '''
from records import RecordBase, Annotated, check, CallValidation
class E(Exception):
    def __init__(self, msg): super().__init__(msg, 'more')
def bad(v): raise E('no')
class A(RecordBase):
    x: Annotated[int, check, CallValidation(bad)]
try:
    A(x=1)
except E as e:
    assert 'x' in str(e) and type(e.__cause__) is E
else:
    raise AssertionError
''', 'a field error with more arguments than its class takes', 'the error is not of the class of the original')

plant('C08-overridden-parser', 'C08', [(REC, """        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
""", """        for name in dir(cls):
            if any(getattr(b.__dict__.get(name), '__parser__', False) for b in cls.__mro__):
                cls._parsers.append(getattr(cls, name))
""")], '''
from records import RecordBase, parser
class A(RecordBase):
    x: int
    @parser
    @classmethod
    def of_text(cls, v):
        return cls(x=int(v))
class B(A):
    y: int = 0
    @classmethod
    def of_text(cls, v, y=0):
        """no parser any more"""
        return cls(x=int(v), y=y)
assert A.parse("3").x == 3
try:
    b = B.parse("3")
except TypeError:
    pass
else:
    raise AssertionError(b)
''', 'a subclass that overrides a parser by a method that is none', 'a method that is no parser is tried')

plant('C10-same-object', 'C10', [(REC, """        if type(self) != type(other):
            return False
        if type(self).is_frozen()""", """        if type(self) != type(other):
            return False
        if self is other:
            return True
        if type(self).is_frozen()""")], '''
from records import RecordBase
class A(RecordBase):
    x: float
a = A(x=float('nan'))
assert not (a == a) and a != a
''', 'a field whose value does not equal itself', 'records are equal though a field does not compare equal')

plant('C12-remove-any', 'C12', [(SEL, """        for kti in self.keys_to_remove:
            mapping.pop(kti)
        for kti in self.keys_to_maybe_remove:
            mapping.pop(kti, None)
""", """        removed = {kti: mapping.pop(kti) for kti in self.keys_to_remove if kti not in self.keys_to_maybe_remove}
        for kti in self.keys_to_maybe_remove:
            removed.setdefault(kti, mapping.pop(kti, None))
""")], '''
from records.select import Select
assert Select(keys_to_remove=['a'])({'a': 1, 'b': 2}) == {'b': 2}
s = Select(keys_to_remove=['a']).merge(Select(keys_to_maybe_remove=['a']))
assert s({'a': 1}) == {}
try:
    r = s({'b': 1})
except KeyError:
    pass
else:
    raise AssertionError(r)
''', 'a key both to remove and to maybe remove, that is missing', 'a mandatory removal of a missing key is no error')

plant('C13-shared-export-kwargs', 'C13', [(SEL, "            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},\n",
      "            merged = {**kwargs, **self.export_kwargs}\n            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), merged,\n")], '''
from records import RecordBase
class A(RecordBase):
    x: int
    y: int = 0
a = A(x=1)
e = a.to_dict.export_with(include_defaults=True)
assert e() == {'x': 1, 'y': 0}
assert e.export_with(include_defaults=False)() == {'x': 1}
''', 'an export argument given twice in a chain', 'the earlier argument wins')

plant('C14-default-value-made', 'C14', [(REC, "                        yield field.name, field.make_default()\n", "                        yield field.name, cls._fields[field.name].default\n")], '''
from records import RecordBase, Factory
class A(RecordBase):
    x: int
    y: list = Factory(list)
class O: x = 1
assert A.to_dict(O) == {'x': 1}
assert A.to_dict(O, include_defaults=True) == {'x': 1, 'y': []}
''', 'an object that lacks an attribute whose field has a default factory, exported with defaults', 'the factory itself is exported')

plant('C15-subclass-instance', 'C15', [(REC, "        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):\n            return v\n",
      "        if type(v).is_frozen() and not maps and not kwargs if isinstance(v, cls) else False:\n            return v\n")], '''
from records import RecordBase
class A(RecordBase):
    x: int
class F(A, frozen=True):
    y: int = 0
f = F(x=1)
a = A.from_instance(f)
assert type(a) is A and a.x == 1, a
''', 'an instance of a frozen subclass of a class that is not frozen', 'it is returned as is, as if it were an instance of a frozen class')

plant('C17-grandparents', 'C17', [(REC, "            for k, field in parent._fields.items():\n                if k in cls._fields or k in parent_fields:\n                    raise ValueError(f'cannot override inherited field {k}')\n",
      "            for k, field in parent._fields.items():\n                if parent_fields.get(k) is field:\n                    continue\n                if k in cls._fields or k in parent_fields:\n                    raise ValueError(f'cannot override inherited field {k}')\n")], '''
from records import RecordBase
class A(RecordBase):
    x: int
class B(A):
    y: int
class C(A):
    z: int
assert list(B._fields) == ['x', 'y']
try:
    class D(B, C): pass
except ValueError:
    pass
else:
    raise AssertionError(D._fields)
''', 'two record bases that inherit the same field', 'a name declared twice is not rejected')

plant('C19-within-outside', 'C19', [(BV, """        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
""", """        return not (v > self.lt if self.l_eq else v >= self.lt)
""")], '''
from records import RecordBase, Annotated, Within
class A(RecordBase):
    x: Annotated[float, Within(lt=1.0)]
assert A(x=0.5).x == 0.5
for v in (1.0, 2.0, float('nan')):
    try:
        a = A(x=v)
    except ValueError:
        pass
    else:
        raise AssertionError(a)
''', 'a value that is on neither side of the upper bound', 'it passes')

plant('C20-whole-truncates', 'C20', [(STD, "                return origin(v.numerator, *self.args, **self.kwargs)\n", "                return origin(int(float(v)), *self.args, **self.kwargs)\n")], '''
from fractions import Fraction
from records import RecordBase, Annotated, check, Whole
class A(RecordBase):
    x: Annotated[int, check, Whole]
assert A(x=Fraction(4, 2)).x == 2
n = 2 ** 60 + 1
assert A(x=Fraction(n)).x == n, A(x=Fraction(n)).x
''', 'a whole fraction too big for a float', 'it becomes another integer')

plant('C02-coerced-style', 'C02', [(FIL, "                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):\n",
      "                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check\n                                    and not isinstance(coerced, self.origin)):\n")], '''
from records import RecordBase, Annotated, check_strict, CallCoercion
class A(RecordBase):
    x: Annotated[int, check_strict, CallCoercion(lambda v: v == "yes")]
try:
    a = A(x="yes")
except TypeError:
    pass
else:
    raise AssertionError(a.x)
''', 'a strict style, and a coercer that returns an instance of a subclass', 'the result is accepted')

plant('C18-late-tokens', 'C18', [(TYP, """    def apply(self, token):
        super().apply(token)
        self.applied.append(token)
""", """    def apply(self, token):
        if self.owner:
            # the members take it, or not
            for sf in self.sub_fillers:
                sf.apply(token)
            return
        self.applied = [*self.applied, token] if token not in self.applied else self.applied
""")], '''
from typing import Union
from records import RecordBase, Annotated, check, CallValidation
def double(v): return v * 2
t = CallValidation(double)
class A(RecordBase):
    x: Union[int, str]
    @classmethod
    def pre_bind(cls):
        super().pre_bind()
        cls.x.filler.apply(check)
        cls.x.filler.apply(t)
        cls.x.filler.apply(t)
assert A(x=1).x == 4, A(x=1).x
''', 'the same token applied to a Union twice in the pre-bind hook', 'the second has no effect')

plant('C01-last-error', 'C01', [(FIL, """                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
""", """                    except Exception:
                        if coercer is self.coercers[-1]:
                            raise
""")], '''
from records import RecordBase, Annotated, check, CallCoercion
class T(CallCoercion):
    def __call__(self, *_): return self.func
n = []
def second(v):
    n.append(v)
    if len(n) == 1: raise ValueError("not yet")
    return 5
class A(RecordBase):
    x: Annotated[int, check, T(second), T(int), T(second)]
assert A(x="a").x == 5
''', 'the same coercer object first and last, that fails at first', 'the alternatives after it are not tried')

plant('C04-keys-collide', 'C04', [(TYP, """                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
""", """                tuples = []
                values = {}
                for k, v in value.items():
                    if id(v) not in values:
                        values[id(v)] = self.value_filler(v)
                    tuples.append((self.key_filler(k), values[id(v)]))
""")], '''
from typing import Dict
from records import RecordBase, Annotated, check, CallCoercion
class A(RecordBase):
    x: Annotated[Dict[str, Annotated[list, check, CallCoercion(lambda v: [v])]], check]
a = A(x={'p': 1, 'q': 1}).x
a['p'].append(2)
assert a == {'p': [1, 2], 'q': [1]}, a
''', 'a mapping with the same value under two keys', 'the value hint is applied to it once')

plant('C07-kwargs-default', 'C07', [(REC, "            if not kwargs and cls._unary_parse:\n", "            if not (kwargs.keys() & cls._fields.keys()) and cls._unary_parse:\n")], '''
from records import RecordBase, parser
class A(RecordBase):
    x: int
    y: int
    @parser
    @classmethod
    def of(cls, v):
        if type(v) is not int: raise ValueError
        return cls(x=v, y=0)
assert A(7).x == 7
try:
    a = A(7, z=5)
except TypeError:
    pass
else:
    raise AssertionError(a)
''', 'an argument that parses, along with a keyword that names no field', 'the argument is parsed and the keyword ignored')

plant('C09-stale-hash', 'C09', [(REC, """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
""", """        if self._hash is None:
            self._hash = hash(tuple(v for k, v in self.__dict__.items() if k in self._fields))
        return self._hash
""")], '''
from records import RecordBase
class A(RecordBase, frozen=True):
    x: int
    y: int
assert A(x=1, y=2) == A(y=2, x=1)
assert hash(A(x=1, y=2)) == hash(A(y=2, x=1))
''', 'equal records made of the same keywords in another order', 'their hashes differ')

