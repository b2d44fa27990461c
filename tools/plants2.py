import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
BV = 'records/fillers/builtin_validators.py'
COE = 'records/fillers/coercers.py'
FIL = 'records/fillers/filler.py'
GET = 'records/fillers/get_filler.py'
SEL = 'records/select.py'
REC = 'records/record.py'
FLD = 'records/field.py'

plant('C06-default-unprocessed', 'C06', [(REC, "                values[k] = cls._fields[k].filler(v)\n", """                field = cls._fields[k]
                values[k] = v if v is field.default else field.filler(v)
""")], '''
from records import RecordBase, check
class A(RecordBase, default_type_check=check):
    x: int = None
assert A().x is None and A(x=3).x == 3
try:
    a = A(x=None)
except TypeError:
    pass
else:
    raise AssertionError(a)
''', 'a field given the very object that is its default, which its hint does not accept', 'the given value is not processed')

plant('C07-equal-readings', 'C07', [(REC, """            raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                            'and as unary argument')
""", """            if parsing != self:
                raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                                'and as unary argument')
""")], '''
from records import RecordBase, parser
class A(RecordBase, unary_parse=True):
    x: int
    @parser
    @classmethod
    def again(cls, v):
        if v != 5: raise ValueError
        return cls(x=v)
assert A(4).x == 4
try:
    a = A(5)
except TypeError:
    pass
else:
    raise AssertionError(a)
''', 'unary parsing enabled along with exactly one required field, and a parser whose result equals the record that the trivial reading gives', 'the ambiguity is not an error')

plant('C08-stop-at-two', 'C08', [(REC, """                successes.append(r)
        if len(successes) == 0:""", """                successes.append(r)
                if len(successes) > 1:
                    break
        if len(successes) == 0:""")], '''
from records import RecordBase, parser
log = []
class A(RecordBase):
    x: int
    y: int
    @parser
    @classmethod
    def pa(cls, v): log.append('pa'); return 1
    @parser
    @classmethod
    def pb(cls, v): log.append('pb'); return 2
    @parser
    @classmethod
    def pc(cls, v): log.append('pc'); raise ValueError
try:
    A.parse(0)
except TypeError:
    pass
else:
    raise AssertionError
assert sorted(log) == ['pa', 'pb', 'pc'], log
''', 'three parsers, of which the first two succeed', 'the third is not tried')

plant('C09-private-field', 'C09', [(REC, "        if a in RecordBase.__slots__:\n", "        if a.startswith(RecordBase.__slots__[0]):\n")], '''
from records import RecordBase
class A(RecordBase, frozen=True):
    x: int
    _hash_seed: int = 3
a = A(x=1)
for k in ('x', '_hash_seed'):
    try:
        setattr(a, k, 7)
    except TypeError:
        pass
    else:
        raise AssertionError(k)
assert a == A(x=1)
''', 'a field whose name begins with _hash', 'the field of a frozen record can be set')

plant('C09-typed-hash', 'C09', [(REC, "            self._hash = hash(tuple(self.to_dict().values()))\n", "            self._hash = hash(tuple((type(v), v) for v in self.to_dict().values()))\n")], '''
from records import RecordBase
class A(RecordBase, frozen=True):
    x: object
a, b = A(x=2), A(x=2.0)
assert a == b and hash(a) == hash(b)
assert a == b
''', 'equal field values of different types', 'equal records have different hashes')

plant('C10-identical-values', 'C10', [(REC, """            if getattr(self, name) != getattr(other, name):
                return False
        return True
""", """            mine, theirs = getattr(self, name), getattr(other, name)
            if mine is not theirs and mine != theirs:
                return False
        return True
""")], '''
from records import RecordBase
class A(RecordBase):
    x: float
n = float('nan')
assert A(x=n) != A(x=n)
assert A(x=1.5) == A(x=1.5) and A(x=1.5) != A(x=2.5)
''', 'a value that does not equal itself', 'records are equal though a field does not compare equal')

plant('C11-gt-negated', 'C11', [(REC, "        return self.__ordering_key() > other.__ordering_key()\n", "        return not self.__ordering_key() <= other.__ordering_key()\n")], '''
from records import RecordBase
class A(RecordBase, ordered=True):
    x: frozenset
a, b = A(x=frozenset({1})), A(x=frozenset({2}))
assert not a > b and not a < b and not a >= b and not a <= b
assert A(x=frozenset({1, 2})) > a
''', 'values that are not comparable either way (sets, nan)', 'a > b though neither is greater')

plant('C12-maybe-add-none', 'C12', [(SEL, """            if s in mapping:
                continue
            mapping[s] = v
""", """            if mapping.get(s) is None:
                mapping[s] = v
""")], '''
from records.select import Select
s = Select(keys_to_maybe_add={'a': 1, 'b': 2})
assert s({'a': 0}) == {'a': 0, 'b': 2}
assert s({'a': None}) == {'a': None, 'b': 2}, s({'a': None})
''', 'an optional addition of a key that is there with the value None', 'the value is overwritten')

plant('C13-export-kwargs-in-place', 'C13', [(SEL, """            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
""", """            export_kwargs = self.export_kwargs or {}
            export_kwargs.update(kwargs)
            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), export_kwargs, self.select_)
""")], '''
from records import RecordBase
class A(RecordBase):
    x: int = 0
    y: int = 1
e = A().to_dict.export_with(sort=-1)
f = e.export_with(include_defaults=True)
assert f() == {'x': 0, 'y': 1}
assert e() == {}, e()
''', 'an exporter with export arguments from which another is derived, and which is used again', 'the original exporter has the arguments of the derived one')

plant('C14-whitelist-characters', 'C14', [(REC, "            whitelist_keys = frozenset([whitelist_keys])\n", "            whitelist_keys = frozenset(whitelist_keys)\n")], '''
from records import RecordBase
class A(RecordBase):
    n: int = 0
    name: int = 0
assert A().to_dict(whitelist_keys='n') == {'n': 0}
assert A().to_dict(whitelist_keys='name') == {'name': 0}, A().to_dict(whitelist_keys='name')
''', 'a whitelisted key of more than one character', 'its characters are whitelisted instead')

plant('C15-added-attribute', 'C15', [(REC, "                extraction_dict.pop(key, _)\n", "                missing_ok.add(key)\n")], """
from types import SimpleNamespace as N
from records import RecordBase
class A(RecordBase):
    x: int
    y: int
assert A.from_instance.select(keys_to_add={'y': 3})(N(x=1)) == A(x=1, y=3)
assert A.from_instance.select(keys_to_add={'y': 3})(N(x=1, y=2)) == A(x=1, y=3)
""", 'an object that has an attribute of the name that the Select adds', 'building the record fails')

plant('C16-memo', 'C16', [(REC, "        d = deepcopy(d, memo)\n", "        d = {k: deepcopy(v, memo if k in self._required_keys else {}) for k, v in d.items()}\n")], '''
from copy import deepcopy
from records import RecordBase
class A(RecordBase):
    x: list
    y: list = None
l = []
a = deepcopy(A(x=l, y=l))
assert a.x is a.y
a, b = deepcopy([A(x=l), A(x=l)])
assert a.x is b.x is not l
''', 'a value shared between an optional field and another', 'it is not shared any more after a deep copy')

plant('C17-ordered-inherited', 'C17', [(REC, "        cls._ordered = ordered\n", "        cls._ordered = ordered or any(b.__dict__.get('_ordered', False) for b in cls.__bases__[1:])\n")], '''
from records import RecordBase
class A(RecordBase, ordered=True):
    x: int
class M(RecordBase):
    w: int
class B(A):
    y: int
class C(M, A):
    z: int
for K, kw in ((B, dict(x=1, y=2)), (C, dict(x=1, w=3, z=2))):
    try:
        K(**kw) < K(**kw)
    except TypeError:
        pass
    else:
        raise AssertionError(K)
''', 'a class with an ordered record as its second parent', 'it is ordered although not declared so')

plant('C18-first-style-wins', 'C18', [(FIL, "            self.type_checking_style = token\n            return\n", "            if self.type_checking_style is TypeCheckStyle.default:\n                self.type_checking_style = token\n            return\n")], """
from typing import NewType
from records import RecordBase, Annotated, check, check_strict
N = NewType('N', Annotated[int, check])
class A(RecordBase):
    x: Annotated[N, check_strict] = 0
    y: Annotated[int, check_strict, check] = 0
assert A(x=5, y=True).y is True
try:
    a = A(x=True)
except TypeError:
    pass
else:
    raise AssertionError(a)
""", 'two check styles on one hint', 'the earlier one wins')

plant('C19-match-end', 'C19', [(BV, "        return bool(self.pattern.fullmatch(v))\n", "        m = self.pattern.match(v)\n        return m is not None and m.end() == len(v)\n")], '''
from records import RecordBase, Annotated, FullMatch
class A(RecordBase):
    x: Annotated[str, FullMatch('a|ab|c+')]
assert A(x='ab').x == 'ab' and A(x='a').x == 'a' and A(x='ccc').x == 'ccc'
try:
    A(x='ac')
except ValueError:
    pass
else:
    raise AssertionError
''', 'a pattern that matches a prefix first', 'a full match is rejected')

plant('C19-cyclic-always', 'C19', [(BV, "        if self.minimum <= v < self.maximum:\n", "        if v == self.minimum:\n")], '''
from records import RecordBase, Annotated, Cyclic
class A(RecordBase):
    x: Annotated[float, Cyclic(-180.0, 180.0)]
for v in (0.1, 1e-20, 3.3, -7.7, 12.0):
    assert A(x=v).x == v, (v, A(x=v).x)
''', 'a number whose distance from the minimum is rounded', 'a value inside of the interval is changed')

plant('C20-map-to-none', 'C20', [(COE, """        if v in self.value_map:
            return self.value_map[v]
""", """        ret = self.value_map.get(v)
        if ret is not None:
            return ret
""")], '''
from typing import Optional
from records import RecordBase, Annotated, check, MapCoercion
class A(RecordBase, default_type_check=check):
    x: Optional[Annotated[type(None), MapCoercion({'none': None, '': None}, {'': int})]]
assert A(x='none').x is None
assert A(x='').x is None
''', 'a value mapped to None', 'the value counts as not mapped')

plant('C20-eval-names', 'C20', [(STD, "            ns = {**self.kwargs, origin.__name__: origin}\n", "            ns.setdefault(origin.__name__, origin)\n")], """
from records import RecordBase, Annotated, check, Eval
e = Eval(..., abs)
class A(RecordBase, default_type_check=check):
    x: Annotated[int, e] = 0
    y: Annotated[list, e] = None
assert A(x='abs(int(-4))', y='list((5,))') == A(x=4, y=[5])
for kw in (dict(x='abs(list((-4,))[0])'), dict(y='list((int(3),))')):
    try:
        a = A(**kw)
    except TypeError:
        pass
    else:
        raise AssertionError(a)
""", 'a token used on two fields of different types', 'the name of the type of one field can be used in the text for another')

plant('C01-same-coercer-twice', 'C01', [(FIL, "                        if i == len(self.coercers) - 1:\n", "                        if coercer is self.coercers[-1]:\n")], '''
from records import RecordBase, Annotated, check, CallCoercion
class F(CallCoercion):
    def __call__(self, *_):
        return self.func
def hexa(v):
    return int(v, 16)
class A(RecordBase, default_type_check=check):
    x: Annotated[int, F(hexa), F(len), F(hexa)]
assert A(x='ff').x == 255
assert A(x='xyz').x == 3
try:
    A(x=1.5)
except TypeError:
    pass
else:
    raise AssertionError
''', 'a coercer that is given twice, with another between', 'the one between is never tried')

plant('C02-type-mro', 'C02', [(TYP, "                if not issubclass(v, self.base_type):\n", "                if self.base_type not in v.__mro__:\n")], '''
from typing import Type
from numbers import Integral
from records import RecordBase, check
class A(RecordBase, default_type_check=check):
    x: Type[Integral]
assert A(x=Integral).x is Integral
assert A(x=int).x is int
try:
    A(x=float)
except ValueError:
    pass
else:
    raise AssertionError
''', 'a virtual subclass', 'a subclass is rejected')
