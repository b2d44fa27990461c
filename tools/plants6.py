import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
BV = 'records/fillers/builtin_validators.py'
COE = 'records/fillers/coercers.py'
REC = 'records/record.py'

plant('C14-repr-long', 'C14', [(REC, """            params_parts.append(f'{name}={value!r}')
""", """            params_parts.append(f'{name}={value!r:.80}')
""")], '''
from records import RecordBase
class R(RecordBase):
    a: list
r = R(a=[*range(50)])
assert eval(repr(r)) == r
''', 'a value whose repr is longer than 80 characters', 'the repr of the record holds a truncated value')

plant('C14-repr-grouped', 'C14', [(REC, """        params_parts = []
        for name, value in self.to_dict(**kwargs).items():
            params_parts.append(f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts) + ")"
""", """        params_parts = {}
        for name, value in self.to_dict(**kwargs).items():
            params_parts.setdefault(id(value), f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts.values()) + ")"
""")], '''
from records import RecordBase
class R(RecordBase):
    a: list
    b: list
x = []
assert repr(R(a=[], b=[])) == "R(a=[], b=[])"
assert eval(repr(R(a=x, b=x))) == R(a=[], b=[])
''', 'a record two fields of which hold the same object', 'the repr of the record names only the first of the two fields')

plant('C02-class-cached', 'C02', [(STD, """    def type_check(self, v):
        if type(v) == self.origin:
            return TypeMatch.exact
        return TypeMatch.inexact if isinstance(v, self.origin) else None

    def bind(self, owner_cls):
        super().bind(owner_cls)
""", """    def type_check(self, v):
        if type(v) == self.origin:
            return TypeMatch.exact
        key = type(v).__qualname__, type(v).__module__
        if key not in self._accepted:
            self._accepted[key] = isinstance(v, self.origin)
        return TypeMatch.inexact if self._accepted[key] else None

    def bind(self, owner_cls):
        super().bind(owner_cls)
        self._accepted = {}
""")], '''
from records import RecordBase, check
class R(RecordBase, default_type_check=check):
    a: int
def make(base):
    class New(base): pass
    return New
assert R(a=make(int)(3)).a == 3
try:
    R(a=make(str)("x"))
except TypeError:
    pass
else:
    raise AssertionError("a str for an int")
''', 'two classes of one qualified name, only one of which is a subclass of the declared type', 'a value of the wrong type is accepted')

plant('C20-map-missing', 'C20', [(COE, """        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
""", """        for values, make in ((self.value_map, lambda x: x), (self.factory_map, lambda x: x())):
            try:
                return make(values[v])
            except KeyError:
                continue
        raise TypeError
""")], '''
from collections import defaultdict
from records import RecordBase, Annotated, check, MapCoercion
m = defaultdict(int, {"a": 1})
class R(RecordBase):
    x: Annotated[int, check, MapCoercion(m)]
assert R(x="a").x == 1
try:
    R(x="b")
except TypeError:
    pass
else:
    raise AssertionError("not in the map")
assert dict(m) == {"a": 1}
''', 'a mapping that makes up missing values, such as a defaultdict', 'a value that is not in the map is coerced, and added to the map')

plant('C10-hash-collision', 'C10', [(REC, """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True

    class _MockField(""", """        if self._frozen and None not in (self._hash, other._hash):
            return self._hash == other._hash
        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True

    class _MockField(""")], '''
from records import RecordBase
class R(RecordBase, frozen=True):
    a: int
x, y = R(a=-1), R(a=-2)
assert x != y
hash(x), hash(y)
assert x != y
assert len({x, y}) == 2
''', 'two different frozen records with equal hashes, both hashed before they are compared', 'different records are equal')
