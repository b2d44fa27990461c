import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
BV = 'records/fillers/builtin_validators.py'
VAL = 'records/fillers/validators.py'
FIL = 'records/fillers/filler.py'
SEL = 'records/select.py'
REC = 'records/record.py'
FLD = 'records/field.py'

plant('C07-ambiguity-swallowed', 'C07', [(REC, """                except ParseFailure:
                    # if""", """                except TypeError:
                    # if""")], '''
from records import RecordBase, parser
class A(RecordBase, unary_parse=True):
    x: int
    @parser
    @classmethod
    def p(cls, v): return cls(x=v + 'p')
    @parser
    @classmethod
    def q(cls, v): return cls(x=v + 'q')
try:
    r = A('a')
except TypeError:
    pass
else:
    raise AssertionError(r)
''', 'a class with one required field, unary parsing and two parsers that succeed', 'ambiguous parsing is taken for failed parsing, and the positional argument fills the field')

plant('C08-odd-errors', 'C08', [(REC, """                r = m(v)
            except Exception:
""", """                r = m(v)
            except (TypeError, ValueError, LookupError, AttributeError):
""")], '''
from records import RecordBase, parser
class A(RecordBase):
    x: int
    y: int
    @parser
    @classmethod
    def p(cls, v): return cls(x=1 // v, y=0)
    @parser
    @classmethod
    def q(cls, v): return cls(x=v, y=1)
a = A.parse(0)
assert (a.x, a.y) == (0, 1)
''', 'a parser that fails with another error than the usual ones, ZeroDivisionError say', 'the errors of parsers are not swallowed')

plant('C11-inherited-excluded', 'C11', [(REC, """            if exclude_from_ordering in f.tags:
""", """            if f.owner is type(self) and exclude_from_ordering in f.tags:
""")], '''
from records import RecordBase, Annotated, exclude_from_ordering
class P(RecordBase, ordered=True):
    t: Annotated[int, exclude_from_ordering]
class C(P, ordered=True):
    x: int
assert P(t=1) <= P(t=0)
assert C(t=5, x=0) < C(t=1, x=1) and not C(t=1, x=0) < C(t=2, x=0)
''', 'a subclass of a class with a field excluded from ordering', 'inherited fields take part in ordering although they are excluded')

plant('C14-nan-default', 'C14', [(FLD, """        return (not self.default_is_factory) and self.default == v
""", """        return (not self.default_is_factory) and (self.default is v or self.default == v)
""")], '''
from records import RecordBase
nan = float('nan')
class A(RecordBase):
    x: float = nan
    y: int = 0
assert list(A().to_dict()) == ['x'], A().to_dict()
''', 'a default that is not equal to itself, NaN say', 'a value that does not equal the default is left out')

plant('C13-keywords-first', 'C13', [(SEL, """        ret = self
        for other in others:
            ret = ret._merge(other)
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        return ret
""", """        ret = self
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        for other in others:
            ret = ret._merge(other)
        return ret
""")], '''
from records.select import Select
s = Select(keys_to_rename=[('a', 'b')]).merge(Select(keys_to_rename=[('b', 'c')]), keys_to_rename=[('c', 'd')])
assert s({'a': 1}) == {'d': 1}
''', 'a merge with both Selects and keywords, with an effect on the same keys', 'the lists are not concatenated in order')

plant('C16-none-values', 'C16', [(REC, """        return (), self.to_dict()

""", """        return (), {k: v for k, v in self.to_dict().items() if v is not None}

""")], '''
import pickle
from records import RecordBase
class A(RecordBase):
    x: object
    y: int = 0
r = pickle.loads(pickle.dumps(A(x=None)))
assert r == A(x=None)
''', 'a required field whose value is None', 'the pickle of such a record cannot be loaded')

plant('C20-unpack-consumed', 'C20', [(STD, """            v = tuple(v)
            if len(self._type_constraints) == 2 and self._type_constraints[1] is ...:
                if any(""", """            if len(self._type_constraints) == 2 and self._type_constraints[1] is ...:
                if any("""), (STD, """            else:
                if len(v) != len(self._type_constraints) \\
""", """            else:
                v = tuple(v)
                if len(v) != len(self._type_constraints) \\
""")], '''
from records import RecordBase, Annotated, check, LooseUnpack
class V:
    def __init__(self, *args): self.args = args
class A(RecordBase):
    x: Annotated[V, check, LooseUnpack.constrain(int, ...)()]
assert A(x=[1, 2]).x.args == (1, 2)
assert A(x=(i for i in [1, 2])).x.args == (1, 2)
''', 'a one-shot iterable and a constraint on any number of elements', 'the target is built without the elements')

plant('C09-delete-others', 'C09', [(REC, """        if self.is_frozen():
            raise TypeError(f'{type(self).__qualname__} is frozen')
        return super().__delattr__(a)
""", """        if self.is_frozen() and a in self._fields:
            raise TypeError(f'{type(self).__qualname__} is frozen')
        return super().__delattr__(a)
""")], '''
from records import RecordBase
class A(RecordBase, frozen=True):
    x: int
    def post_new(self): self.__dict__['cached'] = 5
a = A(x=1)
try:
    del a.cached
except TypeError:
    pass
assert a.cached == 5
''', 'an attribute that is no field of a frozen record, made by the post-creation hook say', 'it can be deleted')

plant('C06-falsy-replacement', 'C06', [(REC, """            if replacement is not None:
                self = replacement
""", """            self = replacement or self
""")], '''
from records import RecordBase
class A(RecordBase):
    xs: list
    def __len__(self): return len(self.xs)
    def post_new(self):
        if 0 in self.xs:
            return A(xs=[x for x in self.xs if x])
assert A(xs=[0, 1]).xs == [1]
assert A(xs=[0]).xs == []
''', 'a hook that returns a record whose truth value is false', 'it does not replace the record')

plant('C17-own-required', 'C17', [(REC, """            unary_parse = len(cls._required_keys) != 1
""", """            unary_parse = sum(1 for k in own_annotations if k in cls._required_keys) != 1
""")], '''
from records import RecordBase
class P(RecordBase):
    x: int
class C(P):
    y: int
class D(P):
    z: int = 0
assert C._unary_parse and not D._unary_parse
assert C({'x': 1, 'y': 2}).y == 2
assert D(5).x == 5
assert D({'x': 1}).x == {'x': 1}
''', 'required fields that are inherited', 'whether unary parsing is enabled depends on the own fields only')

plant('C19-own-exception', 'C19', [(VAL, """        if isinstance(self.err, Exception):
            return self.err
        if self.warn:
            return UserWarning(self.err)
""", """        if self.warn:
            return UserWarning(self.err)
        if isinstance(self.err, Exception):
            return self.err
""")], '''
import warnings
from records import RecordBase, Annotated, Within
class W(UserWarning): pass
class A(RecordBase):
    x: Annotated[int, Within(0, 5, err=W('no'), warn=True)]
with warnings.catch_warnings(record=True) as log:
    warnings.simplefilter('always')
    assert A(x=9).x == 9
assert [type(w.message) for w in log] == [W], log
''', 'an assertion that warns, configured with a warning object', 'another warning than the configured one is issued')

plant('C18-equal-coercers', 'C18', [(FIL, """        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is not None:
            self.coercers.append(self.get_coercer(coercion_token))
            return
""", """        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is not None:
            coercer = self.get_coercer(coercion_token)
            if coercer not in self.coercers:
                self.coercers.append(coercer)
            return
""")], '''
from records import RecordBase, Annotated, check, CallCoercion
class F:
    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, F)
    __hash__ = None
    def __call__(self, v):
        if v != self.n: raise TypeError
        return int(v)
from records.fillers.coercers import CoercionToken
class T(CoercionToken):
    def __init__(self, n): self.n = n
    def __call__(self, origin, filler): return F(self.n)
class A(RecordBase):
    x: Annotated[int, check, T('1'), T('2')]
assert A(x='1').x == 1
assert A(x='2').x == 2
''', 'two coercers that compare equal', 'the second is dropped')
