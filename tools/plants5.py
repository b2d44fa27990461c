import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
STD = 'records/fillers/builtin_fillers/std_fillers.py'
BV = 'records/fillers/builtin_validators.py'
VAL = 'records/fillers/validators.py'
FIL = 'records/fillers/filler.py'
SEL = 'records/select.py'
REC = 'records/record.py'
FLD = 'records/field.py'
COE = 'records/fillers/coercers.py'

plant('C03-position-in-filler', 'C03', [(TYP, """            def inner_validator(v):
                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
""", """            def inner_validator(v):
                self.hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        self.hollow_passes += 1
                    else:
                        pre, post = _split_at(v, self.hollow_passes)
""")], '''
from typing import List
from records import RecordBase, Annotated, check, CallCoercion
def node(v): return Node(kids=v)
class Node(RecordBase, unary_parse=False):
    kids: 'Annotated[List[Annotated[Node, check, CallCoercion(node)]], check]'
a = Node(kids=[])
n = Node(kids=[a, [a, a, a], a])
assert len(n.kids) == 3 and n.kids[0] is a and n.kids[2] is a, n
assert len(n.kids[1].kids) == 3, n
''', 'a record that holds a list of records of its own class, made while the outer list is processed', 'the elements after the inner list are lost or repeated')

plant('C08-successes-on-class', 'C08', [(REC, """        successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
        if len(""", """        cls._successes = successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                cls._successes.append(r)
        successes = cls._successes
        if len(""")], '''
from records import RecordBase, parser
class A(RecordBase):
    x: object
    y: object
    @parser
    @classmethod
    def p(cls, v):
        if type(v) is not list: raise TypeError
        return cls(x=[cls.parse(i) for i in v], y=0)
    @parser
    @classmethod
    def q(cls, v):
        if type(v) is not str: raise TypeError
        return cls(x=v, y=1)
assert A.parse('a').x == 'a'
a = A.parse(['a'])
assert a.y == 0 and a.x[0].x == 'a'
''', 'a parser that parses with its own class', 'parsing within parsing mixes up the results')

plant('C05-best-kept', 'C05', [(TYP, """        best_results = []
        best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and""", """        best_results = []
        self.best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and"""), (TYP, """            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
""", """            if success.type_pass_kind < self.best_key:
                best_results = [success.value]
                self.best_key = success.type_pass_kind
            elif success.type_pass_kind == self.best_key:
"""), (TYP, """        return FillingSuccess(best_results[0], best_key)
""", """        return FillingSuccess(best_results[0], self.best_key)
""")], '''
from typing import Union
from records import RecordBase, Annotated, check, CallCoercion
def node(v): return Node(x=v[0])
class Node(RecordBase, unary_parse=False):
    x: 'Union[Annotated[int, check, CallCoercion(float.__int__)], Annotated[Node, check, CallCoercion(node)], Annotated[Node, check, CallCoercion(node)]]'
assert Node(x=5).x == 5
try:
    n = Node(x=[5])
except ValueError:
    pass
else:
    raise AssertionError(n)
''', 'a Union that is under way twice at once', 'the results are mixed up')

plant('C09-hash-guard', 'C09', [(REC, """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
""", """        if self._hash is None:
            cls = type(self)
            cls._hashing = tuple(self.to_dict().values())
            h = 0
            while cls._hashing:
                v, *cls._hashing = cls._hashing
                h = hash((h, v))
            self._hash = h
        return self._hash
""")], '''
from records import RecordBase
class A(RecordBase, frozen=True):
    x: object
    y: object
def make(): return A(x=1, y=A(x=2, y=3)), A(x=A(x=2, y=3), y=1)
for i in range(2):
    a, b = make()[i], make()[i]
    hash(b.x), hash(b.y)
    assert a == b and hash(a) == hash(b), i
''', 'a record that holds records of its class whose hash was not computed before', 'equal records have different hashes')

plant('C16-copy-flag', 'C16', [(REC, """        d = deepcopy(d, memo)
        return self.from_mapping(d)
""", """        cls = type(self)
        cls._copying = {}
        for k, v in d.items():
            cls._copying[k] = deepcopy(v, memo)
        return self.from_mapping(cls._copying)
""")], '''
import copy
from records import RecordBase
class A(RecordBase, unary_parse=False):
    a: object
    b: object
r = A(a=[1], b=A(a=[2], b=[3]))
c = copy.deepcopy(r)
assert c == r, c
''', 'a record that holds a record of its class', 'the inner copy replaces what was copied before')
