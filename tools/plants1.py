import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from plant import plant
TYP = 'records/fillers/builtin_fillers/typing_fillers.py'
FIL = 'records/fillers/filler.py'
SEL = 'records/select.py'
REC = 'records/record.py'

plant('C03-equal-elements', 'C03', [(TYP, '''                    filled = self.element_filler(element)
                    if filled is element:
''', '''                    filled = self.element_filler(element)
                    if filled == element:
''')], '''
from typing import List
from records import RecordBase, check, check_strict, Annotated, TypeCheckStyle
class A(RecordBase, default_type_check=check):
    x: List[Annotated[int, check_strict]]
    @classmethod
    def pre_bind(cls):
        super().pre_bind()
        cls.x.add_coercer(int, sub_key=0)
a = A(x=[1, True, 0])
assert all(type(e) is int for e in a.x), a.x
''', 'an element whose filled value equals it without being it', 'elements equal to their filled values are kept unfilled')

plant('C04-equal-keys', 'C04', [(TYP, '(k is not filled_k) or (v is not filled_v)', '(k != filled_k) or (v is not filled_v)')], '''
from typing import Dict
from records import RecordBase, check, check_strict, Annotated
class A(RecordBase, default_type_check=check):
    x: Dict[Annotated[int, check_strict], str]
    @classmethod
    def pre_bind(cls):
        super().pre_bind()
        cls.x.add_coercer(int, sub_key=0)
a = A(x={True: 'y', 2: 'z'})
assert all(type(k) is int for k in a.x), a.x
''', 'a key whose filled value equals it without being it, all values unchanged', 'such keys are kept unfilled')

plant('C05-first-two', 'C05', [(TYP, 'any(r is not best_results[0] for r in best_results[1:])', 'best_results[1] is not best_results[0]')], '''
from typing import Union
from records import RecordBase, check, Annotated
from records.fillers.validators import CallValidation
class J(int): pass
class K(RecordBase):
    x: Union[Annotated[int, check], Annotated[float.__base__, check], Annotated[J.__base__, check, CallValidation(lambda v: [v])]]
try:
    k = K(x=J(4))
except ValueError:
    pass
else:
    raise AssertionError(k)
''', 'three members match equally well, the first two with the identical value and the third with another', 'the ambiguity is not noticed')

plant('C12-rename-onto-itself', 'C12', [(SEL, '''            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError''', '''            if s not in mapping:
                continue
            if s != d and d in mapping:
                raise ValueError''')], '''
from records.select import Select
for s in [dict(a=1, b=2)]:
    try:
        r = Select(keys_to_maybe_rename=[('a', 'a')])(dict(s))
    except ValueError:
        pass
    else:
        raise AssertionError(r)
''', 'an optional rename of a present key onto itself', 'a rename onto an existing key is accepted')

plant('C01-validator-none', 'C01', [(FIL, "            arg = validator(arg)\n", "            filled = validator(arg)\n            if filled is not None:\n                arg = filled\n")], '''
from typing import Any
from records import RecordBase, check, Annotated
class A(RecordBase, default_type_check=check):
    x: Any
    @classmethod
    def pre_bind(cls):
        super().pre_bind()
        cls.x.add_validator(lambda v: v or None)
assert A(x='').x is None, A(x='')
''', 'a validator that returns None', 'the result of the validator is ignored')
