"""C18: when fillers are bound, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['the pre-bind hook runs once',
           'no filler is bound before the hook',
           'fillers are bound to the class',
           'only fillers of own fields are bound',
           'after the pre-bind hook',
           'the default check style as defined',
           'the default check style is known',
           'the pre-bind hook has run',
           'the fillers of own fields are bound once',
           'no other fillers are',
           'no error is swallowed',
           'the hints are those of the class',
           'a field is made of the hint of its name']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
