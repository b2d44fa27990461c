"""C09: what a frozen class guards, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['frozen as defined',
           'a frozen class guards its attributes and hashes',
           'any other class does neither',
           'inherited and own fields are what was declared']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
