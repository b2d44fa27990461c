"""C08: the parsers of the class, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['the parsers are the attributes marked as such']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
