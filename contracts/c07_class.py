"""C07: which field is the only required one, and whether parsing is enabled, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['required are the fields without a default',
           'unary parsing unless exactly one field is required',
           'unary parsing as defined']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
