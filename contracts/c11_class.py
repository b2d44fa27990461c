"""C11: the order of the fields, and whether the class is ordered, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['ordered as defined',
           'parents first, in order, and then the body in order']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
