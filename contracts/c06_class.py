"""C06: the declared fields of the class, by the definition of the class (proved whole for C17)."""
from . import c17
from .share import of, only

ASSUMES = c17.ASSUMES
MATTERS = ['the fields of the parents and of the body',
           'inherited and own fields are what was declared',
           'the default is what the body assigns, if anything',
           'required are the fields without a default',
           'optional are the fields with a default',
           'an own field has a default exactly if the body assigns it']
CONTRACTS = [only(c, *MATTERS) for c in of(
    c17, 'RecordBase.__init_subclass__ with no record parent',
    'RecordBase.__init_subclass__ without annotations, with one record parent')]
