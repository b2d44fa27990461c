"""C03: the fillers of the elements."""
from . import c18_get, c18_make, c18_bind
from .share import of

ASSUMES = [*c18_get.ASSUMES, *c18_make.ASSUMES, *c18_bind.ASSUMES]
CONTRACTS = [
    *of(c18_get, 'get_annotated_filler', 'get_filler'), *of(c18_make, 'TupleFiller.__init__', 'GenericIterableFiller.__init__', 'GenericDequeFiller.__init__'),
    *of(c18_bind, 'binding GenericIterable*', 'binding GenericDeque*', 'binding Tuple*'),
]
