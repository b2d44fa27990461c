"""C05: the fillers of the members."""
from . import c18_get, c18_make
from .share import of

ASSUMES = [*c18_get.ASSUMES, *c18_make.ASSUMES]
CONTRACTS = [
    *of(c18_get, 'get_annotated_filler', 'get_filler'), *of(c18_make, 'UnionFiller.__init__'),
]
