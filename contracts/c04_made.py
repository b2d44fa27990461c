"""C04: the fillers of keys and values."""
from . import c18_get, c18_make, c18_bind
from .share import of

ASSUMES = [*c18_get.ASSUMES, *c18_make.ASSUMES, *c18_bind.ASSUMES]
CONTRACTS = [
    *of(c18_get, 'get_annotated_filler', 'get_filler'), *of(c18_make, 'GenericMappingFiller.__init__', 'DefaultDictFiller.__init__'),
    *of(c18_bind, 'binding GenericMapping*', 'binding DefaultDict*'),
]
