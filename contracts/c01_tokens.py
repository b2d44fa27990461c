"""C01: coercers and validators are kept in the order of their declaration, and a wrapper's are those of what it wraps."""
from . import c18, c18_make, c18_bind
from .share import of

ASSUMES = [*getattr(c18, 'ASSUMES', []), *c18_make.ASSUMES, *c18_bind.ASSUMES]
CONTRACTS = [
    *of(c18, '*'), *of(c18_make, 'SimpleFiller.__init__', 'BoolFiller.__init__', 'NoneFiller.__init__', 'EllipsisFiller.__init__', 'CallableFiller.__init__'),
    *of(c18_bind, 'WrapperFiller.*', 'binding WrapperFiller'),
]
