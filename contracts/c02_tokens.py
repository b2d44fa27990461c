"""C02: the style of a field and the filler its hint is given."""
from . import c18, c18_get, c18_make
from .share import of

ASSUMES = [*getattr(c18, 'ASSUMES', []), *c18_get.ASSUMES, *c18_make.ASSUMES]
CONTRACTS = [
    *of(c18, 'AnnotatedFiller.*', 'SimpleFiller.bind'), *of(c18_get, 'get_annotated_filler', 'get_filler', 'split_annotation'),
    *of(c18_make, 'TypeFiller.__init__', 'WrapperFiller.__init__', 'SimpleFiller.__init__', 'NoneFiller.__init__', 'EllipsisFiller.__init__', 'CallableFiller.__init__'),
]
