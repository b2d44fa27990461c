"""C18: tokens put on a Union reach its members (proved for C05)."""
from . import c05
from .share import of

ASSUMES = c05.ASSUMES
CONTRACTS = of(c05, 'UnionFiller.apply', 'UnionFiller.bind')
