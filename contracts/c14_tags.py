"""C14: equality of the tags in blacklists and whitelists."""
from . import c18_tags
from .share import of

ASSUMES = c18_tags.ASSUMES
CONTRACTS = of(c18_tags, 'Tag.*')
