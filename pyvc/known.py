"""Attributes the contracts know of: those the package stores or declares as of the tree the contracts were written for."""
import ast
import functools
import pathlib

KNOWN = frozenset('''
Bound BoundToClass _MockField __args__ __bool__ __call__ __class_getitem__ __copy__ __deepcopy__ __delattr__ __eq__
__ge__ __get__ __getnewargs_ex__ __gt__ __hash__ __init__ __init_subclass__ __le__ __lt__ __new__ __ordering_key
__origin__ __parser__ __reduce_ex__ __repr__ __setattr__ __slots__ _apply _apply_factory _apply_to_filler _bool
_bool_from_int _check_comparable _default_type_check_style _exc _fields _frozen _hash _merge _optional_keys _ordered
_parsers _raise _required_keys _shortcut _to_dict _type_constraint _type_constraints _unary_parse
add_assert_validator add_bound add_coercer add_validator applied apply args assert_ base_type bind check
check_strict coerce coercers constrain default default_is_factory default_type_check_style descriptor element_filler
empty err exact export_args export_kwargs export_with factory_map fill filler filter_by_tag from_instance from_json
from_json_io from_mapping from_pickle from_pickle_io from_type_hint func func_args g_eq ge get_coercer get_validator
has_default hollow inexact inner inner_args inner_coercers inner_filler inner_type inner_types is_default is_frozen
is_hollow is_passthrough key_filler key_type keys_to_add keys_to_maybe_add keys_to_maybe_remove keys_to_maybe_rename
keys_to_remove keys_to_rename kwargs l_eq le lt make_default maximum merge method minimum name new_origin no_coerce
no_coerce_strict origin owner owner_cls parse pattern possible_values post_new pre_bind reconstruct run select
select_ shortcut sub_filler sub_fillers sub_types tags to_dict to_json to_pickle type_check type_checking_style
type_pass_kind validators value_filler value_map value_type warn
'''.split())

STORED = frozenset('''
__args__ __hash__ __origin__ __parser__ __setattr__ _bool _default_type_check_style _fields _frozen _hash
_optional_keys _ordered _parsers _required_keys _shortcut _type_constraint _type_constraints _unary_parse add_bound
applied args base_type coercers default default_is_factory descriptor element_filler empty err export_args
export_kwargs factory_map filler func g_eq ge inner inner_args inner_coercers inner_filler inner_type inner_types
key_filler key_type keys_to_add keys_to_maybe_add keys_to_maybe_remove keys_to_maybe_rename keys_to_remove
keys_to_rename kwargs l_eq le lt maximum method minimum name origin owner owner_cls pattern possible_values select_
sub_fillers sub_types tags type_checking_style validators value_filler value_map value_type warn
'''.split())


@functools.cache
def renamed():
    """attributes the contracts know that nothing stores or reads any more, if there are new ones in their stead: what
    the contracts say of them says nothing of such a tree"""
    import records
    used = set()
    for f in pathlib.Path(records.__path__[0]).rglob('*.py'):
        used |= {n.attr for n in ast.walk(ast.parse(f.read_text())) if isinstance(n, ast.Attribute)}
        used |= {n.value for n in ast.walk(ast.parse(f.read_text())) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    return sorted(STORED - used) if new_state() else []


@functools.cache
def new_state():
    """attributes that the code under verification stores and that the contracts say nothing of"""
    import records
    out = set()
    for f in pathlib.Path(records.__path__[0]).rglob('*.py'):
        for n in ast.walk(ast.parse(f.read_text())):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and ast.unparse(n.func).split('.')[-1] in ('setattr', '__setattr__'):
                out |= {a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
    return out - KNOWN
