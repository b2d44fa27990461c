"""Edits of /repo that keep the behaviour, and a runner that makes sure that the checks stay quiet on them.

python3 tools/refactors.py [--props C01,C02] [NAME...]   (each in its own scratch copy under /tmp; prints alarms and losses of proofs)
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R, F, S = 'records/record.py', 'records/field.py', 'records/select.py'
FIL, GET, TYP = 'records/fillers/filler.py', 'records/fillers/get_filler.py', 'records/fillers/builtin_fillers/typing_fillers.py'
STD, BV, VAL = 'records/fillers/builtin_fillers/std_fillers.py', 'records/fillers/builtin_validators.py', 'records/fillers/validators.py'
COE, UTL, DEC, TAG = 'records/fillers/coercers.py', 'records/fillers/util.py', 'records/utils/decorators.py', 'records/tags.py'
REFACTORS = {}


def ref(name, *edits):
    REFACTORS[name] = edits


# --- record.py
ref('new-helper-fill',
    (R, """        for k, v in kwargs.items():
            try:
                values[k] = cls._fields[k].filler(v)
            except Exception as e:
                # if filling failed, check if we have a parsing standing by
                if parsing is not NO_PARSING:
                    return parsing
                msg = f'error filling filling {k}'
                # try to create a parent error of the same type as the original error
                try:
                    parent_error = type(e)(msg)
                except Exception:
                    parent_error = ValueError(msg)

                raise parent_error from e
""", """        for k in kwargs:
            try:
                values[k] = cls._fields[k].filler(kwargs[k])
            except Exception as e:
                if parsing is NO_PARSING:
                    raise cls._named_error(k, e) from e
                return parsing
"""), (R, """    def post_new(self: T)""", """    @staticmethod
    def _named_error(k, e):
        msg = f'error filling filling {k}'
        try:
            return type(e)(msg)
        except Exception:
            return ValueError(msg)

    def post_new(self: T)"""))
ref('new-trivial-local',
    (R, """            if len(cls._required_keys) != 1:
                # no trivial field
                if parsing is not NO_PARSING:
                    return parsing
                raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')

            # we have a trivial field
            arg_key = next(iter(cls._required_keys))
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs[arg_key] = arg
""", """            trivial = len(cls._required_keys) == 1
            if trivial:
                arg_key, = cls._required_keys
                if arg_key in kwargs:
                    raise TypeError(f'duplicate {arg_key}')
                kwargs = {**kwargs, arg_key: arg}
            elif parsing is not NO_PARSING:
                return parsing
            else:
                raise TypeError(f'class {cls.__qualname__} accepts no positional arguments')
"""))
ref('new-redundant-loop',
    (R, """        if not (kwargs.keys() <= cls._fields.keys()):
            redundant = kwargs.keys() - cls._fields.keys()
            raise TypeError""", """        redundant = {k for k in kwargs if k not in cls._fields}
        if redundant:
            raise TypeError"""))
ref('new-missing-first',
    (R, """        if not (cls._required_keys <= kwargs.keys()):
            required = cls._required_keys.difference(kwargs)
            raise TypeError""", """        required = [k for k in cls._required_keys if k not in kwargs]
        if required:
            raise TypeError"""))
ref('new-defaults-loop',
    (R, """            for k in cls._optional_keys.difference(kwargs):
                values[k] = cls._fields[k].make_default()
        except Exception:""", """            for k in cls._optional_keys:
                if k in kwargs:
                    continue
                field = cls._fields[k]
                values[k] = field.make_default()
        except Exception:"""))
ref('new-replacement', (R, """            replacement = self.post_new()
            if replacement is not None:
                self = replacement
        except""", """            ret = self.post_new()
        except"""), (R, """            raise

        # if we have successfully create""", """            raise
        if ret is None:
            ret = self

        # if we have successfully create"""), (R, """                            'and as unary argument')
        return self
""", """                            'and as unary argument')
        return ret
"""))
ref('new-setdict', (R, """        self.__dict__.update(values)
        if cls._frozen:""", """        for k, v in values.items():
            self.__dict__[k] = v
        if cls._frozen:"""))
ref('eq-all', (R, """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""", """        return not any(getattr(self, name) != getattr(other, name) for name in self._fields)
"""))
ref('eq-nested', (R, """        if type(self) != type(other):
            return False
        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
            return False
""", """        if type(self) is not type(other):
            return False
        if type(self).is_frozen():
            mine, theirs = self._hash, other._hash
            if mine is not None and theirs is not None and mine != theirs:
                return False
"""))
ref('eq-no-hash', (R, """        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
            return False
""", ""))
ref('hash-local', (R, """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
""", """        ret = self._hash
        if ret is None:
            ret = hash(tuple(self.to_dict().values()))
            self._hash = ret
        return ret
"""))
ref('parse-first', (R, """        successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
""", """        ret, count = None, 0
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                continue
            if not count:
                ret = r
            count += 1
        if count > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')
        if not count:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        return ret
"""))
ref('pickle-helper', (R, """        ret = extras.pickle.loads(v, *args, **kwargs)
        if not isinstance(ret, cls):
            return cls.parse(ret)
        return ret
""", """        return cls._unpickled(extras.pickle.loads(v, *args, **kwargs))

    @classmethod
    def _unpickled(cls, ret):
        return ret if isinstance(ret, cls) else cls.parse(ret)
"""), (R, """        ret = extras.pickle.load(v, *args, **kwargs)
        if not isinstance(ret, cls):
            return cls.parse(ret)
        return ret
""", """        return cls._unpickled(extras.pickle.load(v, *args, **kwargs))
"""))
ref('subclass-parents-first', (R, """        parent_fields = {}
        for parent in parents:
            field: RecordField
            for k, field in parent._fields.items():
                if k in cls._fields or k in parent_fields:
                    raise ValueError(f'cannot override inherited field {k}')
                parent_fields[k] = field
        if parent_fields:
            cls._fields = FieldDict({**parent_fields, **cls._fields})
""", """        all_fields = FieldDict()
        for parent in parents:
            for k in parent._fields:
                if k in cls._fields or k in all_fields:
                    raise ValueError(f'cannot override inherited field {k}')
                all_fields[k] = parent._fields[k]
        all_fields.update(cls._fields)
        cls._fields = all_fields
"""))
ref('subclass-keys-loop', (R, """        cls._required_keys = {k for (k, f) in cls._fields.items() if not f.has_default}
        cls._optional_keys = {k for k in cls._fields if k not in cls._required_keys}
""", """        cls._required_keys = set()
        cls._optional_keys = set()
        for k, f in cls._fields.items():
            (cls._optional_keys if f.has_default else cls._required_keys).add(k)
"""))
ref('subclass-parsers-comprehension', (R, """        cls._parsers = []
        for name in dir(cls):
            v = getattr_static(cls, name)
            if getattr(v, '__parser__', False):
                cls._parsers.append(getattr(cls, name))
""", """        cls._parsers = [getattr(cls, name) for name in dir(cls)
                        if getattr(getattr_static(cls, name), '__parser__', False)]
"""))
ref('subclass-helper', (R, """        for name in own_annotations:
            # initialize the field
            field = RecordField.from_type_hint(type_hints[name],
                                               owner=cls, name=name,
                                               default=cls.__dict__.get(name, NO_DEFAULT))
            if field is SKIP_FIELD:
                continue
            cls._fields[name] = field
            setattr(cls, name, field)
""", """        for name in own_annotations:
            cls._add_own(name, type_hints[name])
"""), (R, """    @classmethod
    def pre_bind(cls):""", """    @classmethod
    def _add_own(cls, name, hint):
        default = cls.__dict__.get(name, NO_DEFAULT)
        field = RecordField.from_type_hint(hint, owner=cls, name=name, default=default)
        if field is not SKIP_FIELD:
            cls._fields[name] = field
            setattr(cls, name, field)

    @classmethod
    def pre_bind(cls):"""))
ref('to-dict-inline', (R, """        name_values = tuples()
        if sort:
            if sort == -1:
                name_values = sorted(name_values, reverse=True)
            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)

        return dict(name_values)
""", """        if not sort:
            return dict(tuples())
        name_values = list(tuples())
        if sort == -1:
            name_values = sorted(name_values, reverse=True)
        elif callable(sort):
            name_values = sorted(name_values, key=lambda item: sort(item[0]))
        else:
            name_values = sorted(name_values)
        return dict(name_values)
"""))
ref('to-dict-list', (R, """        def tuples():
            # inner function to lazily get the key-value tuples
            for field in""", """        def tuples():
            ret = []
            for field in"""), (R, """                        yield field.name, field.make_default()
                else:
                    if export_value(field, v):
                        yield field.name, v
""", """                        ret.append((field.name, field.make_default()))
                else:
                    if export_value(field, v):
                        ret.append((field.name, v))
            return ret
"""))
ref('to-dict-tags-loop', (R, """            return f.name in whitelist_keys or not (f.tags & blacklist_tags)
""", """            if f.name in whitelist_keys:
                return True
            return not any(t in blacklist_tags for t in f.tags)
"""))
ref('from-instance-chain', (R, """        d = cls._to_dict(v, _rev_select=_select)
        for m in maps:
            d.update(m)
        d.update(kwargs)
        return d
""", """        d = cls._to_dict(v, _rev_select=_select)
        for m in (*maps, kwargs):
            for k in m:
                d[k] = m[k]
        return d
"""))
ref('from-mapping-plain', (R, """        for m in reversed(maps):
            ret.update({**m})
        return ret
""", """        for m in maps[::-1]:
            ret = {**ret, **m}
        return ret
"""))
ref('deepcopy-short', (R, """        d = self.to_dict(include_defaults=True)
        d = deepcopy(d, memo)
        return self.from_mapping(d)
""", """        values = deepcopy(self.to_dict(include_defaults=True), memo)
        return type(self).from_mapping(values)
"""))
ref('ordering-list', (R, """        f: RecordField
        ret = []
        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
""", """        return tuple(getattr(self, k) for k, f in type(self)._fields.items() if exclude_from_ordering not in f.tags)
"""))
ref('ordering-helper', (R, """    def __lt__(self, other):
        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() < other.__ordering_key()
""", """    def __compare(self, other, op):
        self._check_comparable()
        if isinstance(other, type(self)):
            return op(self.__ordering_key(), other.__ordering_key())
        return NotImplemented

    def __lt__(self, other):
        return self.__compare(other, lambda a, b: a < b)
"""))
ref('reduce-rewrite', (R, """        state = reduced[2] if isinstance(reduced, tuple) and len(reduced) > 2 else None
        if isinstance(state, tuple) and len(state) == 2 and isinstance(state[1], dict):
            # the cached hash may be meaningless in the process that loads the record
            state[1].pop('_hash', None)
        return reduced
""", """        if isinstance(reduced, tuple) and len(reduced) > 2:
            state = reduced[2]
            if isinstance(state, tuple) and len(state) == 2:
                slots = state[1]
                if isinstance(slots, dict) and '_hash' in slots:
                    del slots['_hash']
        return reduced
"""))
ref('setattr-rewrite', (R, """        if a in RecordBase.__slots__:
            return super().__setattr__(a, value)
        raise TypeError(f'{type(self).__qualname__} is frozen')
""", """        if a not in RecordBase.__slots__:
            raise TypeError(f'{type(self).__qualname__} is frozen')
        super().__setattr__(a, value)
"""))
# --- field.py
ref('field-default-flag', (F, """        if self.default_is_factory:
            return self.default()
        return self.default
""", """        default = self.default
        return default() if self.default_is_factory else default
"""))
ref('field-hint-loop', (F, """        if meta_org is Final:
            if not owner.is_frozen():
                raise TypeError('cannot declare Final field in non-frozen Record')
            inner = get_args(origin)[0]
            return cls.from_type_hint(Annotated[(inner, *args)] if args else inner, owner=owner, **kwargs)
        filler = get_filler(th)
""", """        if meta_org is Final:
            if owner.is_frozen():
                inner, = get_args(origin)
                if args:
                    inner = Annotated[(inner, *args)]
                return cls.from_type_hint(inner, owner=owner, **kwargs)
            raise TypeError('cannot declare Final field in non-frozen Record')
        filler = get_filler(th)
"""))
ref('field-filter', (F, "        return FieldDict((k, f) for (k, f) in self.items() if (tag in f.tags))\n", """        ret = FieldDict()
        for k in self:
            if tag in self[k].tags:
                ret[k] = self[k]
        return ret
"""))
# --- select.py
ref('select-init-helper', (S, """        if isinstance(keys_to_add, Mapping):
            keys_to_add = tuple(keys_to_add.items())
        if isinstance(keys_to_maybe_add, Mapping):
            keys_to_maybe_add = tuple(keys_to_maybe_add.items())
        if isinstance(keys_to_rename, Mapping):
            keys_to_rename = tuple(keys_to_rename.items())
        if isinstance(keys_to_maybe_rename, Mapping):
            keys_to_maybe_rename = tuple(keys_to_maybe_rename.items())
""", """        def pairs(x):
            return tuple(x.items()) if isinstance(x, Mapping) else x
        keys_to_add = pairs(keys_to_add)
        keys_to_maybe_add = pairs(keys_to_maybe_add)
        keys_to_rename = pairs(keys_to_rename)
        keys_to_maybe_rename = pairs(keys_to_maybe_rename)
"""))
ref('select-merge-plus', *[(S, f"            {k}=tuple(chain(self.{k}, other.{k})),\n", f"            {k}=self.{k} + other.{k},\n")
                           for k in ('keys_to_add', 'keys_to_maybe_add', 'keys_to_remove', 'keys_to_maybe_remove', 'keys_to_rename', 'keys_to_maybe_rename')])
ref('select-bool-any', (S, """            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""", """            self._bool = bool(self.keys_to_add or self.keys_to_maybe_add or self.keys_to_remove
                              or self.keys_to_maybe_remove or self.keys_to_rename or self.keys_to_maybe_rename)
"""))
ref('select-call-helper', (S, """        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
        for s, v in self.keys_to_add:
            if s in mapping:
                raise ValueError(f'key {s} cannot be overridden in map')
            mapping[s] = v
        for s, v in self.keys_to_maybe_add:
            if s in mapping:
                continue
            mapping[s] = v
""", """        def put(d, v):
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = v() if callable(v) and v in takers else v
        takers = []
        for s, d in self.keys_to_rename:
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            value = mapping.pop(s)
            put(d, value)
        for s, d in self.keys_to_maybe_rename:
            if s in mapping:
                if d in mapping:
                    raise ValueError(f'key {d} cannot be overridden in map')
                value = mapping.pop(s)
                put(d, value)
        for s, v in self.keys_to_add:
            put(s, v)
        for s, v in self.keys_to_maybe_add:
            if s not in mapping:
                mapping[s] = v
""".replace(" = v() if callable(v) and v in takers else v", " = v").replace("        takers = []\n", "")))
ref('select-call-del', (S, """        for kti in self.keys_to_remove:
            mapping.pop(kti)
        for kti in self.keys_to_maybe_remove:
            mapping.pop(kti, None)
""", """        for kti in self.keys_to_remove:
            del mapping[kti]
        for kti in self.keys_to_maybe_remove:
            if kti in mapping:
                del mapping[kti]
"""))
ref('exporter-chain', (S, """            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
""", """            export_args = self.export_args + args
            export_kwargs = dict(self.export_kwargs)
            export_kwargs.update(kwargs)
            return type(self)(self.descriptor, self.owner, export_args, export_kwargs, self.select_)
"""))
ref('factory-inline', (S, """        mapping = self.func(cls, *args, **kwargs)
        mapping = select(mapping)
        return cls(**mapping)

    def __get__""", """        return cls(**select(self.func(cls, *args, **kwargs)))

    def __get__"""))
ref('shortcut-nested', (S, """        if not select and self._shortcut:
            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
""", """        ret = NotImplemented
        if self._shortcut is not None and not select:
            ret = self._shortcut(cls, *args, **kwargs)
        if ret is NotImplemented:
            ret = super().run(cls, args, kwargs, select)
        return ret
"""))
# --- fillers
ref('fill-coerce-helper', (FIL, """                if not self.coercers:
                    raise TypeError(f'failed type checking for value of type {type(arg)}')
                for i, coercer in enumerate(self.coercers):
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        if not tc \\
                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
                    else:
                        arg = coerced
                        break
                tpk = TypePassKind.coerce
""", """                arg = self._coerce(arg)
                tpk = TypePassKind.coerce
"""), (FIL, """    def bind(self, owner_cls):
        for arg in self.args:""", """    def _coerce(self, arg):
        if not self.coercers:
            raise TypeError(f'failed type checking for value of type {type(arg)}')
        last_error = None
        for coercer in self.coercers:
            try:
                coerced = coercer(arg)
                tc = self.type_check(coerced)
                if not tc or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                    raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                return coerced
            except Exception as e:
                last_error = e
        raise last_error

    def bind(self, owner_cls):
        for arg in self.args:"""))
ref('fill-validate-helper', (FIL, """        # validation
        for validator in self.validators:
            arg = validator(arg)

        return FillingSuccess(arg, tpk)
""", """        return FillingSuccess(self._validate(arg), tpk)

    def _validate(self, arg):
        for validator in self.validators:
            arg = validator(arg)
        return arg
"""))
ref('fill-kinds', (FIL, """            tp = self.type_check(arg)
            if tp is TypeMatch.exact:
                tpk = TypePassKind.no_coerce_strict
            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:
                tpk = TypePassKind.no_coerce
            else:
""", """            kinds = {TypeMatch.exact: TypePassKind.no_coerce_strict}
            if self.type_checking_style is TypeCheckStyle.check:
                kinds[TypeMatch.inexact] = TypePassKind.no_coerce
            tp = self.type_check(arg)
            if tp in kinds:
                tpk = kinds[tp]
            else:
"""))
ref('apply-elif', (FIL, """        if isinstance(token, TypeCheckStyle):
            self.type_checking_style = token
            return
        coercion_token = _as_instance(token, CoercionToken)
        if coercion_token is not None:
            self.coercers.append(self.get_coercer(coercion_token))
            return
        validation_token = _as_instance(token, ValidationToken)
        if validation_token is not None:
            self.validators.append(self.get_validator(validation_token))
            return
""", """        if isinstance(token, TypeCheckStyle):
            self.type_checking_style = token
        else:
            for kind, target, make in ((CoercionToken, self.coercers, self.get_coercer),
                                       (ValidationToken, self.validators, self.get_validator)):
                instance = _as_instance(token, kind)
                if instance is not None:
                    target.append(make(instance))
                    break
"""))
ref('union-first', (TYP, """        if len(best_results) > 1 and any(r is not best_results[0] for r in best_results[1:]):
            raise ValueError('multiple sub-fillers matched')

        return FillingSuccess(best_results[0], best_key)
""", """        ret = best_results[0]
        for r in best_results:
            if r is not ret:
                raise ValueError('multiple sub-fillers matched')
        return FillingSuccess(ret, best_key)
"""))
ref('union-collect', (TYP, """        best_results = []
        best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)
""", """        successes = []
        error = None
        for sub_filler in self.sub_fillers:
            try:
                successes.append(sub_filler.fill(arg))
            except Exception as e:
                error = e
        if not successes:
            raise error
        best_key = min(s.type_pass_kind for s in successes)
        best_results = [s.value for s in successes if s.type_pass_kind == best_key]
"""))
ref('tuple-list', (TYP, """                    hollow_passes = 0  # the number of elements that filled identically
                    for element in v:
                        filled = inner_filler.__call__(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
                            return type(v)(all_elements)
                    return v
""", """                    filled = [inner_filler(element) for element in v]
                    if all(a is b for a, b in zip(filled, v)):
                        return v
                    return type(v)(filled)
"""))
ref('iterable-list', (TYP, """                hollow_passes = 0  # the number of elements that filled identically
                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
""", """                elements = []
                changed = False
                for element in v:
                    filled = self.element_filler(element)
                    changed = changed or filled is not element
                    elements.append(filled)
                return self.reconstruct(elements, v) if changed else v
"""))
ref('mapping-loop', (TYP, """                tuples = [
                    (self.key_filler(k), self.value_filler(v))
                    for k, v in value.items()
                ]
                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
""", """                tuples = []
                changed = False
                for k, v in value.items():
                    filled_k = self.key_filler(k)
                    filled_v = self.value_filler(v)
                    if filled_k is not k or filled_v is not v:
                        changed = True
                    tuples.append((filled_k, filled_v))
                if not changed:
                    return value
                return self.reconstruct(tuples, value)
"""))
ref('literal-loop', (TYP, """        if type(v) in self.possible_values:
            return TypeMatch.exact
        return isinstance(v, tuple(self.possible_values)) and TypeMatch.inexact
""", """        if type(v) in self.possible_values:
            return TypeMatch.exact
        for t in self.possible_values:
            if isinstance(v, t):
                return TypeMatch.inexact
        return None
"""))
ref('generic-n', (TYP, """        fillers = [get_filler(it) for it in self.inner_types]
        for f in fillers:
            f.bind(owner_cls)
            if not f.is_passthrough():
                raise TypeError('A non-specialized filler cannot have non-hollow inner types')
""", """        for it in self.inner_types:
            f = get_filler(it)
            f.bind(owner_cls)
            if f.is_passthrough():
                continue
            raise TypeError('A non-specialized filler cannot have non-hollow inner types')
"""))
ref('typing-helper', (TYP, """    origin_cls = get_origin(stored_type)
    if origin_cls == Union or origin_cls == UnionType:
        return UnionFiller
    if origin_cls == Literal:
        return LiteralFiller
""", """    origin_cls = get_origin(stored_type)
    if origin_cls in (Union, UnionType):
        return UnionFiller
    elif origin_cls is Literal:
        return LiteralFiller
"""))
ref('get-filler-loop', (GET, """        blt_supertype = next((k for (k, v) in builtin_filler_map.items() if issubclass(origin, k)), None)
        if blt_supertype:
            return builtin_filler_map[blt_supertype](origin, args)
""", """        for supertype, filler_cls in builtin_filler_map.items():
            if issubclass(origin, supertype):
                return filler_cls(origin, args)
"""))
ref('dumb-order', (GET, """        super().__init__()
        forbid_inner_tokens(origin)
        self.origin = origin
""", """        forbid_inner_tokens(origin)
        super().__init__()
        self.origin = origin
"""))
ref('inner-tokens-loop', (GET, """            if any(_is_effective_token(t) for t in tokens):
                raise TypeError(f'cannot have tokens inside of type {stored_type}')
""", """            for t in tokens:
                if _is_effective_token(t):
                    raise TypeError(f'cannot have tokens inside of type {stored_type}')
"""))

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactors_more
refactors_more.add(ref)


def run(name, props, keep=False):
    d = f'/tmp/ref/{name}'
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree('/repo', d, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    for f, old, new in REFACTORS[name]:
        s = open(f'{d}/{f}').read()
        if s.count(old) != 1:
            # docstrings may stand between
            return name, [f'edit does not apply ({s.count(old)}): {f}']
        open(f'{d}/{f}', 'w').write(s.replace(old, new))
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'tests'], cwd=d, capture_output=True, text=True)
    out = []
    if t.returncode:
        out.append('tests fail: ' + t.stdout[-600:])
    for prop in props:
        ev = f'/tmp/ref/ev/{name}'
        os.makedirs(ev, exist_ok=True)
        env = dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE=ev)
        r = subprocess.run(['python3-vt', 'check.py', prop, *os.environ.get('CHECK_ARGS', '').split()], cwd=VERIF, capture_output=True, text=True, env=env)
        if r.returncode or 'VIOLATION' in r.stdout:
            out.append(f'ALARM {prop} rc={r.returncode}: {r.stdout[-700:]}{r.stderr[-300:]}')
        else:
            line = r.stdout.strip().splitlines()[-1]
            out.append(line)
    shutil.rmtree(d, ignore_errors=True)
    return name, out


BY_FILE = {R: 'C06 C07 C08 C09 C10 C11 C12 C14 C15 C16 C17 C18', F: 'C06 C14 C17 C18 C16', S: 'C12 C13 C15 C16', FIL: 'C01 C02 C05 C18', GET: 'C01 C03 C18',
           TYP: 'C01 C02 C03 C04 C05 C18', STD: 'C20 C02 C18', BV: 'C19', VAL: 'C19 C18', COE: 'C20 C18', UTL: 'C18', DEC: 'C18', TAG: 'C14 C18', refactors_more.TYC: 'C01 C03 C18'}

def touched(name, evidence):
    """The properties whose contracts run the functions that the edits change (by evidence files of the unchanged tree)."""
    import ast, glob
    names = set()
    for f, old, _new in REFACTORS[name]:
        src = open(f'/repo/{f}').read()
        first = src[:src.index(old)].count('\n') + 1
        last = first + old.rstrip('\n').count('\n')

        def walk(node, prefix):
            hit = False
            for c in ast.iter_child_nodes(node):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
                    q = f'{prefix}{c.name}'
                    if c.lineno <= last and c.end_lineno >= first:
                        walk(c, q + '.')
                        names.add(q)
        walk(ast.parse(src), '')
    props = []
    for g in sorted(glob.glob(f'{evidence}/C??.json')):
        c = json.load(open(g))['coverage']
        if {x.replace('<locals>.', '') for x in c['functions_under_contract'] + c['functions_inlined']} & names:
            props.append(g[-8:-5])
    return props


if __name__ == '__main__':
    evidence = os.environ.get('TOUCHED')
    args = sys.argv[1:]
    props = None
    if '--props' in args:
        i = args.index('--props')
        props = args[i + 1].split(',')
        del args[i:i + 2]
    names = args or list(REFACTORS)
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '3'))) as ex:
        for name, out in ex.map(lambda n: run(n, touched(n, evidence) if evidence else props or sorted({p for f, *_ in REFACTORS[n] for p in BY_FILE[f].split()})), names):
            print('==', name)
            for o in out:
                print('  ', o)
            sys.stdout.flush()
