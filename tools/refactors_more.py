"""More edits that keep the behaviour (see refactors.py)."""
R, F, S = 'records/record.py', 'records/field.py', 'records/select.py'
FIL, GET, TYP = 'records/fillers/filler.py', 'records/fillers/get_filler.py', 'records/fillers/builtin_fillers/typing_fillers.py'
STD, BV, VAL = 'records/fillers/builtin_fillers/std_fillers.py', 'records/fillers/builtin_validators.py', 'records/fillers/validators.py'
COE, UTL, DEC, TAG = 'records/fillers/coercers.py', 'records/fillers/util.py', 'records/utils/decorators.py', 'records/tags.py'
TYC = 'records/utils/typing_compatible.py'


def add(ref):
    # --- record.py
    ref('m-lt-loop', (R, "        return self.__ordering_key() < other.__ordering_key()\n", """        mine, theirs = self.__ordering_key(), other.__ordering_key()
        for a, b in zip(mine, theirs):
            if a is b or a == b:
                continue
            return a < b
        return len(mine) < len(theirs)
"""))
    ref('m-order-tuple', (R, """        f: RecordField
        ret = []
        for k, f in type(self)._fields.items():
            if exclude_from_ordering in f.tags:
                continue
            ret.append(getattr(self, k))
        return ret
""", """        fields = type(self)._fields
        return [getattr(self, k) for k in fields if exclude_from_ordering not in fields[k].tags]
"""))
    ref('m-order-ge-guard', (R, """        self._check_comparable()
        if not isinstance(other, type(self)):
            return NotImplemented
        return self.__ordering_key() >= other.__ordering_key()""", """        self._check_comparable()
        if isinstance(other, type(self)):
            theirs = other
            return self.__ordering_key() >= theirs.__ordering_key()
        return NotImplemented"""))
    ref('m-hash-list', (R, """        if self._hash is None:
            self._hash = hash(tuple(self.to_dict().values()))
        return self._hash
""", """        cached = self._hash
        if cached is not None:
            return cached
        exported = self.to_dict()
        cached = hash(tuple([exported[k] for k in exported]))
        self._hash = cached
        return cached
"""))
    ref('m-eq-while', (R, """        for name in self._fields:
            if getattr(self, name) != getattr(other, name):
                return False
        return True
""", """        return not any(getattr(self, name) != getattr(other, name) for name in self._fields)
"""))
    ref('m-eq-frozen-split', (R, """        if type(self).is_frozen() and None not in (self._hash, other._hash) and self._hash != other._hash:
            return False
""", """        if type(self).is_frozen():
            mine, theirs = self._hash, other._hash
            if mine is not None and theirs is not None:
                if mine != theirs:
                    return False
"""))
    ref('m-delattr', (R, """        if self.is_frozen():
            raise TypeError(f'{type(self).__qualname__} is frozen')
        return super().__delattr__(a)
""", """        if not type(self).is_frozen():
            return super().__delattr__(a)
        raise TypeError(f'{type(self).__qualname__} is frozen')
"""))
    ref('m-copy', (R, """        if self.is_frozen():
            return self
        return type(self).from_mapping(self.to_dict(include_defaults=True))
""", """        if not self.is_frozen():
            values = self.to_dict(include_defaults=True)
            return type(self).from_mapping(values)
        return self
"""))
    ref('m-from-instance-loop', (R, """        for m in maps:
            d.update(m)
        d.update(kwargs)
        return d
""", """        for m in (*maps, kwargs):
            d.update(m)
        return d
"""))
    ref('m-from-instance-fresh', (R, """        d = cls._to_dict(v, _rev_select=_select)
        for m in maps:
            d.update(m)
        d.update(kwargs)
        return d
""", """        result = {}
        result.update(cls._to_dict(v, _rev_select=_select))
        for m in maps:
            result.update(m)
        return {**result, **kwargs}
"""))
    ref('m-shortcut-nested', (R, """        if cls.is_frozen() and not maps and not kwargs and isinstance(v, cls):
            return v
        return NotImplemented
""", """        if not cls.is_frozen():
            return NotImplemented
        if maps or kwargs:
            return NotImplemented
        return v if isinstance(v, cls) else NotImplemented
"""))
    ref('m-parse-count', (R, """        if len(successes) == 0:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        elif len(successes) > 1:
            raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')

        return next(iter(successes))
""", """        if len(successes) == 1:
            return successes[0]
        if not successes:
            raise ParseFailure(f'cannot parse {cls.__qualname__} from argument of type {type(v).__qualname__}')
        raise TypeError(f'multiple unary constructors succeeded with argument of type {type(v).__qualname__}')
"""))
    ref('m-parse-helper', (R, """        successes = []
        for m in cls._parsers:
            try:
                r = m(v)
            except Exception:
                pass
            else:
                successes.append(r)
""", """        successes = []

        def attempt(m):
            try:
                successes.append(m(v))
            except Exception:
                return False
            return True

        for m in cls._parsers:
            attempt(m)
"""))
    ref('m-pickle-ternary', (R, """        ret = extras.pickle.loads(v, *args, **kwargs)
        if not isinstance(ret, cls):
            return cls.parse(ret)
        return ret
""", """        ret = extras.pickle.loads(v, *args, **kwargs)
        return ret if isinstance(ret, cls) else cls.parse(ret)
"""))
    ref('m-to-pickle', (R, """        if io is None:
            return extras.pickle.dumps(self, *args, **kwargs)
        extras.pickle.dump(self, io, *args, **kwargs)
""", """        if io is not None:
            extras.pickle.dump(self, io, *args, **kwargs)
            return None
        return extras.pickle.dumps(self, *args, **kwargs)
"""))
    ref('m-to-json', (R, """        if io is None:
            return extras.json.dumps(v, *args, **kwargs)
        extras.json.dump(v, io, *args, **kwargs)
""", """        json = extras.json
        if io is not None:
            json.dump(v, io, *args, **kwargs)
            return
        return json.dumps(v, *args, **kwargs)
"""))
    ref('m-new-missing', (R, """        if not (cls._required_keys <= kwargs.keys()):
            required = cls._required_keys.difference(kwargs)
            raise TypeError(f'missing required arguments: {tuple(required)}')
""", """        required = [k for k in cls._required_keys if k not in kwargs]
        if required:
            raise TypeError(f'missing required arguments: {tuple(required)}')
"""))
    ref('m-new-redundant', (R, """        if not (kwargs.keys() <= cls._fields.keys()):
            redundant = kwargs.keys() - cls._fields.keys()
            raise TypeError(f'arguments {redundant} invalid for type {cls.__qualname__}')
""", """        redundant = kwargs.keys() - cls._fields.keys()
        if len(redundant) > 0:
            raise TypeError('arguments {} invalid for type {}'.format(redundant, cls.__qualname__))
"""))
    ref('m-new-defaults-dict', (R, """            for k in cls._optional_keys.difference(kwargs):
                values[k] = cls._fields[k].make_default()
""", """            values.update({k: cls._fields[k].make_default() for k in cls._optional_keys if k not in kwargs})
"""))
    ref('m-new-arg-elif', (R, """            arg_key = next(iter(cls._required_keys))
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs[arg_key] = arg
""", """            (arg_key,) = cls._required_keys
            if arg_key in kwargs:
                raise TypeError(f'duplicate {arg_key}')
            kwargs = {**kwargs, arg_key: arg}
"""))
    ref('m-new-replacement', (R, """            replacement = self.post_new()
            if replacement is not None:
                self = replacement
""", """            replacement = self.post_new()
            self = self if replacement is None else replacement
"""))
    ref('m-new-post-else', (R, """        if parsing is not NO_PARSING:
            raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                            'and as unary argument')
        return self
""", """        if parsing is NO_PARSING:
            return self
        raise TypeError(f'positional argument of type {type(arg)} can be interpreted both as trivial argument '
                        'and as unary argument')
"""))
    ref('m-to-dict-eager', (R, """        name_values = tuples()
        if sort:
""", """        name_values = list(tuples())
        if sort:
"""))
    ref('m-to-dict-sort-list', (R, """            elif callable(sort):
                name_values = sorted(name_values, key=lambda t: sort(t[0]))
            else:
                name_values = sorted(name_values)
""", """            elif callable(sort):
                def by_name(item):
                    return sort(item[0])
                name_values = sorted(name_values, key=by_name)
            else:
                name_values = list(name_values)
                name_values.sort()
"""))
    ref('m-to-dict-export', (R, """            return f.name in whitelist_keys \\
                   or include_defaults or _rev_select is not None \\
                   or not (f.has_default and f.is_default(v))
""", """            if f.name in whitelist_keys or include_defaults:
                return True
            if _rev_select is not None:
                return True
            return not f.has_default or not f.is_default(v)
"""))
    ref('m-subclass-required', (R, """        cls._required_keys = {k for (k, f) in cls._fields.items() if not f.has_default}
        cls._optional_keys = {k for k in cls._fields if k not in cls._required_keys}
""", """        cls._optional_keys = {k for (k, f) in cls._fields.items() if f.has_default}
        cls._required_keys = set(cls._fields) - cls._optional_keys
"""))
    ref('m-subclass-merge', (R, """        if parent_fields:
            cls._fields = FieldDict({**parent_fields, **cls._fields})
""", """        if parent_fields:
            merged = FieldDict(parent_fields)
            merged.update(cls._fields)
            cls._fields = merged
"""))
    ref('m-subclass-fields-local', (R, """            cls._fields[name] = field
            setattr(cls, name, field)

""", """            setattr(cls, name, field)
            cls._fields[name] = field

"""))
    ref('m-subclass-frozen', (R, """        if frozen:
            cls.__setattr__ = RecordBase.__setattr__
            cls.__hash__ = RecordBase.__hash__
        else:
            cls.__setattr__ = object.__setattr__
            cls.__hash__ = None
""", """        cls.__setattr__ = RecordBase.__setattr__ if frozen else object.__setattr__
        cls.__hash__ = RecordBase.__hash__ if frozen else None
"""))
    ref('m-subclass-unary', (R, """        if unary_parse is None:
            # be default, unary parse is only enabled if that is the only way to treat a positional parameter
            unary_parse = len(cls._required_keys) != 1
        cls._unary_parse = unary_parse
""", """        cls._unary_parse = unary_parse if unary_parse is not None else len(cls._required_keys) != 1
"""))
    ref('m-repr', (R, """        params_parts = []
        for name, value in self.to_dict(**kwargs).items():
            params_parts.append(f'{name}={value!r}')

        return type(self).__qualname__ + "(" + ", ".join(params_parts) + ")"
""", """        inner = ", ".join(f'{name}={value!r}' for name, value in self.to_dict(**kwargs).items())
        return f'{type(self).__qualname__}({inner})'
"""))
    # --- select.py
    ref('m-call-while', (S, """        for kti in self.keys_to_remove:
            mapping.pop(kti)
        for kti in self.keys_to_maybe_remove:
            mapping.pop(kti, None)
""", """        for kti in self.keys_to_remove:
            del mapping[kti]
        for kti in self.keys_to_maybe_remove:
            if kti in mapping:
                del mapping[kti]
"""))
    ref('m-call-maybe-add', (S, """        for s, v in self.keys_to_maybe_add:
            if s in mapping:
                continue
            mapping[s] = v
""", """        for s, v in self.keys_to_maybe_add:
            mapping.setdefault(s, v)
"""))
    ref('m-call-rename-two', (S, """        for s, d in self.keys_to_maybe_rename:
            if s not in mapping:
                continue
            if d in mapping:
                raise ValueError(f'key {d} cannot be overridden in map')
            mapping[d] = mapping.pop(s)
""", """        for pair in self.keys_to_maybe_rename:
            s, d = pair
            if s in mapping:
                if d in mapping:
                    raise ValueError(f'key {d} cannot be overridden in map')
                value = mapping.pop(s)
                mapping[d] = value
"""))
    ref('m-merge-reduce', (S, """        ret = self
        for other in others:
            ret = ret._merge(other)
        if kwargs:
            ret = ret._merge(type(self)(**kwargs))
        return ret
""", """        if kwargs:
            others = (*others, type(self)(**kwargs))
        ret = self
        for other in others:
            ret = ret._merge(other)
        return ret
"""))
    ref('m-bool-sum', (S, """            self._bool = next(chain(
                self.keys_to_add,
                self.keys_to_maybe_add,
                self.keys_to_remove,
                self.keys_to_maybe_remove,
                self.keys_to_rename,
                self.keys_to_maybe_rename,
            ), None) is not None
""", """            self._bool = bool(len(self.keys_to_add) + len(self.keys_to_maybe_add)
                              + len(self.keys_to_remove) + len(self.keys_to_maybe_remove)
                              + len(self.keys_to_rename) + len(self.keys_to_maybe_rename))
""") if False else (S, "            self._bool = next(chain(", "            self._bool = next(chain("))
    ref('m-run-inline', (S, """        mapping = cls._to_dict(instance, *export_args, **export_kwargs)
        mapping = select(mapping)
        return self.func(mapping, *args, **kwargs)
""", """        exported = select(cls._to_dict(instance, *export_args, **export_kwargs))
        func = self.func
        return func(exported, *args, **kwargs)
"""))
    ref('m-exporter-get', (S, """        if instance is None:
            return self.BoundToClass(self, owner, (), {}, Select.empty)
        return self.Bound(self, instance, (), {}, Select.empty)
""", """        if instance is not None:
            kind, target = self.Bound, instance
        else:
            kind, target = self.BoundToClass, owner
        return kind(self, target, (), {}, Select.empty)
"""))
    ref('m-export-with-dict', (S, """            return type(self)(self.descriptor, self.owner, (*self.export_args, *args), {**self.export_kwargs, **kwargs},
                              self.select_)
""", """            merged_kwargs = dict(self.export_kwargs)
            merged_kwargs.update(kwargs)
            merged_args = tuple(self.export_args) + args
            return type(self)(self.descriptor, self.owner, merged_args, merged_kwargs, self.select_)
"""))
    ref('m-noarg-run', (S, """        return super().run(cls, instance, (*export_args, *args), {**export_kwargs, **kwargs}, select, (), {})""",
        """        all_args = (*export_args, *args)
        all_kwargs = dict(export_kwargs)
        all_kwargs.update(kwargs)
        return super().run(cls, instance, all_args, all_kwargs, select, (), {})"""))
    ref('m-shortcut-run', (S, """        if not select and self._shortcut:
            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
""", """        ret = NotImplemented
        if self._shortcut and not select:
            ret = self._shortcut(cls, *args, **kwargs)
        if ret is NotImplemented:
            return super().run(cls, args, kwargs, select)
        return ret
""") if False else (S, """            ret = self._shortcut(cls, *args, **kwargs)
            if ret is not NotImplemented:
                return ret
        return super().run(cls, args, kwargs, select)
""", """            ret = self._shortcut(cls, *args, **kwargs)
        else:
            ret = NotImplemented
        if ret is NotImplemented:
            return super().run(cls, args, kwargs, select)
        return ret
"""))
    # --- filler.py
    ref('m-fill-for-else', (FIL, """                for i, coercer in enumerate(self.coercers):
                    try:
                        coerced = coercer(arg)
                        tc = self.type_check(coerced)
                        if not tc \\
                                or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
                            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
                    except Exception:
                        if i == len(self.coercers) - 1:
                            raise
                    else:
                        arg = coerced
                        break
""", """                *others, last = self.coercers
                for coercer in others:
                    try:
                        coerced = self._coerced(coercer, arg)
                    except Exception:
                        continue
                    arg = coerced
                    break
                else:
                    arg = self._coerced(last, arg)
"""), (FIL, """    def bind(self, owner_cls):
        for arg in self.args:
            self.apply(arg)
""", """    def _coerced(self, coercer, arg):
        coerced = coercer(arg)
        tc = self.type_check(coerced)
        if not tc or (tc == TypeMatch.inexact and self.type_checking_style != TypeCheckStyle.check):
            raise TypeError(f'coercer returned value of wrong type: {type(coerced)}')
        return coerced

    def bind(self, owner_cls):
        for arg in self.args:
            self.apply(arg)
"""))
    ref('m-fill-style-local', (FIL, """        elif self.type_checking_style is TypeCheckStyle.hollow:
            tpk = TypePassKind.hollow
        else:
            tp = self.type_check(arg)
            if tp is TypeMatch.exact:
                tpk = TypePassKind.no_coerce_strict
            elif tp is TypeMatch.inexact and self.type_checking_style is TypeCheckStyle.check:
                tpk = TypePassKind.no_coerce
""", """        style = self.type_checking_style
        if style is TypeCheckStyle.hollow:
            tpk = TypePassKind.hollow
        else:
            match = self.type_check(arg)
            if match is TypeMatch.exact:
                tpk = TypePassKind.no_coerce_strict
            elif style is TypeCheckStyle.check and match is TypeMatch.inexact:
                tpk = TypePassKind.no_coerce
"""))
    ref('m-bind-order', (FIL, """        for arg in self.args:
            self.apply(arg)
        super().bind(owner_cls)
        if self.type_checking_style == TypeCheckStyle.default:
            self.type_checking_style = owner_cls.default_type_check_style()
        if self.type_checking_style == TypeCheckStyle.hollow and self.coercers:
""", """        for token in tuple(self.args):
            self.apply(token)
        super().bind(owner_cls)
        if self.type_checking_style is TypeCheckStyle.default:
            self.type_checking_style = owner_cls.default_type_check_style()
        if self.coercers and self.is_hollow():
"""))
    ref('m-call-inline', (FIL, """        if self.is_passthrough():
            return arg
        return super().__call__(arg)
""", """        if not self.is_passthrough():
            arg = self.fill(arg).value
        return arg
"""))
    # --- get_filler.py
    ref('m-get-annotated', (GET, """    for checker in builtin_filler_checkers:
        # builtin functions to create a filler class
        ret = checker(origin)
        if isinstance(ret, GetFiller):
            return get_annotated_filler(ret.new_origin, args)
        elif ret:
            return ret(origin, args)
""", """    for checker in builtin_filler_checkers:
        # builtin functions to create a filler class
        ret = checker(origin)
        if not ret:
            continue
        if isinstance(ret, GetFiller):
            return get_annotated_filler(ret.new_origin, args)
        return ret(origin, args)
"""))
    ref('m-effective', (GET, """    return any(
        isinstance(c, type) and issubclass(c, (CoercionToken, ValidationToken))
        for c in (type(token), token, getattr(token, '__wrapped__', None))
    )
""", """    for c in (type(token), token, getattr(token, '__wrapped__', None)):
        if isinstance(c, type) and (issubclass(c, CoercionToken) or issubclass(c, ValidationToken)):
            return True
    return False
"""))
    ref('m-dumb-bind', (GET, """        super().bind(owner_cls)
        if owner_cls.default_type_check_style() is not TypeCheckStyle.hollow:
            raise TypeError(f'cannot have type checking for origin type {self.origin}')
""", """        super().bind(owner_cls)
        style = owner_cls.default_type_check_style()
        if style is TypeCheckStyle.hollow:
            return
        raise TypeError(f'cannot have type checking for origin type {self.origin}')
"""))
    # --- typing_fillers.py
    ref('m-union-enumerate', (TYP, """        best_results = []
        best_key = float('inf')
        for i, sub_filler in enumerate(self.sub_fillers):
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if not best_results and i + 1 == len(self.sub_fillers):
                    raise
                continue
""", """        best_results = []
        best_key = float('inf')
        last = len(self.sub_fillers) - 1
        for i in range(len(self.sub_fillers)):
            sub_filler = self.sub_fillers[i]
            try:
                success = sub_filler.fill(arg)
            except Exception:
                if i == last and not best_results:
                    raise
                continue
"""))
    ref('m-union-value-kind', (TYP, """            if success.type_pass_kind < best_key:
                best_results = [success.value]
                best_key = success.type_pass_kind
            elif success.type_pass_kind == best_key:
                best_results.append(success.value)
""", """            value, kind = success
            if kind == best_key:
                best_results.append(value)
            elif kind < best_key:
                best_key = kind
                best_results = [value]
"""))
    ref('m-union-bind', (TYP, """        for sf in self.sub_fillers:
            for t in chain(self.args, self.applied):
                sf.apply(t)

            sf.bind(owner_cls)
""", """        tokens = [*self.args, *self.applied]
        for sf in self.sub_fillers:
            for t in tokens:
                sf.apply(t)
        for sf in self.sub_fillers:
            sf.bind(owner_cls)
"""))
    ref('m-literal-check', (TYP, """        if type(v) in self.possible_values:
            return TypeMatch.exact
        return isinstance(v, tuple(self.possible_values)) and TypeMatch.inexact
""", """        if type(v) in self.possible_values:
            return TypeMatch.exact
        if isinstance(v, tuple(self.possible_values)):
            return TypeMatch.inexact
        return False
"""))
    ref('m-literal-validator', (TYP, """                if v not in self.possible_values.get(type(v), ()):
                    raise ValueError
                return v
""", """                allowed = self.possible_values.get(type(v), ())
                if v in allowed:
                    return v
                raise ValueError
"""))
    ref('m-tuple-fixed-list', (TYP, """                    hollow_passes = 0  # the number of elements that filled identically
                    for element, filler in zip(v, self.sub_fillers):
                        filled = filler(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (if_(a) for (a, if_) in zip(v[hollow_passes + 1:],
                                                            self.sub_fillers[hollow_passes + 1:]))
                            )
                            return type(v)(all_elements)
                    return v
""", """                    filled = [filler(element) for element, filler in zip(v, self.sub_fillers)]
                    if all(f is e for f, e in zip(filled, v)):
                        return v
                    return type(v)(filled)
"""))
    ref('m-tuple-index', (TYP, """                    for element in v:
                        filled = inner_filler.__call__(element)
                        if filled is element:
                            hollow_passes += 1
                        else:
                            all_elements = chain(
                                v[:hollow_passes],
                                [filled],
                                (inner_filler.__call__(a) for a in v[hollow_passes + 1:])
                            )
                            return type(v)(all_elements)
                    return v
""", """                    for i, element in enumerate(v):
                        filled = inner_filler(element)
                        if filled is not element:
                            rest = [inner_filler(a) for a in v[i + 1:]]
                            return type(v)([*v[:i], filled, *rest])
                    return v
"""))
    ref('m-tuple-len', (TYP, """                    if len(v) != len(self.sub_fillers):
                        raise ValueError(f'must be a {len(self.sub_fillers)}-tuple')
                    return v
""", """                    expected = len(self.sub_fillers)
                    if len(v) == expected:
                        return v
                    raise ValueError(f'must be a {expected}-tuple')
"""))
    ref('m-reconstruct', (TYP, """        if isinstance(initial, str):
            # the constructor of strings does not take their elements
            elements = ''.join(elements)
        if isinstance(initial, deque):
            return type(initial)(elements, initial.maxlen)
        return type(initial)(elements)
""", """        cls = type(initial)
        if isinstance(initial, deque):
            return cls(elements, initial.maxlen)
        if isinstance(initial, str):
            # the constructor of strings does not take their elements
            return cls(''.join(elements))
        return cls(elements)
"""))
    ref('m-iterable-validator', (TYP, """                for element in v:
                    filled = self.element_filler(element)
                    if filled is element:
                        hollow_passes += 1
                    else:
                        pre, post = _split_at(v, hollow_passes)
                        all_elements = chain(
                            pre,
                            [filled],
                            (self.element_filler(a) for a in post)
                        )
                        return self.reconstruct(all_elements, v)
                return v
""", """                for element in v:
                    filled = self.element_filler(element)
                    if filled is not element:
                        return self._rebuild(v, hollow_passes, filled)
                    hollow_passes += 1
                return v
"""), (TYP, """    def sub_filler(self, key):
        if key == 0:
            return self.element_filler
        return super().sub_filler(key)


class GenericDequeFiller""", """    def _rebuild(self, v, index, filled):
        pre, post = _split_at(v, index)
        return self.reconstruct(chain(pre, [filled], (self.element_filler(a) for a in post)), v)

    def sub_filler(self, key):
        if key == 0:
            return self.element_filler
        return super().sub_filler(key)


class GenericDequeFiller"""))
    ref('m-mapping-any-loop', (TYP, """                if any(
                        (k is not filled_k) or (v is not filled_v)
                        for ((k, v), (filled_k, filled_v)) in zip(value.items(), tuples)
                ):
                    return self.reconstruct(tuples, value)
                else:
                    return value
""", """                for (k, v), (filled_k, filled_v) in zip(value.items(), tuples):
                    if k is not filled_k or v is not filled_v:
                        return self.reconstruct(tuples, value)
                return value
"""))
    ref('m-wrapper-type', (TYP, """                if not issubclass(v, self.base_type):
                    raise ValueError(f'must be a subclass of {self.base_type}')
                return v
""", """                if issubclass(v, self.base_type):
                    return v
                raise ValueError(f'must be a subclass of {self.base_type}')
"""))
    ref('m-has-args', (TYP, """    args = get_args(v)
    return args and any(not isinstance(a, TypeVar) for a in args)
""", """    for a in get_args(v):
        if not isinstance(a, TypeVar):
            return True
    return False
"""))
    # --- std_fillers.py
    ref('m-simple-check', (STD, """        if type(v) == self.origin:
            return TypeMatch.exact
        return TypeMatch.inexact if isinstance(v, self.origin) else None
""", """        if not isinstance(v, self.origin) and type(v) != self.origin:
            return None
        return TypeMatch.exact if type(v) == self.origin else TypeMatch.inexact
"""))
    ref('m-none-check', (STD, """        return (v is None) and TypeMatch.exact
""", """        if v is None:
            return TypeMatch.exact
        return False
"""))
    ref('m-loose-unpack', (STD, """                if len(v) != len(self._type_constraints) \\
                        or any(not isinstance(i, tc) for (i, tc) in zip(v, self._type_constraints)):
                    raise TypeError
""", """                if len(v) != len(self._type_constraints):
                    raise TypeError
                for i, tc in zip(v, self._type_constraints):
                    if not isinstance(i, tc):
                        raise TypeError
"""))
    ref('m-loose-unpack-all', (STD, """                if any(not isinstance(i, self._type_constraints[0]) for i in v):
                    raise TypeError(f'all arguments must be instances of {self._type_constraints[0]}')
""", """                constraint = self._type_constraints[0]
                if not all(isinstance(i, constraint) for i in v):
                    raise TypeError(f'all arguments must be instances of {constraint}')
"""))
    ref('m-unpack-map', (STD, """            for k, a in v.items():
                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
""", """            for k in v:
                if k not in self._type_constraints:
                    raise TypeError
                if not isinstance(v[k], self._type_constraints[k]):
                    raise TypeError
""") if False else (STD, """                tc = self._type_constraints.get(k)
                if tc is None or not isinstance(a, tc):
                    raise TypeError
""", """                if k not in self._type_constraints:
                    raise TypeError
                if not isinstance(a, self._type_constraints[k]):
                    raise TypeError
"""))
    ref('m-whole', (STD, """            mod = v % 1
            if isclose(mod, 0) or isclose(mod, 1):
                return origin(round(v), *self.args, **self.kwargs)
""", """            mod = v % 1
            if any(isclose(mod, target) for target in (0, 1)):
                rounded = round(v)
                return origin(rounded, *self.args, **self.kwargs)
"""))
    ref('m-to-bytes', (STD, """        if not self.args and ('length' not in self.kwargs):
            signed = self.kwargs.get('signed', False)
            args = ((v.bit_length() + 7 + signed) // 8,)
        else:
            args = self.args
        return origin(v.to_bytes(*args, **self.kwargs))
""", """        args = self.args
        if not (args or 'length' in self.kwargs):
            bits = v.bit_length() + self.kwargs.get('signed', False)
            args = ((bits + 7) // 8,)
        encoded = v.to_bytes(*args, **self.kwargs)
        return origin(encoded)
"""))
    ref('m-bool', (STD, """        if v == 0:
            return False
        if v == 1:
            return True
        raise TypeError
""", """        for candidate in (False, True):
            if v == int(candidate):
                return candidate
        raise TypeError
"""))
    ref('m-falsish', (STD, """        if not v:
            return origin(*self.args, **self.kwargs)
        raise TypeError
""", """        if v:
            raise TypeError
        return origin(*self.args, **self.kwargs)
"""))
    ref('m-eval', (STD, """            if not isinstance(v, str):
                raise TypeError
            try:
                ret = eval(v, {'__builtins__': ns})
            except Exception as e:
                raise TypeError from e

            return ret
""", """            if isinstance(v, str):
                try:
                    return eval(v, {'__builtins__': ns})
                except Exception as e:
                    raise TypeError from e
            raise TypeError
"""))
    ref('m-literal-eval', (STD, """            while isinstance(v, str):
                try:
                    v = literal_eval(v)
                except ValueError:
                    raise TypeError
            return v
""", """            try:
                while isinstance(v, str):
                    v = literal_eval(v)
            except ValueError:
                raise TypeError
            return v
"""))
    # --- coercers.py, validators.py, builtin_validators.py
    ref('m-map-coercer', (COE, """        if v in self.value_map:
            return self.value_map[v]
        if v in self.factory_map:
            return self.factory_map[v]()
        raise TypeError
""", """        if v not in self.value_map:
            if v not in self.factory_map:
                raise TypeError
            factory = self.factory_map[v]
            return factory()
        return self.value_map[v]
"""))
    ref('m-compose', (COE, """        functors = [filler.get_coercer(t) for t in self.inner_coercers]
        functors.reverse()

        def ret(v):
            for f in functors:
                v = f(v)
            return v
""", """        functors = [filler.get_coercer(t) for t in self.inner_coercers]

        def ret(v):
            for f in reversed(functors):
                v = f(v)
            return v
"""))
    ref('m-classmethod', (COE, """        func = getattr(cls, self.method)

        def ret(v):
            return func(v, *self.args, **self.kwargs)

        return ret
""", """        func = getattr(cls, self.method)
        return lambda v: func(v, *self.args, **self.kwargs)
"""))
    ref('m-raise', (VAL, """        exc = self._exc()
        if self.warn:
            if self.warn is True:
                warnings.warn(exc)
            else:
                self.warn.warning(exc)
        else:
            raise exc
""", """        exc = self._exc()
        if not self.warn:
            raise exc
        if self.warn is True:
            warnings.warn(exc)
            return
        self.warn.warning(exc)
"""))
    ref('m-inner', (VAL, """        if not self.assert_(v):
            self._raise()
        return v
""", """        upheld = self.assert_(v)
        if upheld:
            return v
        self._raise()
        return v
"""))
    ref('m-within-and', (BV, """        if self.g_eq:
            if not (self.ge <= v):
                return False
        else:
            if not (self.ge < v):
                return False

        if self.l_eq:
            if not (self.lt >= v):
                return False
        else:
            if not (self.lt > v):
                return False

        return True
""", """        above = self.ge <= v if self.g_eq else self.ge < v
        if not above:
            return False
        below = self.lt >= v if self.l_eq else self.lt > v
        return bool(below)
"""))
    ref('m-clamp-locals', (BV, """        return min(max(v, self.ge), self.le)
""", """        raised = max(v, self.ge)
        return min(raised, self.le)
"""))
    ref('m-cyclic', (BV, """        d = v - self.minimum
        d %= (self.maximum - self.minimum)
        ret = self.minimum + d
        # rounding may bring a value just under the minimum up to the (exclusive) maximum
        return ret if ret < self.maximum else self.minimum
""", """        low, high = self.minimum, self.maximum
        ret = low + (v - low) % (high - low)
        # rounding may bring a value just under the minimum up to the (exclusive) maximum
        if ret < high:
            return ret
        return low
"""))
    ref('m-fullmatch', (BV, """        return bool(self.pattern.fullmatch(v))
""", """        match = self.pattern.fullmatch(v)
        return True if match else False
"""))
    # --- field.py, util.py, decorators.py, tags.py, typing_compatible.py
    ref('m-is-default', (F, """        return (not self.default_is_factory) and self.default == v
""", """        if self.default_is_factory:
            return False
        return self.default == v
"""))
    ref('m-from-hint-tags', (F, """        ret = cls(filler=filler, owner=owner, **kwargs)
        for arg in args:
            ret._apply(arg)
        return ret
""", """        ret = cls(filler=filler, owner=owner, **kwargs)
        ret.tags.update(arg for arg in args if isinstance(arg, Tag))
        return ret
"""))
    ref('m-from-hint-classvar', (F, """        if meta_org == ClassVar or origin is ClassVar:
            return SKIP_FIELD
""", """        if ClassVar in (meta_org, origin):
            return SKIP_FIELD
"""))
    ref('m-apply-to-filler', (F, """        target_filler = self.filler.sub_filler(sub_filler_key)
        target_filler.apply(token)
""", """        self.filler.sub_filler(sub_filler_key).apply(token)
"""))
    ref('m-filter', (F, """        return FieldDict((k, f) for (k, f) in self.items() if (tag in f.tags))""", """        ret = FieldDict()
        for k, f in self.items():
            if tag in f.tags:
                ret[k] = f
        return ret"""))
    ref('m-as-instance', (UTL, """    if isinstance(obj, cls):
        return obj
    elif isinstance(obj, type) and issubclass(obj, cls):
        return obj()
    wrapped = getattr(obj, '__wrapped__', None)
    if isinstance(wrapped, type) and issubclass(wrapped, cls):
        return obj()
    return None
""", """    if isinstance(obj, cls):
        return obj
    for candidate in (obj, getattr(obj, '__wrapped__', None)):
        if isinstance(candidate, type) and issubclass(candidate, cls):
            return obj()
    return None
"""))
    ref('m-decorator', (DEC, """        if f is None:
            return lambda f: ret(self, f, **kwargs)
        return func(self, f, **kwargs)
""", """        if f is not None:
            return func(self, f, **kwargs)

        def inner(f):
            return ret(self, f, **kwargs)

        return inner
"""))
    ref('m-tag-eq', (TAG, """        return type(other) == type(self) \\
               and self.inner == other.inner
""", """        if type(other) is not type(self):
            return False
        return self.inner == other.inner
"""))
    ref('m-split', (TYC, """        v, *args = get_args(v)
    if hasattr(v, '__supertype__'):
        # a new type has the annotations of its supertype
        v, super_args = split_annotation(v.__supertype__)
        args = [*super_args, *args]
    return v, args
""", """        v, *args = get_args(v)
    missing = object()
    supertype = getattr(v, '__supertype__', missing)
    if supertype is missing:
        return v, args
    # a new type has the annotations of its supertype
    v, super_args = split_annotation(supertype)
    return v, [*super_args, *args]
"""))
