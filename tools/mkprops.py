"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
REC='records/record.py'; FIL='records/fillers/filler.py'; TYP='records/fillers/builtin_fillers/typing_fillers.py'
STD='records/fillers/builtin_fillers/std_fillers.py'; SEL='records/select.py'; FLD='records/field.py'
VAL='records/fillers/validators.py'; BVAL='records/fillers/builtin_validators.py'; COE='records/fillers/coercers.py'
GET='records/fillers/get_filler.py'; UTL='records/fillers/util.py'; TAG='records/tags.py'

prop('C01','Field processing: check, then coerce, then validate',
 "A hollow field stores its input after the validators alone; a checked field hands an input of an accepted type unchanged to its validators without ever running a coercer. An input of another type goes, unchanged, to the coercers in declaration order until one returns a value of an accepted type, which is taken; if none does (or there is none) construction fails, with the last coercer's error or a TypeError. The validators then run once each, in order, each on the previous one's result, the first error aborts, and the last result is what is stored.",
 ['inputs','programs'],'every input value, every check style, every number and behaviour of coercers and validators (returning, raising, of any type)',
 'Tests pin a handful of coercer/validator pairs; none uses two coercers where the first returns a wrongly typed value, none counts or orders the calls, and the lists are unbounded.',
 [FIL,STD,VAL],[('AnnotatedFiller.fill',FIL),('AnnotatedFiller.__call__',FIL),('AnnotatedFiller.apply',FIL),('AnnotatedFiller.bind',FIL)],
 ['value stored in a constructed record','sequence of calls made to user coercers and validators','exception raised by construction'],
 [('coercers','alternatives, in declaration order',FIL),('validators','pipeline, in declaration order',FIL)])
prop('C02','Which types a checked field accepts',
 "With the check style a field accepts without coercion exactly the instances of its declared type, subclasses included; with the strict style exactly the objects whose type is the declared type. A None or Ellipsis hint accepts only that object, a callable hint only callables, a Literal hint only its listed values (same type and equal), and Type[C] only subclasses of C; with either style whatever a coercer returns is held to the same rule. A strict style on an abstract class, and coercers on a hollow field, are rejected when the class is defined.",
 ['inputs','configurations'],'every value and every declared type of each of these kinds, both check styles, with and without coercers',
 'Tests sample a few int/str/bool values per hint; acceptance must be exact for every object, including subclass instances, coerced values and singletons.',
 [STD,TYP,FIL],[('SimpleFiller.type_check',STD),('NoneFiller/EllipsisFiller/CallableFiller.type_check',STD),('LiteralFiller',TYP),('TypeFiller.bind',TYP),('AnnotatedFiller.fill',FIL)],
 ['whether construction succeeds','type of the stored value'])
prop('C03','Sequence, set and tuple hints are filled element by element',
 "An element hint that checks or validates is applied exactly once, in iteration order, to each element of an accepted container (for a fixed-length tuple each position to its own hint, and a tuple of another length is rejected); the first element error aborts. If every element comes back identical the very same container is stored, otherwise a new container of the same type (one built from its elements) holding exactly the filled elements in order (a deque keeps its maxlen). The container passed in is never modified, and element checks inside a hollow container hint are rejected at class definition.",
 ['inputs','programs'],'containers of every length, every position of the first changed element, every element processing (identity, changing, raising)',
 'Tests use containers of at most three elements with numeric coercions; the rebuild logic depends on the position of the first changed element and on whether the container can be sliced.',
 [TYP],[('TupleFiller.bind',TYP),('GenericIterableFiller.bind',TYP),('GenericDequeFiller.reconstruct',TYP),('_split_at',TYP)],
 ['stored container (identity, type, elements)','elements passed to the element hints, in order','the original container'])
prop('C04','Mapping hints are filled pair by pair',
 "A mapping hint whose key or value hint checks or validates applies the key hint to every key and the value hint to every value of an accepted mapping, once each. If every key and value comes back identical the very same mapping is stored, otherwise a new mapping of the same type (one built from its pairs; a defaultdict keeps its default factory) holding the filled pairs in order. The mapping passed in is never modified, and key or value checks inside a hollow mapping hint are rejected at class definition.",
 ['inputs','programs'],'mappings of every size, every combination of changed and unchanged keys and values',
 'Tests cover mappings of up to two entries where only values change.',
 [TYP],[('GenericMappingFiller.bind',TYP),('GenericMappingFiller.reconstruct',TYP),('DefaultDictFiller.reconstruct',TYP)],
 ['stored mapping (identity, type, items)','the original mapping'])
prop('C05','Union hints pick the unique best-matching member',
 "A Union hint offers the input to its members and keeps the results of the members that succeed with the best kind of match, in the order exact type, inexact type, coerced, unchecked. It stores that result if the best-matching members all give the identical object and raises ValueError if they give different ones; if every member fails it fails with the last member's error. Tokens put on the Union apply to every member, and a Union of members that neither check nor validate stores its input untouched.",
 ['inputs','programs'],'every number of members, every pattern of member failure and match kind, every result identity',
 'Tests exercise unions of two members; precedence and ambiguity range over all outcome patterns of any number of members.',
 [TYP],[('UnionFiller.fill',TYP),('UnionFiller.bind',TYP),('UnionFiller.apply',TYP)],
 ['stored value','exception raised','order and number of member attempts'])
prop('C06','Construction sets exactly the declared fields',
 "Constructing a record from keywords succeeds only if every keyword names a field (own or inherited), every field without a default is given, and every given value is accepted by its field; otherwise an exception is raised and no record results, and an error from a field is re-raised naming that field (of the same class where such an exception can be built from a message, else ValueError) with the original as its cause. The record's attributes are then exactly its fields: given ones hold the processed input, the others their default as declared, or the result of one fresh call of its default factory, unprocessed. The post-creation hook runs last, exactly once, its errors propagate, and an instance it returns replaces the record.",
 ['inputs','programs'],'every set of fields with any mix of required, default and factory fields, every set of keywords, every field behaviour, every post-creation hook',
 'Tests construct two or three fixed classes; field sets, keyword sets and failing positions are unbounded.',
 [REC,FLD],[('RecordBase.__new__',REC),('RecordField.make_default',FLD),('RecordBase.post_new',REC)],
 ['attributes of the new record','exceptions','number of default-factory and hook calls'])
prop('C07','A positional argument has exactly one meaning',
 "A single positional argument fills the only required field if there is exactly one (a duplicate keyword is a TypeError), and is parsed if unary parsing is enabled and no keywords are given; by default parsing is enabled exactly when the class does not have exactly one required field. If both readings succeed, or more than one parser does, a TypeError is raised; if only one reading succeeds its result is the outcome, whatever its truth value; if neither does, or the class offers neither reading, construction fails.",
 ['inputs','programs'],'every class shape, every argument, every combination of parse outcome, field outcome and post-creation hook outcome',
 'Tests try three classes; the arbitration is a product of four independent outcomes most of whose combinations are never run.',
 [REC],[('RecordBase.__new__',REC),('RecordBase.parse',REC)],['returned instance','exception'])
prop('C08','Parsing succeeds only if exactly one parser does',
 "Parsing an object tries every parser of the class, inherited ones included, exactly once, and swallows their errors. The result is that of the only parser that succeeds; it is a ParseFailure if none succeeds and a TypeError that is not a ParseFailure if more than one does. Unpickling through the class returns the unpickled object when it is an instance of the class and otherwise parses it.",
 ['inputs','programs'],'every list of parsers and every success/failure pattern and result (falsish ones included)',
 'Tests use the three built-in parsers plus at most one; the number of parsers and their results are unbounded.',
 [REC],[('RecordBase.parse',REC),('RecordBase.__init_subclass__',REC),('RecordBase.from_pickle',REC)],['result of parse','exception class','calls made to parsers'])
prop('C09','Frozen records are immutable and hash consistently',
 "Setting or deleting any field or other public attribute of an instance of a frozen class raises TypeError and changes nothing, while instances of non-frozen classes, including non-frozen subclasses of frozen ones, allow it and are unhashable. Equal frozen records of the same class have equal hashes, and hash() of a frozen record never changes, whatever has been computed before and across pickling into another process (where it is that process's hash). The hash is computed from the field values.",
 ['inputs','histories'],'every frozen/non-frozen inheritance chain, every attribute name, every history of hash/eq/pickle operations',
 'Tests set one attribute on one frozen class and never delete, re-hash after pickling, or compare across processes.',
 [REC],[('RecordBase.__setattr__',REC),('RecordBase.__delattr__',REC),('RecordBase.__hash__',REC),('RecordBase.__init_subclass__',REC),('RecordBase.__reduce_ex__',REC)],
 ['instance attributes before and after','hash(record)','membership in sets and dicts'],[('_hash','cached hash, None until first use',REC)])
prop('C10','Record equality is by exact class and field values',
 "Two records are equal exactly when they are of the same class and all their fields compare equal; records of different classes, and records and other objects, are unequal. Frozen and non-frozen classes agree on this, whether or not hashes were computed before and even if values are unhashable (hashable values are taken to have hashes that agree with their equality).",
 ['inputs','histories'],'every pair of objects, every number of fields, every position of the differing field, cached hashes or not',
 'Tests compare three-field records with numbers; equality must hold for any number of fields and any values and any history of hash calls.',
 [REC],[('RecordBase.__eq__',REC)],['result of == and !='])
prop('C11','Ordering is lexicographic over the non-excluded fields',
 "For an ordered class the four comparisons agree with the lexicographic comparison of the lists of values of the fields not excluded from ordering, in field order (inherited first). Comparing an instance of a class not declared ordered raises TypeError, and comparison with an object that is not an instance of the left operand's class is left to the other operand.",
 ['inputs'],'every pair of records, every number of fields and every placement of the exclusion tag',
 'Tests compare one pair of records on one class.',
 [REC],[('RecordBase.__lt__/__le__/__gt__/__ge__',REC),('RecordBase.__ordering_key',REC),('RecordBase._check_comparable',REC)],['results of <, <=, >, >=','TypeError'])
prop('C12','Applying a Select edits exactly the named keys',
 "Applying a Select to a mapping removes, renames and adds, in that order and in the order given, exactly the keys it names and leaves every other key and value as it was. A mandatory removal or rename of a missing key raises KeyError, a rename onto or a mandatory addition of an existing key raises ValueError, and the 'maybe' forms skip a missing source or an existing added key; nothing is ever silently overwritten. A Select may be built from any iterables or mappings and gives the same result every time it is applied; only an empty Select is false.",
 ['inputs','histories'],'every mapping, every list of operations of every kind, repeated application',
 'Tests apply about ten fixed selects to one dict, each once; keys, operation lists and repetition are unbounded.',
 [SEL],[('Select.__call__',SEL),('Select.__init__',SEL),('Select.__bool__',SEL)],['resulting mapping','exception','result of a second application'])
prop('C13','Selecting and configuring never changes the original',
 "Merging Selects gives a Select whose list of each kind is the concatenation of theirs in order, and merging with an empty one changes nothing. Calling select or export_with on an exporter or factory returns a new one with the merged Select and the added export arguments (later ones winning); the exporter, factory, Select and arguments it was derived from behave as before. Any chain of such calls thus has the effect of one call with everything combined, and reaches the wrapped function with the caller's arguments and the selected mapping.",
 ['histories','inputs'],'every chain of select/export_with/merge calls in any interleaving on shared exporters, factories and Selects',
 'Tests chain at most two calls and never reuse an intermediate exporter or Select afterwards.',
 [SEL],[('Select.merge/_merge',SEL),('SelectableFactory.Bound.select',SEL),('Exporter.Bound.select/export_with',SEL),('Exporter.run/SelectableFactory.run',SEL)],
 ['attributes and results of the original and derived objects'])
prop('C14','Exporting yields exactly the requested fields',
 "Exporting an object through a record class to a dict yields the current value of each field, keyed by field name and by default in field order, leaving out the fields whose value equals their declared (non-factory) default unless defaults are included, and the fields with a blacklisted tag; whitelisted keys are always kept. A missing attribute is an AttributeError for a required field that is not blacklisted, and otherwise skipped or, if defaults are included, replaced by the default. A sort argument only reorders the entries (ascending, descending for -1, by the key function if callable), the JSON export is the JSON encoding of that dict, the repr of a record is the qualified name of its class followed by name=repr(value) for each entry of its export in that order, and exporting never changes the object.",
 ['inputs','configurations'],'every class, every object, every combination of include_defaults, sort, blacklist and whitelist',
 'Tests combine the export options pairwise on one or two three-field classes.',
 [REC,FLD],[('RecordBase._to_dict',REC),('RecordField.is_default',FLD),('RecordField.has_default',FLD),('RecordBase.to_json',REC),('RecordBase.__repr__',REC)],['exported dict and its order','JSON text','repr','AttributeError'])
prop('C15','Building from mappings, objects and JSON reads exactly what is named',
 "Building a record from mappings and keywords uses, for each name, the first mapping that has it and keywords last, and never modifies them; building from an object uses its attributes named like fields, with later mappings and keywords taking precedence, and skips missing attributes of fields with a default. With a Select the object's attributes are read under the source names of its renames and removals and the result is what the Select makes of them, required fields being allowed to be missing if a rename or optional addition supplies them. A frozen instance of the class itself, with nothing added and nothing selected, is returned as is; JSON text gives the same as its decoded mapping.",
 ['inputs'],'every object, list of mappings, keywords and Select',
 'Tests use one namespace object and three selects; which attributes are read and which may be missing depends on every operation list.',
 [REC,SEL],[('RecordBase.from_mapping',REC),('RecordBase.from_instance',REC),('RecordBase._to_dict (_rev_select)',REC),('SelectableShortcutFactory.run',SEL)],
 ['constructed record','argument objects afterwards','exception'])
prop('C16','Copies, pickles and exports reproduce the record',
 "For a record whose field values its fields accept unchanged, copy, deepcopy, a pickle round trip (protocol 2 or later), and building one from its dict export each give a record of the same class equal to it. A shallow copy of a frozen record is the record itself, otherwise a distinct record holding the identical values, including ones that equal their default; a deep copy is a distinct record sharing no mutable value with it, and objects shared between records deep-copied together stay shared (records that contain themselves excepted).",
 ['inputs','histories'],'every record, every value (including ones equal but not identical to the default), every aliasing between records copied together',
 'Tests copy one two-node record; identity, sharing and default-equal values are never checked.',
 [REC],[('RecordBase.__copy__',REC),('RecordBase.__deepcopy__',REC),('RecordBase.__getnewargs_ex__',REC),('RecordBase.__reduce_ex__',REC)],['the copy, its values and their identity'])
prop('C17','Class definition fixes the set of fields',
 "The fields of a record class are those of its record parents, in base order, followed by its own annotated names (class variables excepted) in declaration order; a name declared twice is rejected, as are a class without fields and a Final field outside a frozen class. A field is optional exactly if its class body assigns it a default (a factory or a value); inherited fields keep their default and processing. Frozenness, ordering, default check style and unary parsing are what the class's own definition says and are not inherited, and defining a subclass never changes its parents.",
 ['programs','configurations'],'every class hierarchy and body: any number of parents and fields, any mix of defaults, Final, ClassVar and options',
 'Tests define about ten hierarchies of depth two; the set of programs is unbounded.',
 [REC,FLD],[('RecordBase.__init_subclass__',REC),('RecordField.from_type_hint',FLD),('RecordField.__init__',FLD)],['class attributes describing fields','exceptions at class definition'])
prop('C18','A declared constraint is enforced or rejected, never dropped',
 "Every check style, coercer and validator put on a hint (directly, around or inside Final, Optional/Union, nested hints, or through a new type), added in the pre-bind hook or set as the class default takes effect on the values of that field and of no other, or the class definition raises; a tag on the hint of a field (within Final or a new type, too) becomes a tag of that field, and filtering fields by a tag gives exactly those that have it, in order. Later check styles override earlier ones and the class default, tokens given as classes act as instances with no arguments, and annotations that are no such tokens are ignored without being called. After a class is defined no token can be added to its fields.",
 ['programs','configurations'],'every hint built from the supported hints and every list of tokens',
 'Tests enumerate some 40 hints with one or two tokens each.',
 [GET,TYP,FIL,UTL,FLD],[('get_annotated_filler',GET),('DumbFiller.bind/apply',GET),('GenericFillerN.bind',TYP),('_as_instance',UTL),('AnnotatedFiller.apply/bind',FIL),('RecordField.from_type_hint',FLD),('WrapperFiller',TYP),('FieldDict.filter_by_tag',FLD)],
 ['acceptance of values after definition','exceptions at class definition'])
prop('C19','Built-in validators compute what they promise',
 "Clamp returns the value if it lies between its bounds and else the nearer bound; Within passes exactly the values on the right side of each bound, inclusive as configured; Cyclic returns a value v unchanged inside [minimum, maximum) and else the value in that interval that differs from v by a whole number of periods; FullMatch and Truth pass exactly full matches and true values. Contradictory bounds are rejected when Clamp and Within are built. A failing assertion raises the configured error, or only warns (through the configured logger) and keeps the value; a passing one returns the very value given.",
 ['inputs'],'all bounds and values of any totally ordered kind, all flag combinations, all errors and warning modes',
 'Tests try about three values per validator.',
 [BVAL,VAL],[('Clamp',BVAL),('Within',BVAL),('Cyclic',BVAL),('FullMatch/Truth',BVAL),('AssertValidation.inner/_raise/_exc',VAL)],['returned value','exception','warnings'])
prop('C20','Built-in coercers compute what they promise',
 "Call and class-method coercers pass the value followed by their configured arguments; ComposeCoercer applies its parts last to first; MapCoercion returns the mapped value, else calls the mapped factory once, else fails; the bool coercer for integers maps only 0 and 1; Falsish builds the target without the input only for false inputs; Whole converts only whole numbers and to the equal (nearest) integer. Loose, LooseUnpack and LooseUnpackMap build the target from the input (as one, positional or keyword arguments) plus the configured arguments, and their constrained forms accept exactly inputs meeting the constraint; Eval and LiteralEval evaluate only text (Eval with just the configured names), and ToBytes gives bytes that decode to the integer. Anything else is a failure of the coercer, never a wrong value.",
 ['inputs'],'all inputs, configured arguments, constraints and target types',
 'Tests try two to six inputs per coercer.',
 [COE,STD],[('CallCoercion/ClassMethodCoercion/MapCoercion/ComposeCoercer',COE),('Loose/LooseUnpack/LooseUnpackMap.func_args',STD),('Whole/Falsish/BoolFiller/ToBytes',STD),('Eval/LiteralEval',STD)],['value returned','exception'])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
