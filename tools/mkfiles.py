#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, note, technique, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why,
                  files=files, mech=mech, note=note, technique=technique,
                  observe=observe or [], state=state or []))


S = 'jsons/serializers/'
D = 'jsons/deserializers/'

prop('C01', 'Typed round trip',
     'Loading the dump of a value with the value\'s own type gives back an equal value in which every part has exactly '
     'the same type as before, as Python objects, as JSON text and as bytes in any unicode encoding. This holds for '
     'every nesting of primitives, datetimes, dates, times, timedeltas, timezones, ZoneInfo, Decimal, UUID, complex, '
     'paths, enums, NamedTuples, NewTypes, lists, tuples, sets, frozensets, deques, (ordered/default) dicts, Optionals, '
     'unions whose alternatives differ in JSON shape, classes that derive from builtin containers, str, int or float, dataclasses, attrs classes, plain hinted, slotted and '
     'JsonSerializable classes, whatever their class and attribute names, module and way of writing hints (postponed, '
     'or with ClassVar, Final, InitVar or Annotated around them). Datetimes '
     'without timezone come back as the same local time with the local offset.',
     ['inputs', 'programs'],
     'all values of all types composed of the supported ones; all class definitions of the listed styles',
     'Tests pin one or two values per type; the claim is about every composition of types, names and values.',
     [S, D, 'jsons/_lizers_impl.py', 'jsons/_load_impl.py', 'jsons/_dump_impl.py'],
     [('serializer and deserializer of each type are inverses', S + ' and ' + D),
      ('lookup of the (de)serializer by type name, then by parent', 'jsons/_lizers_impl.py:_get_lizer')],
     'Random search over generated class definitions, types and values (dict keys that are bool/None, names with a '
     'leading double underscore and the reserved keys -meta/-keys/-cls are outside the domain).',
     'property-based testing: type-directed generation, round-trip oracle with type-exact equality')

prop('C02', 'Dumps consist of JSON types only, in the documented shape',
     'The dump of any supported value consists solely of dict, list, str, int, float, bool and None (exactly those '
     'types, dict keys included) and is accepted by a standard JSON encoder. It has the documented shape: objects and '
     'NamedTuples become dicts with exactly their attributes, enums their member name, iterables lists of the same '
     'length and order, temporal values RFC 3339 strings (timedelta: seconds), complex/timezone/ZoneInfo dicts, '
     'Decimal/UUID/path strings. Giving the type of the value as an argument or as a type hint does not change the result.',
     ['inputs', 'programs'], 'all supported values, typed and untyped, heterogeneous containers included',
     'Tests compare a handful of literal dumps; a leaking Python object or a lost/reordered element in another '
     'combination of types goes unnoticed.',
     [S, 'jsons/_dump_impl.py'],
     [('one serializer per type', S), ('recursion through dump', 'jsons/_dump_impl.py:dump')],
     'Compared against an independent reference dump for every generated value.',
     'property-based testing against a reference model of the dump')

prop('C03', 'Temporal values keep their instant and follow RFC 3339',
     'A dumped datetime is a valid RFC 3339 timestamp of the same instant with the same wall clock and UTC offset (a '
     'zero offset as Z or +00:00), for all years, fractions of a second, offsets of whole minutes and zones; loading '
     'such a timestamp gives exactly that wall clock and offset. A datetime without timezone is dumped with the offset '
     'that local time has at that moment, also when the local timezone of the process changes; strip_microseconds '
     'removes exactly the fraction. Dates, times and timedeltas keep all of their fields.',
     ['inputs', 'configurations'], 'all datetimes, dates, times, timedeltas; all local timezones',
     'Tests use one fixed timestamp in UTC; sign, rounding, DST and padding errors need other values.',
     ['jsons/_datetime_impl.py', S + 'default_datetime.py', D + 'default_datetime.py', D + 'default_time.py',
      D + 'default_timedelta.py'],
     [('formatting and offset', 'jsons/_datetime_impl.py:to_str'), ('parsing', 'jsons/_datetime_impl.py:get_datetime_inst')],
     'Oracle is an RFC 3339 formatter/parser written independently of strftime/strptime, plus datetime arithmetic.',
     'property-based testing against an independent RFC 3339 codec, under several TZ settings')

prop('C04', 'Dumping and loading leave their arguments untouched and are repeatable',
     'No dump or load call changes the object, JSON value, dict of attribute getters or option objects it was given, '
     'whether it succeeds or raises. Calling it again with the same arguments gives an equal result.',
     ['inputs', 'histories'], 'all values, JSON inputs (valid or not), types and options',
     'Tests look at the result only, never at the arguments afterwards, and call once.',
     [S + 'default_object.py', D + 'default_dict.py', D + 'default_object.py', 'jsons/_load_impl.py'],
     [('arguments are copied before they are adapted', D + 'default_dict.py:_load_hashed_keys')],
     'Arguments are compared with deep snapshots (types, order and identity of containers) after each call.',
     'property-based testing: snapshot comparison, repetition')

prop('C05', 'All forms of the API agree',
     'dumps/dumpb give the JSON text/bytes of exactly what dump gives, loads/loadb give what load gives for the parsed '
     'text, with jdkwargs and encoding passed to the JSON codec and all other options to dump/load. The methods of a '
     'JsonSerializable (json, dump, dumps, dumpb, str, load, loads, loadb, from_json) give what the functions give for '
     'that class with the same options, and with_dump/with_load classes behave as dump/load with the given options '
     'always added.',
     ['inputs', 'configurations'], 'all values, options and API forms',
     'Tests exercise each form once with its default options.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/classes/json_serializable.py'],
     [('text and bytes forms wrap dump and load', 'jsons/_dump_impl.py:dumps, jsons/_load_impl.py:loads'),
      ('methods delegate to the functions', 'jsons/classes/json_serializable.py')],
     'Differential between the forms, with generated options.',
     'property-based testing: differential between API forms')

prop('C06', 'Every failure is a documented jsons error that tells what failed',
     'Loading any JSON value, text or bytes into any supported type either returns or raises an error of the '
     'DeserializationError family (ValidationError for validators); text that is not JSON raises DecodeError, which is '
     'also a JSONDecodeError with the right position, and dumping raises nothing but SerializationError. A '
     'DeserializationError names the JSON value and type that did not match, and missing or unexpected arguments are '
     'reported with the argument\'s name; meta info of any content is no exception to this; non-bytes given to loadb and types that are not JSON are rejected the same way.',
     ['inputs'], 'all JSON values against all types, all malformed texts and byte strings',
     'Tests try about ten bad inputs; a wrong exception type escapes for the inputs nobody thought of.',
     ['jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/exceptions.py', D],
     [('errors of deserializers are wrapped', 'jsons/_load_impl.py:_do_load'), ('error classes', 'jsons/exceptions.py')],
     'JSON inputs are random, type-directed or mutated dumps; JSON texts are random or corrupted.',
     'property-based testing / structure-aware fuzzing: mutated dumps and corrupted texts, error-contract oracle')

prop('C07', 'What load returns is of the requested type',
     'Whenever load returns for a supported type, the result is an instance of that type, recursively: elements, keys, '
     'values and attributes are of their declared types (and a DefaultDict has that of its values as default factory), '
     'whatever JSON was given. None is accepted exactly for types '
     'that admit it (None, Optional, Union with None, Any, object) and rejected for every other type, at any depth.',
     ['inputs', 'programs'], 'all JSON values against all types',
     'Tests check well-formed input; conformance is a statement about every input that is not rejected.',
     ['jsons/_load_impl.py', 'jsons/_common_impl.py', D],
     [('None check', 'jsons/_common_impl.py:can_match_with_none'), ('deserializers', D)],
     'Results are judged by an independent structural conformance predicate over the generated type.',
     'property-based testing / structure-aware fuzzing: conformance predicate')

prop('C08', 'Constructor arguments are bound by the documented precedence',
     'When an object is loaded, each constructor parameter gets the (loaded) value under its name in the JSON, else '
     'the result of its attribute getter, else its default, else None if its type admits None; otherwise an '
     'UnfulfilledArgumentError naming that parameter is raised. Keys that are no parameter become attributes of the '
     'instance (loaded with their class annotation if there is one), properties without setter are skipped, and in '
     'strict mode they raise a SignatureMismatchError naming the key. Remaining attribute getters are set as '
     'attributes.',
     ['inputs', 'programs', 'configurations'], 'all signatures, all subsets of keys, getters, defaults and extras',
     'The precedence has four levels and several parameter kinds; tests try one combination per level.',
     [D + 'default_object.py', 'jsons/_load_impl.py'],
     [('argument resolution', D + 'default_object.py:_get_value_for_attr'),
      ('extra keys', D + 'default_object.py:_set_remaining_attrs, _get_remaining_args')],
     'Compared with a reference binder for generated signatures and inputs.',
     'property-based testing against a reference model of argument binding')

prop('C09', 'Strip options remove exactly what they name',
     'The dump with strip options equals the dump without them minus exactly the entries they name, at every depth of '
     'objects, lists, tuples and dicts: strip_nulls the attributes and dict entries that are null, strip_privates the '
     'attributes with a leading underscore, strip_properties the properties, strip_class_variables the class '
     'variables, strip_attr the named attribute(s). Options combine as the union of their effects, and nothing that '
     'was not named is lost or changed.',
     ['inputs', 'configurations'], 'all object graphs, all combinations of strip options',
     'Tests use flat objects and one option at a time.',
     [S + 'default_object.py', S + 'default_dict.py'],
     [('attribute filter', S + 'default_object.py:_filter_attributes'), ('null entries', S + 'default_object.py:_add_dumped_elem')],
     'Compared with a model applied to generated object graphs with private, property, class-variable and null members.',
     'property-based testing against a model of the attribute filter')

prop('C10', 'Strict dumping as a class exposes only that class\'s attributes',
     'With strict=True, dumping an object as a base class (as argument, as type hint of an attribute that has no default at '
     'class level, as element type of a list, or as given for a key of a dict with the types argument) gives exactly the attributes and properties the base class declares, with the same values as '
     'otherwise; without strict, nothing of the object is lost. In strict mode an attribute that fails to be dumped '
     'raises a SerializationError instead of being skipped, and a strict dump of conforming values equals the '
     'ordinary dump.',
     ['inputs', 'programs'], 'all class hierarchies, element types and values',
     'Leaking a subclass attribute depends on hierarchy, position and declared type; tests cover one position each.',
     [S + 'default_object.py', S + 'default_list.py', S + 'default_iterable.py', S + 'default_union.py'],
     [('attributes from class', S + 'default_object.py:_get_attributes_from_class'),
      ('element type', S + 'default_list.py, ' + S + 'default_iterable.py')],
     'Compared with a reference model for generated hierarchies (dataclasses, slots, annotated, hinted).',
     'property-based testing against a reference model')

prop('C11', 'Key transformers rename all keys and nothing else',
     'Dumping with a key transformer equals the plain dump with the transformer applied to every key of every nested '
     'object and dict; loading with a transformer equals loading the JSON with its keys transformed beforehand. '
     'Snake-case objects survive a dump in camelCase, PascalCase or lisp-case followed by a load with snakecase, and '
     'the four transformers are idempotent and agree with each other on snake_case words.',
     ['inputs', 'configurations'], 'all object graphs, keys and transformers',
     'Tests use one flat object per transformer.',
     ['jsons/_key_transformers.py', S + 'default_object.py', S + 'default_dict.py', D + 'default_object.py',
      D + 'default_dict.py', D + 'default_tuple.py'],
     [('string transformers', 'jsons/_key_transformers.py'), ('application', S + 'default_object.py:_add_dumped_elem, '
       + D + 'default_object.py:_check_and_transform_keys')],
     'Metamorphic relations over generated graphs, including custom transformers; algebraic laws of the four functions.',
     'property-based testing: metamorphic relation, algebraic laws')

prop('C12', 'Verbose dumps can be loaded without type information',
     'A verbose dump of an object graph equals the plain dump plus a -meta entry, which names the classes and/or the '
     'dump time exactly as the requested verbosity says. Loading it without any type restores the original graph with '
     'its actual classes, in memory or through text, also for attributes that hold instances of subclasses; an '
     'announced class can be loaded from its announced name and an unknown one raises UnknownClassError naming it. A '
     'class that is given to load, or its name, prevails over the one that -meta names for the root.',
     ['inputs', 'programs', 'configurations'], 'all graphs of importable classes, all verbosity values',
     'Tests use two-level graphs; paths, collections and subclass positions multiply.',
     [S + 'default_object.py', D + 'default_object.py', 'jsons/_common_impl.py', 'jsons/classes/verbosity.py',
      'jsons/_extra_impl.py'],
     [('collection of class names by path', S + 'default_object.py:_fill_collection_of_types'),
      ('use of the names', D + 'default_object.py:_get_value_from_obj, jsons/_common_impl.py:get_cls_and_meta')],
     'Generated class graphs of typed attributes; round trip without a type, differential with the plain dump.',
     'property-based testing: round trip and differential with the plain dump')

prop('C13', 'Unions resolve by the documented order',
     'Loading into a Union gives the result of the first alternative, in the order written, into which the value can '
     'be loaded, and fails only if it fits none. Dumping as a Union gives the dump by the alternatives the value is an '
     'instance of before any other, in the order written; None is dumped as null whenever the Union admits it. '
     'Optional, X | Y and nested Unions follow the same rule, at any depth and regardless of Unions used before.',
     ['inputs', 'programs', 'histories'], 'all unions of supported types, all values and JSON inputs',
     'Python treats unions with another order as equal, so caches may confuse them; tests use each union once.',
     [D + 'default_union.py', S + 'default_union.py', 'jsons/_compatibility_impl.py'],
     [('first successful alternative', D + 'default_union.py'), ('order of the alternatives', 'jsons/_compatibility_impl.py:get_union_params')],
     'Differential with loading/dumping by each single alternative in order; sequences of permuted unions.',
     'property-based testing: differential with the single alternatives')

prop('C14', 'The right (de)serializer is used, and forks are isolated',
     'A value is handled by the most recently registered function for exactly its type, otherwise by that '
     'registered most recently, with high priority, for one of its base classes, otherwise by the default one; a registration takes effect immediately '
     'and at every depth. A fork starts with a copy of its parent\'s serializers, deserializers, validators and '
     'warning settings, and from then on nothing registered or suppressed in one affects the other, for any order of '
     'forks, registrations and calls.',
     ['histories', 'inputs'], 'all histories of forking, registering, dumping and loading',
     'Isolation and immediacy are statements about histories (caches, shared tables); tests run three-step histories.',
     ['jsons/_lizers_impl.py', 'jsons/_fork_impl.py', 'jsons/_cache.py', 'jsons/classes/json_serializable.py'],
     [('registration and lookup', 'jsons/_lizers_impl.py'), ('copy on fork', 'jsons/_fork_impl.py:fork'),
      ('cache invalidation', 'jsons/_cache.py:clear')],
     'Operation histories are run against a model registry.',
     'stateful / model-based property testing',
     state=[{'name': '_serializers/_deserializers', 'meaning': 'registered functions by type name', 'where': 'jsons/_common_impl.py:StateHolder'}])

prop('C15', 'Validators are always enforced',
     'Whenever load produces a value of a type with a registered validator, at any depth, the validator is called with '
     'the loaded value; if it returns a falsy value or raises, load raises ValidationError (with the validator\'s '
     'message), and otherwise the result is the same as without validators. A value that is returned without '
     'conversion is validated too, and Unions fall through to the next alternative on a failed validation.',
     ['inputs', 'histories'], 'all positions of validated types in all types, all values',
     'Tests validate top-level values only.',
     ['jsons/_validation.py', 'jsons/_load_impl.py'],
     [('call of the validator', 'jsons/_load_impl.py:load, _do_load; jsons/_validation.py:validate')],
     'The set of loaded sub-values of a validated type is computed from the case; validator calls are recorded.',
     'property-based testing: model of which values must be validated')

prop('C16', 'Parallel processing gives the sequential result',
     'For any list or other iterable, number of tasks and task type (threads or processes), dumping or loading with '
     'tasks gives the same result in the same order as without, or fails when the sequential call fails. No element '
     'is lost, duplicated or left unfilled, for fewer, as many or more tasks than elements.',
     ['inputs', 'configurations', 'schedules'], 'all lengths, task counts, task types and failing positions',
     'Tests use one length and one task count, where the division has no remainder.',
     ['jsons/_multitasking.py', D + 'default_list.py', S + 'default_iterable.py'],
     [('division over tasks', 'jsons/_multitasking.py:_start_tasks'), ('filling of the result', 'jsons/_multitasking.py:_fill')],
     'Differential with the sequential call. Interleavings are those that the machine happens to produce; with '
     'threads, delays inside generated (de)serializers vary them.',
     'property-based testing: differential parallel vs. sequential')

prop('C17', 'Decorated functions receive and return converted values',
     'A function decorated with loaded (dumped) is called with each given argument - positional, keyword, variadic - '
     'loaded (dumped) by its annotation, and with the defaults of the others, and returns its result converted by the return annotation; with '
     'parameters=False or returnvalue=False that side is passed through untouched, and self/cls are never converted. '
     'This holds for functions, methods and coroutines, also when decorators are stacked, for the text and bytes '
     'variants and for a given fork and options; a call that the function would not accept raises a TypeError as without decorator; '
     'decorating a class, staticmethod or classmethod object raises InvalidDecorationError.',
     ['inputs', 'programs', 'configurations'], 'all signatures, call shapes, decorator options',
     'Binding arguments to annotations depends on the call shape; tests call with one shape.',
     ['jsons/decorators.py'],
     [('mapping of arguments', 'jsons/decorators.py:_map_args, _map_kwargs'), ('return value', 'jsons/decorators.py:_map_returnvalue')],
     'Generated signatures and calls, compared with what an undecorated function of the same signature is called with, plus dump/load per argument.',
     'property-based testing against Python\'s own binding of arguments')

prop('C18', 'transform is dump, then map, then load',
     'transform(obj, cls) equals loading the mapped dump of obj into cls, with dump_cls and dump_kwargs used for the '
     'dump, other keyword arguments for the load, and the mapper called once with the complete dump. It does not '
     'change obj and fails exactly when one of those steps fails.',
     ['inputs', 'configurations'], 'all objects, targets, mappers and options',
     'Tests transform one object with each option.',
     ['jsons/_transform_impl.py'], [('composition', 'jsons/_transform_impl.py:transform')],
     'Differential with the explicit composition for generated objects, target classes and mappers.',
     'property-based testing: differential with the explicit composition')

prop('C19', 'One failing element or attribute does not harm the others',
     'When an attribute cannot be dumped (non-strict), exactly that attribute is missing from the result and one '
     'warning names it, with all other attributes intact. When elements of a list cannot be loaded, the error names '
     'the first failing index, or, with warn_on_fail, the result consists of exactly the loadable elements in order '
     'with one warning per failing element.',
     ['inputs', 'fault_sequences'], 'all sets of failing attributes and elements, at all positions',
     'Tests let a single element or attribute fail.',
     [S + 'default_object.py', D + 'default_list.py'],
     [('skip on failure', S + 'default_object.py:_do_serialize'), ('index of failure', D + 'default_list.py:_do_load')],
     'Faults are injected by generated subsets of failing elements/attributes.',
     'property-based testing with injected faults')

prop('C20', 'Warnings are given and suppressed as configured',
     'After any history of suppress_warnings and suppress_warning calls on any forks, a condition that warns (datetime '
     'without timezone, failing attribute, failing element, hashed keys without hint, decorated staticmethod) emits '
     'its warning if and only if neither all warnings nor its code are suppressed for the fork in use. Suppression '
     'never changes the result.',
     ['histories', 'configurations'], 'all histories of suppression and forking, all warning conditions',
     'Tests suppress once on the root.',
     ['jsons/_common_impl.py', 'jsons/_extra_impl.py', 'jsons/_fork_impl.py'],
     [('decision to warn', 'jsons/_common_impl.py:StateHolder._warn'), ('settings', 'jsons/_extra_impl.py')],
     'Histories run against a model of the settings per fork.',
     'stateful / model-based property testing')

prop('C21', 'Enums load by name or value as requested',
     'Enum members are dumped as their name, or as their value with use_enum_name=False, at every depth. They are '
     'loaded from the name with use_enum_name=True, from the value with use_enum_name=False, and by default from the '
     'name if there is a member of that name and from the value otherwise; anything else raises a '
     'DeserializationError. This holds for Enum, IntEnum, mixed-in and aliased members, and names that equal other '
     'members\' values.',
     ['inputs', 'programs', 'configurations'], 'all enum definitions, members and inputs',
     'Ambiguity between names and values needs adversarial enums; tests use distinct ones.',
     [S + 'default_enum.py', D + 'default_enum.py'],
     [('choice of name or value', D + 'default_enum.py')],
     'Compared with the documented rule for generated enums.',
     'property-based testing against the documented rule')

prop('C22', 'Dicts with keys that are no JSON keys survive',
     'Keys that are not str, int, float, bool or None are dumped, and if the dumped key is still no JSON key it is '
     'replaced by a unique number with the dumped key stored under -keys. No entry is ever lost or overwritten (unless '
     'two keys have the very same dump), also when hashes collide or equal plain or dumped keys. Loading with the key '
     'and value types gives back the same dict, in memory and through text; loading without a type, or as a mapping '
     'without a key type, raises a DeserializationError.',
     ['inputs'], 'all dicts, key types and colliding hashes, at any depth',
     'Tests use one key per dict.',
     [S + 'default_dict.py', D + 'default_dict.py'],
     [('hashed keys', S + 'default_dict.py:_store_and_hash'), ('restoring', D + 'default_dict.py:_load_hashed_keys')],
     'Generated key types with colliding hashes by construction; model of the dump and round trip.',
     'property-based testing: model and round trip, adversarial hashes')

prop('C23', 'Results do not depend on what was processed before',
     'The result of a dump or load depends only on its arguments and the registered functions: not on other types, '
     'values, options or failures processed before, not on calls made in between by custom serializers, '
     'deserializers, validators, getters or properties that use the library themselves. In particular classes with the same name in '
     'different modules, equal but differently ordered types and options of earlier calls never influence each other.',
     ['histories', 'inputs'], 'all call histories, all re-entrant calls',
     'Caches make results history-dependent; each test runs from an arbitrary but fixed history.',
     ['jsons/_cache.py', 'jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/_lizers_impl.py'],
     [('caches cleared per call', 'jsons/_cache.py:clear, jsons/_load_impl.py:_do_load')],
     'Each call of a generated history is repeated alone and must give the same outcome.',
     'stateful property testing: history vs. isolated call')

prop('C24', 'Loading without a type recognises values and loses nothing',
     'Loading JSON without a type gives the same structure with the same keys, numbers, booleans, nulls and lists, in '
     'which the strings that are RFC 3339 timestamps (and none that cannot be loaded as a datetime) became datetimes of '
     'that instant; all other strings are unchanged. Loading into Any gives the JSON unchanged.',
     ['inputs'], 'all JSON values, all strings near the timestamp format',
     'Tests load one timestamp and one other string.',
     ['jsons/_load_impl.py', D + 'default_string.py', D + 'default_datetime.py'],
     [('string inference', D + 'default_string.py')],
     'Compared with a model with an independent timestamp recogniser; strings near the format where RFC 3339 and '
     'Python\'s parser differ (e.g. single digit fields) are accepted either way.',
     'property-based testing against a model')

prop('C25', 'Options and registered functions reach every depth, and passing on changes nothing',
     'Every keyword argument given to dump or load - those of jsons and those of the caller - reaches each registered '
     'serializer and deserializer, at every depth, unchanged and together with the fork in use. A registered function '
     'that passes what it got on to the default function for that type, or to dump or load, gives the same result (or '
     'fails in the same cases) as without registration, and every value of its type passes through it.',
     ['inputs', 'programs'], 'all types, values, options and registrations of passing functions',
     'Tests register constant functions for one class at one depth.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', S, D],
     [('kwargs are passed on at every level', S + ' and ' + D),
      ('lookup by class', 'jsons/_lizers_impl.py:_get_lizer')],
     'Functions are registered in forks, for classes of the case, builtin types and object; options that jsons consumes '
     'itself are judged by their effect.',
     'property-based testing: metamorphic relation (registration of passing functions) and recorded arguments')

prop('C26', 'The default functions do by themselves what dump and load do',
     'Each documented jsons.default_*_serializer, called on a value of its type with any options, returns what dump '
     'returns for that value, type and options; each default_*_deserializer, called on a json and a type, returns what '
     'load returns. Where dump or load raise an error for that input, the function raises one too. Deserializers of '
     'types that need no parameter do so without cls.',
     ['inputs'], 'all types with a default function, their values and jsons (broken ones included), all options, forks',
     'Tests call a few of the functions with one value each and no options.',
     [S, D, 'jsons/__init__.py'],
     [('default serializers', S), ('default deserializers', D), ('exported and registered', 'jsons/__init__.py')],
     'default_object_deserializer with cls is the documented way to fall back from an own deserializer.',
     'property-based testing: differential with dump and load')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['quant']},
                'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'state': p['state'],
                            'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                            'observe_at': p['observe'] or ['public API of jsons'],
                            'hook_needed': None}}) + '\n')
    checks, missing = [], []
    for p in P:
        if not os.path.exists(os.path.join(HERE, 'jv', 'props', p['id'].lower() + '.py')):
            missing.append({'property': p['id'], 'reason': 'The check is still being built.'})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': '/opt/venv/bin/python check.py %s --tier quick' % p['id'],
            'thorough_cmd': '/opt/venv/bin/python check.py %s --tier thorough' % p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p['technique'],
            'level': 'exploration',
            'level_note': p['note'],
        })
    manifest = {'version': 1, 'setup_cmd': '/opt/venv/bin/python check.py --selftest', 'checks': checks,
                'not_applicable': missing,
                'notes': 'Every check imports jsons from /repo as it is; nothing is built or cached. '
                         'JV_REPO=<dir> points the checks at another tree.'}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')
    print(len(checks), 'checks,', len(missing), 'missing')


main()
