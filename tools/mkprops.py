"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable in one place)."""
import json, os
R = 'records/record.py'; S = 'records/select.py'; F = 'records/field.py'; X = 'records/extras.py'
FF = 'records/fillers/filler.py'; TF = 'records/fillers/builtin_fillers/typing_fillers.py'
SF = 'records/fillers/builtin_fillers/std_fillers.py'; CO = 'records/fillers/coercers.py'
VA = 'records/fillers/validators.py'; BV = 'records/fillers/builtin_validators.py'; GF = 'records/fillers/get_filler.py'
P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
              'anchors': {'files': files,
                          'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                          'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                          'observe_at': list(observe), 'hook_needed': hook}})


p('C01', 'Concurrent callers get exactly the results they would get alone',
  'Whatever the interleaving of threads that construct, parse, import, export, select, compare, hash, copy or pickle '
  'records of shared classes, sharing record instances, selections and exporters they only read, every call returns the '
  'same value or raises the same error as it would running alone. In every such call the user\'s coercers, validators, '
  'factories, parsers and post-construction methods run as they would alone: with the same arguments and equally often.',
  ['schedules', 'programs', 'inputs'],
  'every interleaving, at bytecode granularity, of 2-4 threads running any mix of the public operations on shared classes, instances and selections',
  'All 216 tests are single-threaded; none shares a class, selection, exporter or instance between threads.',
  [R, S, F, FF, TF, CO, VA],
  [('construction keeps per-call state in locals', R + ':RecordBase.__new__'),
   ('bound factory/exporter objects are created per access', S + ':SelectableFactory.__get__, Exporter.__get__'),
   ('fillers are read-only after bind', FF + ':AnnotatedFiller.fill')],
  [('_hash', 'lazily cached hash of a frozen record', R + ':RecordBase.__hash__'),
   ('_bool', 'lazily cached truth value of a selection', S + ':Select.__bool__'),
   ('possible_values', 'type -> allowed literals', TF + ':LiteralFiller')],
  ['return value, exception and callback log of each call'])

p('C02', 'Outcomes never depend on earlier operations, even failed or interrupted ones',
  'The outcome of an operation depends only on the class definitions, its arguments and the current field values of the '
  'records it is given. After any history of other operations on the same classes, selections and exporters, including '
  'operations that failed or were interrupted at an arbitrary point, it returns or raises exactly what it would in a '
  'fresh process.',
  ['histories', 'crash_points', 'fault_sequences', 'inputs'],
  'every sequence of public operations with any callback failing and an interrupt at any step of any of them, followed by any operation',
  'Each test builds its own class, does one or two operations and stops; nothing is ever retried after a failure or interrupt.',
  [R, S, F, FF, TF, SF, CO, VA, BV],
  [('fillers, tokens and selections are not written to after binding', FF + ':AnnotatedFiller.fill'),
   ('lazily cached truth value', S + ':Select.__bool__')],
  [('possible_values', 'grows when probed with an unknown type', TF + ':LiteralFiller.bind'),
   ('keys_to_*', 'may be one-shot iterators', S + ':Select.__init__')],
  ['outcome of each operation after the history, against the same operation in a fresh fork'])

p('C03', 'No operation modifies the objects the caller handed in',
  'Apart from assigning or deleting an attribute, no operation modifies an argument the caller passed (mappings, '
  'sequences, namespaces, records, selections), a record that is exported, compared, hashed or copied, or a field\'s '
  'default value. This holds whether the operation succeeds, fails in any user callback, or is interrupted at any point.',
  ['inputs', 'crash_points', 'fault_sequences'],
  'every operation, argument and point at which it can fail or be interrupted',
  'Tests compare results and never look at the arguments again; no test fails or interrupts an operation half way and inspects the inputs.',
  [R, S, TF, CO],
  [('import combines mappings in a ChainMap and copies before selecting', S + ':Select.__call__, ' + R + ':RecordBase.from_mapping'),
   ('coerced containers are rebuilt, not edited', TF + ':GenericIterableFiller.reconstruct, GenericMappingFiller.reconstruct'),
   ('exports build a new dict', R + ':RecordBase._to_dict')],
  observe=['deep structural snapshot of every reachable caller object before and after each operation'])

p('C04', 'Interrupts and cancellations always reach the caller unchanged',
  'An interrupt or cancellation (any exception that is not an ordinary Exception, such as KeyboardInterrupt or '
  'SystemExit) that is raised during an operation or a class definition, whether by a user callback or a stream or asynchronously '
  'between any two steps, reaches the caller as that same exception object. It is never swallowed, wrapped or replaced, '
  'and after it no further coercer, validator, union member, parser, factory or post-construction method is tried.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every operation, every callback invocation or execution step of it, every BaseException that is not an Exception',
  'No test raises anything but ordinary exceptions, and none raises at an arbitrary step.',
  [R, FF, TF, SF, S],
  [('alternatives are guarded by "except Exception", never a bare except', R + ':RecordBase.parse, RecordBase.__new__; ' + FF + ':AnnotatedFiller.fill; ' + TF + ':UnionFiller.fill; ' + SF + ':Eval')],
  observe=['identity of the exception at the caller, callback log after the injection'])

p('C05', 'Checked fields hold only values that passed type check, coercion and validation',
  'A field with type checking takes an argument of its declared type (exactly that type when strict) as it is, and '
  'otherwise the result of the first of its coercers, tried in order and each given the original argument, that returns '
  'a value of that type; its validators then run in order, each on the previous one\'s result, and elements of '
  'containers are filled by the same rules. If a step fails, whatever mix of callbacks fails or misbehaves, no record is '
  'created: the error names the field, has the failure as its cause and has its type (or is a ValueError where that '
  'type cannot be built from a message).',
  ['fault_sequences', 'inputs', 'programs'],
  'every field declaration over the supported type hints, every argument, every assignment of failures (exceptions, wrong-typed results) to callback invocations',
  'Tests try a few dozen (hint, argument) pairs with well-behaved callbacks; coercers or validators that fail for some elements or return the wrong type, and later alternatives after that, are not reached.',
  [FF, TF, SF, CO, VA, BV, R, GF],
  [('type check, coercion loop, validation', FF + ':AnnotatedFiller.fill'),
   ('element fillers as validators', TF + ':GenericIterableFiller.bind, TupleFiller.bind, GenericMappingFiller.bind'),
   ('error wrapping', R + ':RecordBase.__new__')],
  observe=['stored value, raised error and callback log against a reference interpreter of the declaration'])

p('C06', 'Union fields pick the best match whatever other members fail',
  'A checked union field tries the argument on every member and takes the result of the member that matches best: exact '
  'type over subtype over coercion over unchecked; members that fail, for any reason, are passed over. '
  'It raises when every member fails, and when the best match is shared by members that give different objects.',
  ['fault_sequences', 'inputs', 'programs'],
  'every union of supported hints, nested in containers or not, every argument, every set of failing or misbehaving member callbacks',
  'Seven hand-written unions with well-behaved callbacks are tried; failures of some members combined with matches of others are sampled twice.',
  [TF, FF],
  [('member ranking', TF + ':UnionFiller.fill'), ('match kinds', FF + ':TypePassKind')],
  observe=['stored value or error against the reference interpreter'])

p('C07', 'Parsing succeeds exactly when one interpretation does',
  'Parsing a value gives the result of its only succeeding registered parser, and raises a parse failure when none '
  'succeeds and a type error when several do, whichever parsers fail for whatever ordinary reason. Constructing from one '
  'positional argument, for a class with unary parsing on, gives the parsed record or the record with its one required '
  'field set to the argument, whichever alone can be built (including its post-construction step), and raises when '
  'neither or both can.',
  ['fault_sequences', 'inputs', 'programs'],
  'every class (inherited and custom parsers, one or many required fields, any post-construction method), every argument, every set of parsers, fillers and post-construction calls that fail',
  'Tests use three classes and do not vary which parsers fail.',
  [R],
  [('parser collection and the exactly-one rule', R + ':RecordBase.parse, RecordBase.__init_subclass__'),
   ('positional argument resolution', R + ':RecordBase.__new__')],
  observe=['result of parse/construction against each parser and the keyword construction run on their own'])

p('C08', 'Factory defaults are called freshly, once, and only when needed',
  'Each construction that omits a field with a factory default calls the factory exactly once and stores its result in that record '
  'only; one that supplies the field never calls it; and a plain default is stored as the very object declared. Omitted factory '
  'fields are made in declaration order, independently of what other threads construct, and a factory that fails makes the '
  'construction fail with that error.',
  ['schedules', 'fault_sequences', 'histories', 'configurations'],
  'every class, every subset of supplied fields, every factory failure, any history of and interleaving with other constructions, any hash seed',
  'Tests check that two instances do not share a list; call counts, order, failing factories and concurrency are untested.',
  [F, R],
  [('make_default', F + ':RecordField.make_default'), ('filling of omitted optional fields', R + ':RecordBase.__new__')],
  observe=['factory call log per construction, identity of stored defaults'])

p('C09', 'Frozen records never change and hash consistently',
  'Once built, a frozen record keeps its field values: assigning or deleting any public attribute raises TypeError and changes '
  'nothing. Its hash is the same for every caller at every time, and frozen records of one class whose (hashable) field values are equal are equal and have equal hashes, '
  'however hashing, comparing, copying and exporting interleave between threads and wherever such an operation failed or was '
  'interrupted before.',
  ['schedules', 'crash_points', 'histories', 'inputs'],
  'every frozen class (inheriting from frozen or mutable ones), every history of attribute assignments, deletions and read operations, every interleaving and interruption of them',
  'One test assigns one attribute and hashes one record once, in one thread.',
  [R],
  [('blocked attribute changes', R + ':RecordBase.__setattr__'), ('lazily cached hash', R + ':RecordBase.__hash__'),
   ('equality', R + ':RecordBase.__eq__')],
  [('_hash', 'cached hash, None until first computed', R + ':RecordBase.__slots__')],
  ['field values, equality and hash after every step'])

p('C10', 'Pickled records survive crashes and restarts intact',
  'A record whose pickle export reported success and whose bytes reached storage loads, in any later process, as a record '
  'of its class equal to one built there from the same values, with (if frozen) the same hash as that one, for records '
  'whose values their fields accept unchanged. Stream errors during export or import reach the caller, and loading an '
  'export that was cut short raises instead of giving a record.',
  ['crash_points', 'fault_sequences', 'histories', 'configurations'],
  'every record class and value, every sequence of exports to one stream, every short or failing read or write, crash point and torn tail, and every hash seed of the restarted process',
  'One test pickles one non-frozen record to a BytesIO and loads it in the same process.',
  [R, X],
  [('reconstruction arguments and state', R + ':RecordBase.__getnewargs_ex__'),
   ('stream export/import', R + ':RecordBase.to_pickle, RecordBase.from_pickle_io, RecordBase.from_pickle')],
  [('_hash', 'process-specific cached hash that is part of the pickled slots', R + ':RecordBase.__slots__')],
  ['records read back by a restarted process with another hash seed'])

p('C11', 'JSON exports that succeed read back; damaged ones never become records',
  'A record of JSON values whose JSON export to a string or stream reported success, and whose text reached storage, '
  'imports as an equal record, in any later process and with the same selections applied in reverse, for records whose values '
  'their fields accept unchanged. Stream errors during '
  'export or import reach the caller as they are, and importing a text that was cut short raises instead of giving a record.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'every record of JSON-representable values, every stream with failing or short raw writes and reads, every crash point and torn tail',
  'One test writes one record to a StringIO.',
  [R, X, S],
  [('JSON export', R + ':RecordBase.to_json'), ('JSON import', R + ':RecordBase.from_json, RecordBase.from_json_io')],
  observe=['records read back after crash and restart'])

p('C12', 'Defining a class never changes the classes that already exist',
  'Defining a record class, concurrently or not, successfully or failing or interrupted at any point of it, never changes '
  'the behaviour of its parents, siblings or any other record class, even if they share type hints, coercers, validators, '
  'tags or defaults. The new class behaves as if it had declared its parents\' fields (in their order, with their own '
  'checking style, coercion and validation) before its own, whatever its own options are.',
  ['histories', 'crash_points', 'schedules', 'programs'],
  'every sequence or interleaving of class definitions, each complete, failing at any step or interrupted at any step, with every sharing of hints and tokens',
  'Two tests inherit once and look at the owner of one field; failed or concurrent definitions are not tested.',
  [R, F, FF, TF, GF],
  [('fields stay owned by and bound to the first class', R + ':RecordBase.__init_subclass__, ' + FF + ':Filler.bind'),
   ('one filler per declaration', GF + ':get_filler')],
  observe=['probe operations on every class before and after each definition'])

p('C13', 'Selections are immutable, reusable and shared safely',
  'A selection applied to an import or export removes keys, then optionally removes, renames, optionally renames, adds and optionally adds, in that '
  'order and failing on any key that a mandatory step misses or any step but an optional addition would overwrite; it does so identically '
  'however often, and from however many threads at once, it is used and however its keys were supplied (any iterable). Deriving a selected or configured importer '
  'or exporter, or merging selections, never alters the ones derived from.',
  ['histories', 'schedules', 'inputs'],
  'every tree of derived importers, exporters and merged selections, every order and interleaving of deriving and using them, including after failed uses',
  'Tests use each selection once, built from lists or dicts, in one thread.',
  [S, R],
  [('merge builds a new selection', S + ':Select._merge'), ('derivation builds a new bound object', S + ':SelectableFactory.Bound.select, Exporter.Bound.select, Exporter.Bound.export_with')],
  [('_bool', 'cached truth value computed by consuming the key iterables', S + ':Select.__bool__')],
  ['result of every use against an executable model of the selection'])

p('C14', 'Copies are equal to their original and independent of it',
  'Copying a record gives an equal record of its class that holds the very same field values (the record itself if it is '
  'frozen), and deep-copying gives an equal one that shares no mutable object with the original, with the class\'s defaults or with later records, and '
  'preserves sharing between the objects copied in one go. This holds for whatever values its fields hold at that time, and '
  'later changes to either never show in the other; a copy that fails or is interrupted leaves the original as it was.',
  ['histories', 'crash_points', 'inputs'],
  'every record (any values, including ones assigned later and ones equal to defaults), every nesting and sharing, every later mutation of copy or original, every failure inside a value\'s own copying',
  'Two tests copy one nested record of immutable values.',
  [R],
  [('copying', R + ':RecordBase.__copy__, RecordBase.__deepcopy__')],
  observe=['values, identities and later mutations of both'])

p('C15', 'Mutable records always show their latest field values',
  'Every read of a mutable record (attribute access, export, repr, equality, ordering, copy, pickle) uses, for each '
  'field, the value of the latest assignment that completed before it, or one that overlaps it; an assignment stores the very object given, and '
  'changes no other field and no other record. No history or interleaving of assignments and reads yields an older value, '
  'and mutable records are never hashable.',
  ['schedules', 'histories'],
  'every history and every interleaving of assignments to and reads of shared mutable records, with reads failing or interrupted in between',
  'The only mutability test is skipped unconditionally in the suite.',
  [R],
  [('plain attribute storage in mutable classes', R + ':RecordBase.__init_subclass__'),
   ('no caching of exports or ordering keys', R + ':RecordBase._to_dict, RecordBase.__eq__')],
  observe=['every read against the set of values its field held during the read (per-field linearizability)'])

p('C16', 'Results do not depend on the process or its hash randomisation',
  'The same class definitions and the same sequence of operations give the same results in every process, whatever its '
  'string-hash seed: the same values and kinds of error, the same order of exported fields, the same repr, JSON text and '
  'iteration order, and the same order of calls to the user\'s callbacks.',
  ['configurations', 'programs', 'histories'],
  'every program of definitions and operations over values that are themselves ordered (no sets), every pair of hash seeds',
  'The suite always runs with PYTHONHASHSEED=0.',
  [R, F],
  [('fields are kept in declaration order', R + ':RecordBase.__init_subclass__'), ('omitted optional fields', R + ':RecordBase.__new__')],
  [('_optional_keys', 'a set of field names that construction iterates over', R + ':RecordBase.__new__')],
  ['full outcome log under several hash seeds'])

p('C17', 'Serialisation goes through the replaceable backends at the time of each call',
  'Every JSON or pickle import or export uses the JSON or pickle backend that the user has installed in the package\'s extras at the time of the call, '
  'passes it the caller\'s arguments, and returns its result or raises its very error; patterns are compiled by the regex '
  'backend installed when the validator is made. Swapping a backend, at any point and from any thread, affects later calls '
  'only and never records, classes or other backends.',
  ['histories', 'schedules', 'fault_sequences'],
  'every sequence and interleaving of backend swaps with imports and exports, every failure of a backend call',
  'No test replaces a backend.',
  [X, R, BV],
  [('late lookup through the extras module', R + ':RecordBase.to_json, from_json, from_json_io, to_pickle, from_pickle, from_pickle_io; ' + BV + ':FullMatch')],
  observe=['calls received by instrumented backends'])

p('C18', 'Operations started in the middle of others behave as they would alone',
  'An operation may start while another one of the same thread is under way: a user callback (coercer, validator, factory, parser, '
  'post-construction method, comparison of values) may itself use the library, and so may a signal handler or a finaliser that '
  'runs between any two steps. The inner operation, whatever it is and whether it succeeds or fails, returns, raises and calls '
  'what it would alone, on the same classes, records, selections and exporters too, and so does the outer one.',
  ['schedules', 'crash_points', 'programs', 'inputs'],
  'every pair (and nesting) of public operations and every step of the outer one at which the inner one can run',
  'In no test does a callback use the library again, let alone a handler that runs at an arbitrary step.',
  [R, S, F, FF, TF],
  [('construction keeps per-call state in locals', R + ':RecordBase.__new__'),
   ('fillers are read-only after bind', FF + ':AnnotatedFiller.fill'),
   ('exports build a new dict per call', R + ':RecordBase._to_dict')],
  [('_hash', 'lazily cached hash of a frozen record', R + ':RecordBase.__hash__'),
   ('_bool', 'lazily cached truth value of a selection', S + ':Select.__bool__')],
  ['outcome and callback log of inner and outer operations against themselves alone'])

p('C19', 'Finished operations leave nothing behind in memory',
  'Once an operation on existing classes has ended and the caller has dropped its result or error, the library keeps none of its '
  'arguments, intermediate values or results alive, whether it succeeded, failed in a user callback or stream, or was interrupted '
  'by one; and repeating an operation does not take more and more memory. (Assigning an attribute keeps the value while it is '
  'assigned.)',
  ['histories', 'fault_sequences', 'inputs'],
  'every operation (construction, parsing, import, export, comparison, hashing, copying, selecting), argument, failing callback or stream call, and number of repetitions',
  'No test looks at what stays in memory or repeats an operation.',
  [R, S, F, FF, TF, CO, VA],
  [('nothing is cached per argument', FF + ':AnnotatedFiller.fill, ' + R + ':RecordBase.__new__, RecordBase.parse'),
   ('a declared error instance is raised without its earlier tracebacks', VA + ':AssertValidation._raise')],
  [('possible_values', 'type -> allowed literals', TF + ':LiteralFiller')],
  ['reference counts of everything reachable from the arguments, live records, user objects, streams and errors, allocated blocks'])

p('C22', 'Comparisons follow the current values of the fields',
  'Two records are equal exactly when they are of the same class and all their fields hold equal values; records of an ordered class '
  'compare (<, <=, >, >=) as the sequences of the values their fields hold at that time, in declaration order and leaving out '
  'fields excluded from ordering; ordering records of an unrelated class or of a class that is not ordered raises TypeError. If comparing two '
  'values fails, the comparison of the records fails with that very error, and what was assigned, compared, hashed or interrupted '
  'before or concurrently makes no difference.',
  ['histories', 'fault_sequences', 'schedules', 'inputs'],
  'every class, pair of records and operator, every history of assignments, deletions, interrupted and concurrent reads, every failing comparison of values',
  'One class with three fields is compared a few times; nothing is assigned, fails or runs concurrently.', [R],
  [('equality', R + ':RecordBase.__eq__'), ('ordering key', R + ':RecordBase.__lt__, __le__, __gt__, __ge__')],
  [('_hash', 'cached hash consulted by equality of frozen records', R + ':RecordBase.__hash__')],
  ['result of every comparison against the comparison of the field values'])

p('C23', 'Exports contain exactly the requested fields with their current values',
  'An export contains each field, under its name and with the very value it holds at that time, unless the field has a black-listed '
  'tag, or defaults are left out and the value equals its plain default; white-listed fields are always contained, and fields '
  'appear in declaration order or in the requested order (sorted, reversed or by the given key). If comparing a value to its default or '
  'calling the sort key fails, the export fails with that very error. What was exported, assigned or interrupted before or concurrently makes no difference.',
  ['histories', 'fault_sequences', 'schedules', 'configurations'],
  'every class, record and combination of filters and orders (through the record, its class or a related class), every history of assignments, deletions, interrupted and concurrent reads, every failing comparison',
  'Four hand-picked combinations of filters on one class are tried; nothing fails or runs concurrently.', [R, F, S],
  [('export filtering', R + ':RecordBase._to_dict'), ('default test', F + ':RecordField.is_default'),
   ('export arguments', S + ':Exporter.Bound.export_with, NoArgExporter.run')],
  observe=['keys, their order and values of every export against a model of the filters'])

p('C20', 'Range validators keep values inside their bounds',
  'A value accepted by a range check lies inside the stated bounds with the stated inclusivity and is unchanged; clamping stores an inside value '
  'unchanged and the nearest bound otherwise; cyclic wrapping of a finite value stores the equivalent value inside the half-open range; a value that '
  'satisfies its checks is never refused, and a range check or clamp no value can satisfy is refused when it is stated. This holds for every '
  'field the validator is attached to, alone or combined with other tokens, as an element or union member, shared between fields, classes and threads. '
  'If a comparison or arithmetic operation of the value fails, the field fails with that very error and nothing is remembered.',
  ['inputs', 'programs', 'fault_sequences', 'schedules', 'histories'],
  'every bound pair, inclusivity and comparable value of any type, every field shape and chain of validators, every failing or interrupted comparison, every interleaving of users of one validator',
  'A handful of integers are tried on one field each; no comparison fails and no validator is shared between threads.', [BV, VA, FF],
  [('range validators', BV + ':Within, Clamp, Cyclic'), ('chaining of validators', FF + ':AnnotatedFiller.fill')],
  observe=['value stored, refusal or warning for each argument against an own comparison with the bounds'])
p('C21', 'Built-in coercers convert only what they document',
  'Each built-in coercer returns the documented conversion of its argument or refuses it: whole-number coercion gives the integer equal to '
  'its whole argument and refuses others, loose coercion calls the target type exactly as stated and only with arguments its constraints permit, maps, '
  'class methods, falsish and byte conversions give the documented result, and compositions apply in reverse order. Literal evaluation never '
  'executes code, and evaluation reaches no names but the listed ones. A conversion that fails or is interrupted, in whatever field, type, '
  'composition or thread, is a refusal of that argument alone and changes nothing for later ones.',
  ['inputs', 'programs', 'fault_sequences', 'schedules', 'histories'],
  'every argument, target type, form and composition of coercers, every failing or interrupted user conversion, every interleaving of users of one coercer',
  'A handful of arguments per coercer are tried; no conversion fails and no coercer is shared between types or threads.', [SF, CO, TF],
  [('built-in coercers', SF + ':Whole, LiteralEval, Eval, Loose, LooseUnpack, LooseUnpackMap, Falsish, ToBytes, FromInteger'),
   ('maps, class methods, compositions', CO + ':MapCoercion, ClassMethodCoercion, ComposeCoercer, CallCoercion')],
  observe=['value stored or refusal for each argument against a reference of each coercer'])
p('C24', 'Contradictory declarations are rejected when the class is defined',
  'A declaration that can not be honoured raises when the class is defined and never yields a usable class: coercers without checking, '
  'coercers that do not suit their type, validated or checked elements in an unchecked container, strict checks on abstract types, checks of what is no type, overridden '
  'inherited fields, tokens for already inherited fields, final fields in a mutable class, no fields. Every other declaration is accepted and behaves as '
  'declared. What was defined, failed or was interrupted before or concurrently, with the same hints and tokens, makes no difference.',
  ['programs', 'configurations', 'histories', 'schedules', 'crash_points'],
  'every class declaration (styles, tokens, hints, parents, hooks and options at any depth), every sequence and interleaving of complete, failing and interrupted definitions sharing hints and tokens',
  'Eight declarations are tried, each once, alone and uninterrupted.', [R, FF, TF, SF, GF],
  [('bind-time checks', FF + ':AnnotatedFiller.bind; ' + TF + ':GenericFiller.bind; ' + SF + ':SimpleFiller.bind'),
   ('class-level checks', R + ':RecordBase.__init_subclass__')],
  observe=['whether each definition raises, against an own reading of the declaration; behaviour of the accepted classes'])

p('C25', 'Imports give the record that construction from the given values gives',
  'Importing gives the record that constructing with the combined values gives, or fails as that does: from_mapping combines mappings, earlier ones '
  'winning, then keyword arguments; from_instance takes the attributes of any object (missing ones only if optional), overridden by the given mappings '
  'and keyword arguments; from_json the members of the object in the text or stream; from_pickle parses an unpickled value that is not of the class; '
  'user-defined factories the mapping they return. Unknown names and missing required ones are refused, surplus attributes ignored. If reading a source fails, the import '
  'fails with that very error and no record is created, whatever was imported before or concurrently.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every record class, mapping, object, JSON text and pickle, every failing callback, mapping or attribute, every sequence and interleaving of imports through fresh or kept importers',
  'The tests import a few fields from well-behaved dicts and namespaces, one after the other.', [R, S, X],
  [('the importers', R + ':RecordBase.from_mapping; RecordBase.from_instance; RecordBase.from_json; RecordBase.from_pickle; RecordBase._to_dict'),
   ('the calling machinery', S + ':SelectableFactory; SpecializedShortcutFactory')],
  observe=['the record (types, values, identity of the values) or error of each import and the callbacks it ran, against construction from the combined values in a fork'])

p('C26', 'The post-construction step runs exactly once, on the complete record',
  'A construction succeeds only with all required and no unknown fields, in whatever order they are given. The post-construction step, own or inherited at any '
  'distance, then runs exactly once, after every given value is filled and every default is made, and sees exactly the values that the record will hold. What it returns, unless '
  'None, false values included, is the result; an error it raises is the error of the construction. No other user code runs after it. This holds for every entry '
  'point: constructor, imports, selections, unpickling; copying runs neither callbacks nor the step. Nothing constructed, failed, nested in a step or running in another thread makes a difference.',
  ['inputs', 'histories', 'schedules', 'crash_points'],
  'every record class, every kind of step, every set and order of arguments, every failing callback or step, every sequence, nesting and interleaving of constructions',
  'The tests run a step that rejects or replaces once, from the constructor.', [R, S],
  [('construction', R + ':RecordBase.__new__; RecordBase.post_new'), ('copies', R + ':RecordBase.__copy__; RecordBase.__deepcopy__; RecordBase.__getnewargs_ex__')],
  observe=['the sequence of callbacks with their arguments, the step among them, and the result or error, against the same class without a step followed by what the step does'])

p('C27', 'Field objects and the textual form of records tell the truth',
  'The textual form of a record is its class name with exactly the fields, order and values that an export with the same arguments contains, each as '
  'its own repr. A class lists its own and inherited fields in declaration order; each field object, reached from the declaring class or a child, tells its '
  'name, the class that declared it, its tags and whether it has a default of whatever truth value. make_default gives the very object declared, or one fresh '
  'result of the factory; is_default tells whether a value now equals the plain default; filtering by tags gives a new mapping of exactly the fields with an equal tag. '
  'A failing comparison, factory or repr surfaces unchanged, and what was defined, assigned, asked or interrupted before or concurrently makes no difference.',
  ['inputs', 'programs', 'histories', 'schedules', 'fault_sequences'],
  'every record class with tags, defaults and children, every record, every failing comparison, factory or repr, every sequence and interleaving of questions, assignments and definitions',
  'The tests ask for tags once and for a few textual forms of one record, with values that never fail.', [F, R, 'records/tags.py'],
  [('field objects', F + ':RecordField; FieldDict.filter_by_tag'), ('textual form', R + ':RecordBase.__repr__; RecordBase._to_dict')],
  observe=['each answer against the declaration of the class and a model of the filters, with the very values and factory calls'])

P.sort(key=lambda x: x['id'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        f.write(json.dumps(x) + '\n')
