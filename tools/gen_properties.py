"""Writes properties.jsonl (kept as a script so that wording stays reviewable)."""
import json
import pathlib

M = 'paradigm/_core/models.py'
S = 'paradigm/_core/signatures.py'
A = 'paradigm/_core/annotated.py'
SC = 'paradigm/_core/scoping.py'
ST = 'paradigm/_core/stubs.py'
MO = 'paradigm/_core/modules.py'
CA = 'paradigm/_core/caching.py'
EX = 'paradigm/_core/execution.py'
IX = 'paradigm/_core/index.py'
SO = 'paradigm/_core/sources.py'
DI = 'paradigm/_core/discovery.py'
CT = 'paradigm/_core/catalog.py'
EV = 'paradigm/_core/arboreal/evaluation.py'
CV = 'paradigm/_core/arboreal/conversion.py'
CN = 'paradigm/_core/arboreal/construction.py'
NK = 'paradigm/_core/arboreal/kind.py'

P = []


def p(id_, title, statement, over, text, why, files, mechanism, observe=()):
    assert len(title) <= 80, title
    row = {'id': id_, 'title': title, 'statement': statement,
           'quantifier': {'over': over, 'text': text},
           'why_tests_cant': why,
           'anchors': {'files': files,
                       'mechanism': [{'name': n, 'where': w}
                                     for n, w in mechanism]}}
    if observe:
        row['anchors']['observe_at'] = list(observe)
    P.append(row)


p('C01', 'A signature expects exactly the calls Python would admit',
  'For a plain signature, asking whether it expects some positional and '
  'keyword arguments answers true exactly when Python\'s call rules admit '
  'them, missing required arguments aside: no surplus positionals unless '
  'there is a variadic positional parameter, no keyword that names neither a '
  'still free keyword-capable parameter nor is absorbed by a variadic keyword '
  'parameter, and no parameter supplied both by position and by keyword. '
  'Names of positional-only parameters are ordinary extra keywords.',
  ['inputs'],
  'every well-formed list of parameters (any length, kinds, names, defaults) '
  'and every tuple of positional and mapping of keyword arguments',
  'The tests draw a few random signatures and argument lists per run and '
  'check one-sided relations (e.g. an extra keyword is rejected when there is '
  'no variadic parameter); parameter lists and calls are unbounded.',
  [M], [('PlainSignature.expects', M + ':PlainSignature.expects'),
        ('grouping by kind', M + ':to_parameters_by_kind')],
  ['PlainSignature.expects'])
p('C02', 'All-set is admission plus no required parameter left unsupplied',
  'For a plain signature, asking whether given arguments set everything '
  'answers true exactly when the arguments are admitted and every required '
  'parameter is consumed by position or supplied by keyword (a keyword does '
  'not supply a positional-only parameter).',
  ['inputs'],
  'every well-formed list of parameters and every call',
  'Tests sample a handful of signatures; the answer depends on the joint '
  'state of kinds, defaults, position and names of every parameter.',
  [M], [('PlainSignature.all_set', M + ':PlainSignature.all_set'),
        ('all_parameters_are_optional', M + ':all_parameters_are_optional')],
  ['PlainSignature.all_set'])
p('C03', 'Binding fails with a type error exactly for inadmissible arguments',
  'Binding arguments to a plain signature raises a TypeError exactly when the '
  'signature does not admit them, and never raises anything else for them; '
  'admission asked beforehand and binding never disagree.',
  ['inputs'],
  'every well-formed list of parameters and every call',
  'Tests only bind arguments generated to fit or to be obviously surplus.',
  [M], [('_bind_positionals', M + ':_bind_positionals'),
        ('_bind_keywords', M + ':_bind_keywords')],
  ['PlainSignature.bind', 'PlainSignature.expects'])
p('C04', 'A bound signature describes exactly what is still left to pass',
  'After binding, parameters consumed by position are gone; counting from the '
  'first parameter bound by keyword, keyword-capable parameters become '
  'keyword-only and a variadic positional parameter is dropped; every '
  'parameter bound by keyword becomes optional with the bound value as its '
  'default. All other parameters, the order, names, annotations, other '
  'defaults and the return annotation are unchanged.',
  ['inputs'],
  'every well-formed list of parameters and every admitted call',
  'Tests check only the type of the result and that bound parameters are '
  'optional, on a few random signatures.',
  [M], [('_bind_positionals', M + ':_bind_positionals'),
        ('_bind_keywords', M + ':_bind_keywords'),
        ('PlainSignature.bind', M + ':PlainSignature.bind')],
  ['PlainSignature.bind'])
p('C05', 'Ill-formed parameter lists are rejected, well-formed ones accepted',
  'Building a plain signature raises a ValueError exactly when two parameters '
  'share a name, the kinds are not in non-decreasing order, a required '
  'positional parameter follows an optional one, or there is more than one '
  'variadic parameter of the same kind; otherwise it succeeds and keeps the '
  'given parameters, in order, and the return annotation.',
  ['inputs'], 'every finite sequence of parameters, the empty one included',
  'Random generation rarely hits non-adjacent violations (duplicates far '
  'apart, a long prefix before the offending parameter).',
  [M], [('PlainSignature.__new__', M + ':PlainSignature.__new__')],
  ['PlainSignature()'])
p('C06', 'Parameters validate their kind and default at construction',
  'Building a parameter raises a TypeError for a kind that is not a parameter '
  'kind, a ValueError for a required variadic parameter or for a variadic '
  'parameter with a default, and nothing else; a built parameter reports the '
  'given annotation, kind and name, and has a default exactly when one was '
  'given (None included), reporting that very object.',
  ['inputs'], 'every combination of kind, presence and value of default, '
  'name and annotation',
  'Tests never pass invalid kinds and sample defaults from a small pool.',
  [M], [('OptionalParameter.__new__', M + ':OptionalParameter.__new__'),
        ('RequiredParameter.__new__', M + ':RequiredParameter.__new__'),
        ('_validate_kind', M + ':_validate_kind')],
  ['OptionalParameter()', 'RequiredParameter()'])
p('C07', 'An overloaded signature acts as the union of its alternatives',
  'An overloaded signature is built only from two or more plain signatures '
  '(TypeError for anything else, ValueError for fewer); it expects, and is '
  'all set by, exactly the calls that some alternative expects or is all set '
  'by. Binding yields the bound forms of all expecting alternatives in order, '
  'collapsed to a single signature if only one remains, and raises a '
  'TypeError exactly when no alternative expects the arguments.',
  ['inputs'], 'every tuple of alternatives and every call',
  'Tests build a couple of alternatives and check only types of results.',
  [M], [('OverloadedSignature', M + ':OverloadedSignature'),
        ('from_signatures', M + ':from_signatures')],
  ['OverloadedSignature.bind', 'OverloadedSignature.expects',
   'OverloadedSignature.all_set'])
p('C08', 'Equality of parameters and signatures compares everything observable',
  'Two parameters are equal exactly when they are both required or both '
  'optional and agree in name, kind, annotation and (presence and value of) '
  'default; two signatures are equal exactly when they are of the same sort '
  'and agree in their ordered parts and return annotation. Comparison with '
  'an unrelated object is left to that object, never an error.',
  ['inputs'], 'every pair of parameters or signatures, and unrelated objects',
  'Tests check reflexivity, symmetry and a few samples; a field missing from '
  'the comparison only shows on pairs that differ in that field alone.',
  [M], [('RequiredParameter.__eq__', M + ':RequiredParameter.__eq__'),
        ('OptionalParameter.__eq__', M + ':OptionalParameter.__eq__'),
        ('PlainSignature.__eq__', M + ':PlainSignature.__eq__'),
        ('OverloadedSignature.__eq__', M + ':OverloadedSignature.__eq__')])
p('C09', 'Equal parameters and signatures have equal hashes',
  'Whenever two parameters or two signatures compare equal, their hashes are '
  'equal, even if their annotations or defaults are equal only structurally '
  '(distinct but alike type variables, aliases of builtin generics); and '
  'hashing never depends on an unhashable annotation or default.',
  ['inputs'], 'every pair of equal parameters or signatures',
  'Hash disagreement only shows on values equal but not identical, which the '
  'tests never build for annotations.',
  [M], [('__hash__', M + ':*.__hash__'), ('__eq__', M + ':*.__eq__')])
p('C10', 'Pickling and copying reproduce an equal object',
  'The arguments that parameters and signatures hand to the pickling and '
  'copying protocols rebuild, through their own constructor, an object with '
  'the same fields: every constructor argument is supplied from the field it '
  'initialises, the default only when there is one.',
  ['inputs'], 'every parameter and signature, with and without default',
  'Tests round-trip a few samples; a dropped or swapped field shows only on '
  'objects where that field matters.',
  [M], [('__getnewargs_ex__', M + ':*.__getnewargs_ex__'),
        ('__getnewargs__', M + ':OverloadedSignature.__getnewargs__')])
p('C11', 'The representation of a model object spells its constructor call',
  'The representation of a parameter or signature is an expression naming '
  'its own class and passing every constructor argument from the field it '
  'initialises (the default only when present; alternatives and parameters '
  'all, in order), so that it denotes an equal object.',
  ['inputs'], 'every parameter and signature',
  'Tests evaluate the representation of a few random samples only.',
  [M], [('__repr__', M + ':*.__repr__')])
p('C12', 'The text form follows the syntax of a function signature',
  'The text form lists positional-only, positional-or-keyword, variadic '
  'positional, keyword-only and variadic keyword parameters in this order; a '
  '"/" follows the positional-only ones exactly if there are any, and a bare '
  '"*" precedes keyword-only ones exactly if there are any and there is no '
  'variadic positional one. Variadic parameters are prefixed with one or two '
  'asterisks respectively, annotations and present defaults are shown, and '
  'the return annotation follows an arrow; alternatives are joined by " | ".',
  ['inputs'], 'every parameter and signature',
  'The existing tests do not look at the text form at all.',
  [M], [('PlainSignature.__str__', M + ':PlainSignature.__str__'),
        ('OptionalParameter.__str__', M + ':OptionalParameter.__str__')])
p('C13', 'Model objects never change and queries have no side effects',
  'Once built, parameters and signatures are never modified: no operation of '
  'the library assigns to their fields after construction or mutates the '
  'collections they hold, and asking, binding, comparing, hashing or printing '
  'leaves the receiver and the passed arguments untouched.',
  ['inputs', 'histories'],
  'every history of operations on shared parameters and signatures',
  'Tests use fresh objects per example, so a mutation of shared state made '
  'by one operation is never observed by another.',
  [M, S], [('fields assigned in constructors only', M + ':*.__new__')])
p('C14', 'Structural annotation equality is symmetric and complete',
  'Comparing annotations compares generic aliases by origin and arguments '
  '(members of typing unions and literals regardless of order), type '
  'variables and parameter specifications by all of their declared '
  'properties, and sequences element-wise with equal lengths and types; '
  'the verdict never depends on which of the two comes first.',
  ['inputs'], 'every pair of annotations of the supported families',
  'Tests compare a signature with a copy of itself; asymmetric or '
  'incomplete comparison needs pairs that differ in one component.',
  [A], [('are_equal', A + ':are_equal')])
p('C15', 'Obtaining a signature fails only in documented ways',
  'Whatever the callable, the internal "no stub found" and "name not found" '
  'conditions never escape to the caller: a callable without a usable stub '
  'falls back to the interpreter\'s own introspection, and an object of an '
  'unsupported kind raises a TypeError.',
  ['inputs'], 'every object passed as a callable',
  'Tests sample callables from the standard library for which stubs resolve.',
  [S], [('fallback', S + ':from_callable handlers'),
        ('_SignatureNotFound', S + ':_SignatureNotFound')])
p('C16', 'A bound method\'s receiver is consumed exactly once',
  'The signature of a method bound to an instance is that of the function '
  'found on the type of the instance with exactly the instance bound as the '
  'first positional argument; functions of modules, unbound and plain '
  'functions, and callables bound to a class are described without binding '
  'anything.',
  ['inputs'], 'every bound method, builtin method, method wrapper and function',
  'Tests check only that a signature object is returned.',
  [S], [('from_callable handlers', S + ':from_callable')])
p('C17', 'A partial application is described by binding its frozen arguments',
  'The signature of a partial application is the signature of the wrapped '
  'callable with exactly the frozen positional and keyword arguments bound.',
  ['inputs'], 'every partial application, nested ones included',
  'Tests sample few partials and check only the type of the result.',
  [S], [('partial handler', S + ':from_callable')])
p('C18', 'Introspected signatures are translated without loss',
  'When a signature comes from the interpreter\'s introspection, every '
  'parameter keeps its position, name, kind and annotation (any type if '
  'absent), is optional exactly if it has a default or is variadic, and keeps '
  'its default, whatever that default is; the return annotation is kept (any '
  'type if absent), except that a class is described as returning itself.',
  ['inputs'], 'every introspectable callable',
  'Tests check only the type of the result for user-defined callables.',
  [S], [('_from_raw_signature', S + ':_from_raw_signature'),
        ('_parameter_from_raw', S + ':_parameter_from_raw')])
p('C19', 'Stub definitions are translated without loss',
  'When a signature comes from a stub, its parameters are the declared ones '
  'in declaration order (positional, variadic positional, keyword-only, '
  'variadic keyword) with defaults aligned to the last positional parameters, '
  'an ellipsis default meaning "optional, value unknown"; the leading receiver '
  'is dropped for classes, described as the class or instance type for class '
  'and instance methods, and left alone for static methods and functions. '
  'Missing annotations mean any type, and initialisers return the class.',
  ['inputs'], 'every stub definition',
  'Tests check types of results for some standard library callables.',
  [S], [('_parameters_from', S + ':_parameters_from'),
        ('_to_positional_parameters', S + ':_to_positional_parameters'),
        ('_to_keyword_parameters', S + ':_to_keyword_parameters'),
        ('_parameter_from_ast_node', S + ':_parameter_from_ast_node'),
        ('_returns_annotation_from', S + ':_returns_annotation_from')])
p('C20', 'A class is described by its nearest constructor in the hierarchy',
  'For a class with a stub, the constructor used is the first found walking '
  'the class and then its bases depth-first in declaration order, looked up '
  'under the path of the class being visited, with the initialiser preferred '
  'over the allocator within one class and the root object\'s allocator as '
  'the last resort.',
  ['inputs'], 'every class hierarchy described by stubs',
  'Tests check only that some signature is returned for sampled classes.',
  [S], [('_to_class_builder_qualified_path',
         S + ':_to_class_builder_qualified_path'), ('_to_mro', S + ':_to_mro')])
p('C21', 'Results do not depend on the hash seed',
  'The parsed stubs, the index of modules and the signatures obtained are the '
  'same in every run: wherever the iteration order of an unordered collection '
  'could reach persisted or returned data, the elements are put in a definite '
  'order first.',
  ['configurations', 'schedules'],
  'every hash seed (iteration order of sets)',
  'Tests run under a single, arbitrary seed with an already built cache.',
  [ST, SO, MO, S], [('sorted iteration', ST + ':_parse_stubs_state'),
                    ('sorted iteration', SO + ':stdlib_modules_paths'),
                    ('sorted result', S + ':resolve_qualified_paths')])
p('C22', 'A cache is used only if complete and made by this very configuration',
  'Parsed data is taken from a cache file only if the file loads, holds every '
  'field and carries the version of the library, which is written after all '
  'the data, so that a partially written file is never trusted; the file name '
  'tells apart interpreter, its version, platform and stubs version. What is '
  'saved is what is loaded, any failure to load leads to rebuilding, and '
  'failure to save never fails the import.',
  ['crash_points', 'configurations', 'fault_sequences'],
  'every point at which writing may stop, every content of the cache file and '
  'every configuration sharing the directory',
  'Tests run with a valid cache or none and never interrupt its writing.',
  [CA, ST, MO], [('cache of stubs', ST + ':<module>'),
                 ('cache of modules index', MO + ':<module>'),
                 ('load/save', CA + ':load, save')])
p('C23', 'Delegating to a child process is transparent and leaves no trace',
  'A call delegated to a child process returns the result or raises the error '
  'of the function and always terminates once the child does, even if it died '
  'without reporting; the replaced main module is restored on every exit, '
  'replacement is serialised among threads, and child processes never '
  'delegate further.',
  ['schedules', 'fault_sequences', 'inputs'],
  'every outcome of the delegated function or its process, and every '
  'interleaving of concurrent calls',
  'Tests never make the child fail, die or run concurrently.',
  [EX, ST, MO], [('call_in_process', EX + ':call_in_process'),
                 ('is_main_process guards', ST + ':<module>')])
p('C24', 'Indexing never imports unsupported modules nor dies of a failing one',
  'Building the index of the standard library imports only modules outside '
  'the list of unsupported ones (with all their submodules), and a module '
  'that fails to import is reported with a warning and skipped, while all '
  'others are still indexed.',
  ['configurations', 'fault_sequences'],
  'every platform, interpreter and set of modules failing to import',
  'Tests run on one platform where nothing fails.',
  [DI, IX, MO], [('exclusion', DI + ':supported_stdlib_modules_paths'),
                 ('skip with a warning', IX + ':_index_module_path')])
p('C25', 'Every construct used by the stubs has a handler',
  'Every kind of expression, operator and statement that occurs in the '
  'positions the library evaluates, names, prints or records in the installed '
  'stubs is handled by the corresponding dispatch table, so that no stub '
  'definition leads to an unsupported construct error.',
  ['inputs', 'configurations'],
  'every definition in the installed stubs',
  'Tests sample several hundred callables out of many thousands.',
  [EV, CV, ST, S], [('dispatch tables', EV + ':evaluate_*'),
                    ('dispatch tables', CV + ':to_*'),
                    ('stub visitor', ST + ':_StateParser')])
p('C26', 'The index covers every attribute and always terminates',
  'The index records, for every named attribute of every indexed module and '
  'of the classes nested in it at any depth, the full path it was found at '
  'under its qualified path, without losing earlier entries; self-referential '
  'classes do not lead to endless descent. Locations that stubs do not know '
  'are left out, all the others are kept in order.',
  ['inputs'], 'every module namespace, cyclic class graphs included',
  'Tests use the index built for one interpreter and check no entry.',
  [IX, MO], [('_index_module_or_type', IX + ':_index_module_or_type'),
             ('filter', MO + ':_to_supported_qualified_paths')])
p('C27', 'Names in stubs are resolved in lexical order',
  'A dotted name is looked up in the enclosing scope, then among definitions '
  'of the module, continuing through superclasses in order and finally the '
  'root object for missing members, then among star-imported modules, then '
  'among imports, longest prefix first, and only then among builtins; failure '
  'is reported as a lookup error and as nothing else. Modules already being '
  'visited are not searched again through star imports, and an import met '
  'again while it is followed means the module of that name.',
  ['inputs'], 'every scope structure, import graph (cyclic included) and name',
  'Tests never exercise name resolution directly.',
  [SC, ST], [('resolve_object_path', SC + ':resolve_object_path')])
p('C28', 'Stub parsing records each definition consistently',
  'Every function, class, and assigned or annotated name met in a stub is '
  'recorded as defined in its own scope together with its kind and its '
  'defining statements, overloads accumulating in order; conditional blocks '
  'contribute only the branch that holds for the running interpreter; imports '
  'and aliases are recorded as references to what they name, under the name '
  'they bind.',
  ['inputs', 'configurations'], 'every stub module',
  'Tests check no parsed data.',
  [ST, NK], [('_StateParser', ST + ':_StateParser')])
p('C29', 'Callables are located by where they are defined',
  'The qualified path of a callable or class is made of its defining module '
  '(of its owner for members of builtin types, of the module it is bound to '
  'for builtin functions, none if unknown) and its full qualified name.',
  ['inputs'], 'every callable or class',
  'Tests check no qualified paths.',
  [CT], [('qualified_path_from', CT + ':qualified_path_from')])
p('C30', 'A stub describes a callable only if it is the very object it names',
  'Stub locations indexed for a callable are used only if the object found at '
  'the location is that very callable or the module is not loaded; a callable '
  'that merely has the name of a builtin is never described by the stub of '
  'the builtin, and locations that the stubs do not resolve are ignored.',
  ['inputs'], 'every callable, in particular ones sharing names with others',
  'Tests take callables from the standard library by their own names.',
  [S], [('resolve_qualified_paths', S + ':resolve_qualified_paths'),
        ('_value_has_qualified_path', S + ':_value_has_qualified_path')])
p('C31', 'Several definitions become alternatives in their order',
  'A callable with several definitions in the stub is described by all of '
  'them as alternatives in definition order, nested alternatives being '
  'flattened; a single definition is described by itself. All-or-nothing: if '
  'any definition at a location can not be translated the next location is '
  'tried, and failing all of them the stub is considered missing.',
  ['inputs'], 'every list of definitions and of locations',
  'Tests check only the type of the result.',
  [M, S], [('from_signatures', M + ':from_signatures'),
           ('_from_callable', S + ':_from_callable')])
p('C32', 'Persisted stub definitions are restored as they were',
  'A definition is persisted in a textual form that denotes, in the '
  'environment it is read back with, the same syntax tree; scopes, kinds, '
  'references and superclasses are persisted as literals that read back '
  'equal.',
  ['inputs'], 'every stub definition and every value of the parsed state',
  'Tests read back whatever was persisted and compare it with nothing.',
  [CV, CN, CA, NK, 'paradigm/_core/pretty.py'],
  [('to_raw', CV + ':to_raw'), ('from_raw', CN + ':from_raw'),
   ('repr_from', 'paradigm/_core/pretty.py:repr_from')])
p('C33', 'Bases of stub classes are specialised with the arguments they name',
  'A stub class deriving from a parametrised generic is described with the '
  'members of the generic in which parameters are replaced with the arguments '
  'it names, in their declared order: arguments mean what they mean in the '
  'module of the class, everything else what it means in the module of the '
  'generic, equally spelled names of different modules are never mixed up, '
  'and the same holds for bases of the generic in turn. The generic itself '
  'is left as it was.',
  ['inputs'],
  'every stub class with parametrised bases (generics with nested classes '
  'and arguments named in scopes of classes aside)',
  'Tests check no specialised members.',
  [ST], [('_register_base_ast_node', ST + ':_register_base_ast_node')])
p('C34', 'Expressions of stubs mean, and are printed, as they read',
  'An expression of a stub is evaluated to what it denotes: names are resolved '
  'in the scope it is written in, elements, operands, arguments and items keep '
  'their order and number, operators are the written ones, unions and '
  'subscriptions the runtime does not support being approximated by '
  '`typing.Union` and by the generic itself. Its printed form reads back as '
  'the same expression, and paths and names are the ones spelled.',
  ['inputs'], 'every expression made of the kinds of nodes stubs consist of',
  'Tests compare evaluated annotations with nothing.',
  [EV, CV], [('evaluation', EV + ':evaluate_expression_node'),
             ('printing', CV + ':to_str'), ('paths', CV + ':to_path')])
p('C35', 'Callables declared as variables are described by their declarations',
  'A callable which is a variable of a stub is described by the value it is '
  'assigned or, without one, by its annotation: `Callable` gives its listed '
  'parameters as positional-only ones, or any parameters if they are not '
  'listed, a class gives its calls bound to the callable, a name of a single '
  'other definition gives that definition, a type variable gives its bound or '
  'constraints. Names are resolved in the scope of the declaration they belong '
  'to; anything else is a missing stub, never an error.',
  ['inputs'], 'every declaration of a variable in stubs',
  'A dozen of callables of the standard library are declared so, none of them '
  'is tested on purpose.',
  [S], [('_from_expression_node', S + ':_from_expression_node')])
p('C36', 'Annotations are spelled by the expressions that denote them',
  'The text of an annotation is an expression which denotes it where modules '
  'are imported: classes and aliases are spelled by module, (qualified) name '
  'and arguments in their order (`[()]` if an alias has none), types of '
  '`None`, `NotImplemented` and `...` as `type(...)`, unions of one type and '
  '`None` written in any order as `Optional` of that type. Lists and tuples '
  'are spelled element by element, a tuple of one element with a comma, type '
  'variables with name, constraints, bound (whatever its truth is) and '
  'variance, and everything else as its `repr`.',
  ['inputs'], 'every annotation of the kinds above, nested in any way',
  'Tests evaluate texts of signatures the strategies make, which use a few '
  'annotations.',
  ['paradigm/_core/annotated.py'],
  [('to_repr', 'paradigm/_core/annotated.py:to_repr')])
p('C37', 'Modules are known by the paths of their files',
  'The stub of a module is the file of the bundled typeshed at the path the '
  'dotted name of the module spells (`__init__` files standing for their '
  'directories), every file with the single suffix `.pyi` and no other being '
  'a stub; a module without one is reported as not found. A module is a '
  'package if and only if its stub or, without a stub, the file the import '
  'system finds is an `__init__` file. Modules of the standard library are '
  'built-in ones and those having files of sources or extensions in its '
  'directories at any depth, save for tests, `__main__` modules and paths '
  'with parts that are not identifiers.',
  ['inputs', 'configurations'], 'every tree of files',
  'Tests see the single tree of the interpreter they run on, and it is only '
  'sampled.',
  ['paradigm/_core/sources.py', 'paradigm/_core/file_system.py'],
  [('stubs', 'paradigm/_core/sources.py:_to_stubs_cache'),
   ('packages', 'paradigm/_core/sources.py:is_package'),
   ('modules', 'paradigm/_core/sources.py:stdlib_modules_paths'),
   ('files', 'paradigm/_core/file_system.py:find_files_paths')])

p('C38', 'Names of stubs denote objects of the runtime or ones made once',
  'A name in an annotation or a default of a stub denotes the very object of '
  'the runtime it is resolved to when the module can be imported and has it, '
  'and otherwise the object made of its definition: a class of that name '
  'with exactly its bases in order, its members and evaluated annotations '
  '(nested classes included), the value of an assignment, or a module with '
  'all the names it defines. A name of a class denotes the same class however '
  'many times, in whatever order and through whatever path it is evaluated, '
  'no matter what refers to what; aliases that refer to themselves end with a '
  'forward reference to their names. An alias that can not be evaluated '
  'fails every time.',
  ['inputs', 'histories'], 'all stub definitions and orders of evaluation',
  'What is made depends on what has been evaluated before, and tests evaluate '
  'what the annotations of the standard library happen to need, once, in one '
  'order.',
  ['paradigm/_core/arboreal/evaluation.py'],
  [('names', 'paradigm/_core/arboreal/evaluation.py:evaluate_expression_node'),
   ('objects', 'paradigm/_core/arboreal/evaluation.py:'
               'evaluate_qualified_path'),
   ('definitions', 'paradigm/_core/arboreal/evaluation.py:'
                   'evaluate_statement_node')])

out = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(row) + '\n' for row in P))
for row in P:
    n = row['statement'].count('. ') + 1
    if n > 3:
        print(row['id'], 'sentences', n)
print(len(P))
