"""Planted bugs outside of the models (see plants_models.py)."""
import os
import sys

from plant import SEEDED, plant as _plant

UNIVERSE = open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                             'demo', 'universe.py')).read()
S = 'paradigm/_core/signatures.py'
ST = 'paradigm/_core/stubs.py'
STUBS = '''
import universe

'''
CALL = '''
from paradigm._core import signatures


def describe(module, path, value):
    module_path, object_path = signatures._try_resolve_object_path(
        (module,), tuple(path.split('.')))
    return signatures._from_signatures(*[
        signatures._from_statement_node(node, value, module_path,
                                        object_path[:-1])
        for node in signatures._load_ast_nodes(module_path, object_path)])


'''


def plant(id_, property_, edits, demo, needs, breaks):
    if sys.argv[1:] and id_ not in sys.argv[1:]:
        return
    _plant(id_, property_, edits, demo, needs, breaks)
    if 'import universe' in demo:
        with open(os.path.join(SEEDED, id_, 'universe.py'), 'w') as f:
            f.write(UNIVERSE)


plant('type-variables-without-variance', 'C14',
      [('paradigm/_core/annotated.py',
        '            and left.__covariant__ is right.__covariant__\n', '')], '''
from typing import TypeVar

from paradigm._core.annotated import are_equal

invariant, covariant = TypeVar('T'), TypeVar('T', covariant=True)
assert are_equal(covariant, TypeVar('T', covariant=True))
assert not are_equal(invariant, covariant)
assert not are_equal(covariant, invariant)
''', 'two type variables of the same name, one of them being covariant',
      'annotations with different type variables are taken for equal')

plant('cache-of-newer-version', 'C22',
      [(ST, '_reload_cache = _cached_version != _version',
        '_reload_cache = _cached_version < _version')], '''
import os
import shutil
import subprocess
import sys
import tempfile

with tempfile.TemporaryDirectory() as directory:
    shutil.copytree(os.path.join(os.environ['PYTHONPATH'], 'paradigm'),
                    os.path.join(directory, 'paradigm'),
                    ignore=shutil.ignore_patterns('__pycache__'))
    code = ('from paradigm._core import stubs\\n'
            'assert ("builtins",) in stubs.definitions\\n'
            'print(stubs._CACHE_PATH)\\n')

    def run():
        return subprocess.run([sys.executable, '-W', 'ignore', '-c', code],
                              env=dict(os.environ, PYTHONPATH=directory),
                              cwd=directory, check=True, text=True,
                              capture_output=True).stdout.strip()

    path = run()
    with open(path, 'w') as file:
        for name in ('definitions', 'nodes_kinds', 'raw_ast_nodes',
                     'references', 'submodules', 'superclasses'):
            file.write(f'{name} = {{}}\\n')
        file.write('version = "999.0.0"\\n')
    run()
''', 'a cache left by a later version after a downgrade',
      'a cache made by another version of the library is used')

plant('index-of-nested-classes', 'C26',
      [('paradigm/_core/index.py',
        '.append((module_path, parent_path + (name,))))',
        '.append((module_path, parent_path[-1:] + (name,))))')], '''
import sys
import types

from paradigm._core import index

module = types.ModuleType('zz')
exec("""
class A:
    def f(self): pass
    class B:
        def g(self): pass
""", vars(module))
sys.modules['zz'] = module
paths = index.from_modules([('zz',)])[('zz',)]
assert paths[('A', 'f')] == [(('zz',), ('A', 'f'))]
assert paths[('A', 'B', 'g')] == [(('zz',), ('A', 'B', 'g'))]
''', 'a method of a class nested in a class',
      'methods of nested classes are indexed under paths they do not have')

plant('bases-from-last', 'C27',
      [('paradigm/_core/scoping.py', ') in sub_path_superclasses:',
        ') in reversed(list(sub_path_superclasses)):')], '''
from paradigm._core.scoping import resolve_object_path

m, b = ('m',), ('builtins',)
definitions = {m: {'A': {'x': {}, 'y': {}}, 'B': {'x': {}, 'z': {}},
                   'C': {}},
               b: {'object': {}}}
references = {m: {}, b: {}}
superclasses = {m: {('C',): [(m, ('A',)), (m, ('B',))]}}


def resolve(*path):
    return resolve_object_path(m, (), path, definitions, references, {},
                               superclasses)


assert resolve('C', 'y') == (m, ('A', 'y'))
assert resolve('C', 'z') == (m, ('B', 'z'))
assert resolve('C', 'x') == (m, ('A', 'x'))
''', 'an attribute defined by two bases of a class',
      'inherited names are looked up in the last base first')

plant('main-module-deleted', 'C23',
      [('paradigm/_core/execution.py', '''            if main_module is None:
                del sys.modules['__main__']
            else:
                sys.modules['__main__'] = main_module
''', '''            if main_module is caller_module or main_module is None:
                del sys.modules['__main__']
            else:
                sys.modules['__main__'] = main_module
''')], '''
import sys

from paradigm._core.execution import call_in_process


def double(value):
    return 2 * value


if __name__ == '__main__':
    main = sys.modules['__main__']
    assert call_in_process(double, 21) == 42
    assert sys.modules.get('__main__') is main
''', 'calling from the main module itself',
      'the main module is gone after a call in a child process')

plant('partial-without-arguments', 'C17',
      [(S, '''**_callable.keywords)
''', '''**(_callable.keywords
                                                 if _callable.args else {}))
''')], '''
import json
from functools import partial

from paradigm.base import signature_from_callable

plain = signature_from_callable(json.dumps)
assert signature_from_callable(partial(json.dumps, {}, indent=2)) == (
    plain.bind({}, indent=2))
assert signature_from_callable(partial(json.dumps, indent=2)) == (
    plain.bind(indent=2))
''', 'a partial application with keyword arguments only',
      'frozen keyword arguments are ignored without positional ones')

plant('default-of-none-lost', 'C19',
      [(S, '''if default is Ellipsis
''', '''if default is Ellipsis or default is None
''')], STUBS + '''
universe.parse({'zz': """
def f(x: int, y: int | None = None, *, z: int = 1, t: str = ...) -> int: ...
"""})
''' + CALL + '''
x, y, z, t = describe('zz', 'f', lambda: 0)._parameters
assert y.has_default and y.default is None, y
assert z.default == 1 and not t.has_default
''', 'a stub giving None as the default',
      'defaults of None given by stubs are lost')

plant('overloads-reversed', 'C28',
      [(ST, '''                    self.parent_path + path, []
            ).append(ast_node)
''', '''                    self.parent_path + path, []
            ).insert(0, ast_node)
''')], STUBS + '''
stubs = universe.parse({'zz': """
from typing import overload
@overload
def f(x: int) -> int: ...
@overload
def f(x: int, y: str) -> str: ...
@overload
def f(x: bytes, y: str, z: bool) -> bytes: ...
"""})
''' + CALL + '''
signature = describe('zz', 'f', lambda: 0)
assert [s.returns for s in signature.signatures] == [int, str, bytes]
''', 'an overloaded function', 'alternatives are in the reverse order')

plant('fields-without-defaults', 'C28',
      [(ST, '''[ast_node.value
                               for ast_node in ast_nodes
                               if ast_node.value is not None])''',
        '''[])''')], STUBS + '''
stubs = universe.parse({'zz': """
from typing import NamedTuple
class N(NamedTuple):
    x: int
    y: str = ...
"""})
''' + CALL + '''
node, = signatures._load_ast_nodes(('zz',), ('N', '__new__'))
signature = signatures._from_statement_node(node, tuple, ('zz',), ('N',))
assert signature.all_set(1, ''), signature
assert signature.all_set(1), signature
''', 'a named tuple in stubs with a defaulted field',
      'fields with defaults become required parameters')

plant('equal-is-identical', 'C30',
      [(S, 'return candidate is value', 'return candidate == value')], '''
from paradigm.base import signature_from_callable


class Meta(type):
    def __eq__(cls, other):
        return isinstance(other, type) and cls.__name__ == other.__name__

    def __hash__(cls):
        return hash(cls.__name__)


class deque(metaclass=Meta):
    def __init__(self, first, second):
        pass


deque.__module__ = 'collections'
signature = signature_from_callable(deque)
assert signature.all_set(1, 2), signature
assert not signature.all_set(1), signature
''', 'a class with a metaclass overriding equality',
      'a stub of another object is taken for the description of this one')

plant('alternatives-not-specialised', 'C33',
      [(ST, '''for ast_node in generic_ast_nodes]
''', '''for ast_node in generic_ast_nodes[:1]]
''')], STUBS + '''
stubs = universe.parse({'zz': """
from typing import Generic, TypeVar, overload
T = TypeVar('T')
class E(Generic[T]):
    @overload
    def f(self) -> T: ...
    @overload
    def f(self, x: T) -> T: ...
    def g(self) -> T: ...
class A(E[int]): ...
"""})
''' + CALL + '''
assert describe('zz', 'A.g', lambda: 0).returns is int
signature = describe('zz', 'A.f', lambda: 0)
assert [s.returns for s in getattr(signature, 'signatures', [signature])] == [
    int, int], signature
''', 'an overloaded method of a generic class specialised by a base',
      'alternatives are lost in specialisations')

plant('bases-of-last', 'C20',
      [(S, '''        for base_module_path, base_object_path in bases:
''', '''        for base_module_path, base_object_path in bases[::-1]:
''')], STUBS + '''
universe.parse({'zz': """
class A:
    def __init__(self, x: int) -> None: ...
class B:
    def __init__(self, x: int, y: str) -> None: ...
class C(A, B): ...
"""})
from paradigm._core import signatures
assert signatures._to_class_builder_qualified_path(
    ('zz',), ('C',)) == (('zz',), ('A', '__init__'))
''', 'a class with two bases having constructors',
      'a class is described by the constructor of its last base')

plant('default-of-none-required', 'C18',
      [(S, 'if raw.default is _inspect._empty\n',
        'if raw.default is _inspect._empty or raw.default is None\n')], '''
from paradigm.base import signature_from_callable


def f(x, y=None, *, z=0):
    pass


signature = signature_from_callable(f)
assert not signature.all_set()
assert signature.all_set(1, 2)
assert signature.all_set(1), signature
''', 'a user function with the default of None',
      'parameters defaulting to None are described as required')

plant('first-alternatives-of-classes', 'C31',
      [(S, '''                                                       module_path, class_path)
                                  for ast_node in ast_nodes])
''', '''                                                       module_path, class_path)
                                  for ast_node in ast_nodes[-2:]])
''')], '''
from paradigm._core import signatures
from paradigm.base import signature_from_callable

for cls in (int, str, dict, zip, enumerate, type):
    module_path, object_path = signatures._resolve_builder_qualified_path(
        signatures.resolve_qualified_paths(cls))
    count = len(signatures._load_ast_nodes(module_path, object_path))
    signature = signature_from_callable(cls)
    assert len(getattr(signature, 'signatures', [signature])) == count, cls
''', 'a class with more than two alternatives of its constructor',
      'alternatives of constructors are dropped')

plant('one-side-default', 'C08',
      [('paradigm/_core/models.py',
        '''                 and self.has_default is other.has_default
                 and (not self.has_default
''', '''                 and (not self.has_default or not other.has_default
''')], '''
from paradigm._core.models import OptionalParameter, ParameterKind

kind = ParameterKind.KEYWORD_ONLY
bare = OptionalParameter(annotation=int, kind=kind, name='a')
full = OptionalParameter(annotation=int, default=1, kind=kind, name='a')
other = OptionalParameter(annotation=int, default=2, kind=kind, name='a')
assert full != other
assert bare != full
''', 'optional parameters differing only in whether the default is known',
      'parameters with and without a default are equal')

plant('copied-without-none', 'C10',
      [('paradigm/_core/models.py', '''                       if self._has_default
                       else {}),
                    'kind\'''', '''                       if self._has_default and self._default is not None
                       else {}),
                    'kind\'''')], '''
import copy
import pickle

from paradigm._core.models import OptionalParameter, ParameterKind

for default in (1, 0, '', None):
    parameter = OptionalParameter(annotation=int, default=default,
                                  kind=ParameterKind.KEYWORD_ONLY, name='a')
    assert copy.copy(parameter) == parameter
    assert pickle.loads(pickle.dumps(parameter)) == parameter
    args, kwargs = parameter.__getnewargs_ex__()
    assert OptionalParameter(*args, **kwargs) == parameter
''', 'a default of None', 'the arguments handed to the pickling protocol lack the default')

plant('alternatives-not-expecting', 'C07',
      [('paradigm/_core/models.py', '''                      if signature.expects(*args, **kwargs)]
''', '''                      if signature.expects(*args)]
''')], '''
from paradigm._core.models import (OverloadedSignature, ParameterKind,
                                   PlainSignature, RequiredParameter)


def make(name):
    return PlainSignature(RequiredParameter(
        annotation=int, kind=ParameterKind.POSITIONAL_OR_KEYWORD, name=name),
        returns=int)


signature = OverloadedSignature(make('a'), make('b'))
assert signature.expects(b=1) and signature.expects(a=1)
assert signature.bind(1)
assert signature.bind(b=1) == make('b').bind(b=1)
''', 'alternatives telling their arguments apart by keywords only',
      'binding fails on alternatives which do not admit the arguments')

plant('separator-after-variadic', 'C12',
      [('paradigm/_core/models.py',
        '        if keywords_only and not variadic_positionals:\n',
        '        if keywords_only or variadic_positionals:\n')], '''
from paradigm._core.models import (OptionalParameter, ParameterKind as K,
                                   PlainSignature)


def make(*kinds):
    return str(PlainSignature(*[
        OptionalParameter(annotation=int, kind=kind, name='p' + str(index))
        for index, kind in enumerate(kinds)], returns=int))


assert make(K.KEYWORD_ONLY) == '(*, p0: int) -> int'.replace(
    'int', 'builtins.int')
text = make(K.VARIADIC_POSITIONAL, K.KEYWORD_ONLY)
assert text == '(*p0: int, p1: int) -> int'.replace('int', 'builtins.int'), (
    text)
''', 'keyword-only parameters after a variadic positional one',
      'the text form has two stars')

plant('named-parameters-of-variables', 'C35',
      [(S, '''                                kind=_ParameterKind.POSITIONAL_ONLY,
                                name='_' + str(index),
''', '''                                kind=_ParameterKind.POSITIONAL_OR_KEYWORD,
                                name='_' + str(index),
''')], STUBS + '''
universe.parse({'zz': """
from typing import Callable
f: Callable[[int, str], bytes]
"""})
''' + CALL + '''
signature = describe('zz', 'f', lambda: 0)
assert signature.all_set(1, '')
assert not signature.all_set(1, _1='')
''', 'a variable declared with the types of its parameters',
      'parameters of declared variables are passed by invented names')

plant('empty-receiver', 'C16',
      [(S, '''if (_callable.__self__ is not None
''', '''if (_callable.__self__
''')], '''
from paradigm.base import signature_from_callable

full = signature_from_callable([1].append)
assert full.all_set(1) and not full.all_set([], 1)
empty = signature_from_callable([].append)
assert empty == full, (empty, full)
''', 'a bound builtin method of an empty container',
      'the receiver of a bound method is left to pass')

plant('second-mapping-parameter', 'C05',
      [('paradigm/_core/models.py', '''                elif (kind is ParameterKind.VARIADIC_POSITIONAL
                      or kind is ParameterKind.VARIADIC_KEYWORD):
''', '''                elif kind is ParameterKind.VARIADIC_POSITIONAL:
''')], '''
from paradigm._core.models import OptionalParameter as P
from paradigm._core.models import ParameterKind, PlainSignature


def raises(*parameters):
    try:
        PlainSignature(*parameters, returns=int)
    except ValueError:
        return True
    return False


def make(name, kind):
    return P(annotation=int, name=name, kind=kind)


for kind in (ParameterKind.VARIADIC_POSITIONAL,
             ParameterKind.VARIADIC_KEYWORD):
    assert not raises(make('a', kind))
    assert raises(make('a', kind), make('b', kind)), kind
''', 'two variadic keyword parameters',
      'an ill-formed list of parameters is accepted')

plant('class-methods-of-builtins', 'C29',
      [('paradigm/_core/catalog.py', '''             path_from_string(value.__qualname__))
            if isinstance(self, type)
''', '''             (value.__name__,))
            if isinstance(self, type)
''')], '''
from paradigm._core.catalog import qualified_path_from
from paradigm.base import signature_from_callable

assert qualified_path_from(len) == (('builtins',), ('len',))
path = qualified_path_from(dict.fromkeys)
assert path == (('builtins',), ('dict', 'fromkeys')), path
path = qualified_path_from(bytes.fromhex)
assert path == (('builtins',), ('bytes', 'fromhex')), path
''', 'a class method of a builtin class',
      'class methods of builtin classes are located as functions')

plant('one-element-tuple', 'C34',
      [('paradigm/_core/arboreal/conversion.py', '''    return (f'({elements_strings[0]},)'
            if len(elements_strings) == 1
            else f'({", ".join(elements_strings)})')
''', '''    return f'({", ".join(elements_strings)})'
''')], '''
import ast

from paradigm._core.arboreal import conversion


def same(text):
    node = ast.parse(text, mode='eval').body
    return ast.dump(ast.parse(conversion.to_str(node), mode='eval').body) == (
        ast.dump(node))


assert same('Tuple[a, b]') and same('Callable[[a], b]')
assert same('(a, b)') and same('()')
assert same('(a,)')
''', 'a tuple of one element in an annotation',
      'an expression of a stub is printed as another one')

plant('plain-quotes', 'C32',
      [('paradigm/_core/pretty.py', '''def repr_from(value: t.Any, indent: int, depth: int) -> str:
    return repr(value)
''', '''def repr_from(value: t.Any, indent: int, depth: int) -> str:
    return f'"{value}"' if isinstance(value, str) else repr(value)
''')], r'''
from paradigm._core import pretty

for value in ('a', "it's", 'a"b', 'a\\b', 'a\nb', b'x', 1, None,
              {('a',): ['"', ("\\",)]}):
    text = pretty.repr_from(value, 4, 0)
    assert eval(text) == value, text
''', 'a string with quotes or backslashes in stubs',
      'strings are persisted in a form which restores other ones or none')

plant('order-of-locations', 'C21',
      [(S, '    return sorted({\n', '    return list({\n')], '''
import os
import subprocess
import sys

code = """
import collections.abc
import os
import subprocess
import sys
from paradigm._core import modules, signatures
for paths in modules.supported_stdlib_qualified_paths.values():
    for locations in paths.values():
        for module_path, object_path in locations:
            if len(locations) < 3 or len(object_path) != 1:
                continue
            value = getattr(sys.modules.get('.'.join(module_path)),
                            object_path[0], None)
            if callable(value):
                print(module_path, object_path,
                      signatures.resolve_qualified_paths(value))
"""
outputs = {
    subprocess.run([sys.executable, '-W', 'ignore', '-c', code], check=True,
                   capture_output=True,
                   env=dict(os.environ, PYTHONHASHSEED=str(seed))).stdout
    for seed in range(1, 7)
}
assert outputs != {b''}
assert len(outputs) == 1
''', 'an object available at several places, another hash seed',
      'the place an object is described from depends on the hash seed')

plant('hidden-package', 'C24',
      [('paradigm/_core/discovery.py',
        'if any(candidate[:len(path)] == path for path in paths)]})',
        'if any(candidate[:-1] == path for path in paths)]})')], '''
from paradigm._core import discovery

bad = [path for path in discovery.supported_stdlib_modules_paths
       if path[0] in ('antigravity', 'idlelib', 'tkinter', 'turtledemo')]
assert not bad, bad[:3]
from paradigm._core import sources
paths = {('aa',), ('aa', 'b'), ('aa', 'b', 'c'), ('ab',)}
discovery.stdlib_modules_paths = paths
found = set()
discovery._recursively_update_modules_paths(found, 'aa')
assert found == {('aa',), ('aa', 'b'), ('aa', 'b', 'c')}, found
''', 'a package nested in an unsupported one',
      'modules of packages nested in unsupported ones are imported')

E = 'paradigm/_core/arboreal/evaluation.py'
EVALUATE = """
import ast

from paradigm._core.arboreal.evaluation import evaluate_expression_node


def evaluate(name, module='zz'):
    return evaluate_expression_node(ast.parse(name, mode='eval').body,
                                    (module,), (), {})


"""

plant('classes-by-names', 'C38',
      [(E, """        = weakref.WeakValueDictionary([((('_typeshed',), ('Self',)), te.Self)])
""", """        = weakref.WeakValueDictionary([(('Self',), te.Self)])
"""), (E, """        return objects_cache[(module_path, object_path)]
    except KeyError:
        module_raw""", """        return objects_cache[object_path]
    except KeyError:
        module_raw"""), (E, """        result = parent_namespace[object_path[-1]] = objects_cache[
            (module_path, object_path)
        ] = types""", """        result = parent_namespace[object_path[-1]] = objects_cache[
            object_path
        ] = types""")], STUBS + """universe.parse({'zz': """ + "'''" + """
class A:
    x: int
""" + "'''" + """, 'yy': """ + "'''" + """
class A: ...
class B:
    x: A
""" + "'''" + """})
""" + EVALUATE + """
first, second = evaluate('A', 'zz'), evaluate('A', 'yy')
assert first is evaluate('A', 'zz')
assert second is evaluate('B', 'yy').__annotations__['x']
assert first is not second
""", 'classes of the same name defined by stubs of two modules and absent at '
     'the runtime, both evaluated',
      'annotations with one of the classes are described with the other one')

plant('annotations-of-outer-scopes', 'C38',
      [(E, """                                               module_path, object_path,
                                               parent_namespace)
                for name, annotation""", """                                               module_path, object_path[:-1],
                                               parent_namespace)
                for name, annotation""")], STUBS + """universe.parse({'zz': """ + "'''" + """
from typing import TypeVar
T = TypeVar('T')
class A:
    T = TypeVar('T', bound=int)
    x: T
    y: int
""" + "'''" + """})
""" + EVALUATE + """
cls = evaluate('A')
assert cls.__annotations__['y'] is int
assert cls.__annotations__['x'] is cls.T
assert cls.T.__bound__ is int
""", 'an attribute of a class of stubs annotated with a name the class '
     'defines and its module does too',
      'the name is evaluated in the scope of the module')

SO = 'paradigm/_core/sources.py'
plant('stems-of-packages', 'C37',
      [(SO, """    return source_path.stem == file_system.INIT_MODULE_NAME
""", """    return source_path.stem.startswith(file_system.INIT_MODULE_NAME[:6])
""")], """
import pathlib
import sys
import tempfile

from paradigm._core import sources

with tempfile.TemporaryDirectory() as directory:
    root = pathlib.Path(directory)
    (root / 'package').mkdir()
    (root / 'package' / '__init__.py').write_text('')
    (root / 'package' / '__initial__.py').write_text('')
    sys.path.insert(0, directory)
    assert sources.is_package(('package',))
    assert not sources.is_package(('package', '__initial__'))
    assert not sources.is_package(('ast',))
    assert sources.is_package(('importlib',))
""", 'a module outside of the standard library whose name starts with the '
     'letters of `__init__`',
      'the module is taken for a package')

plant('modules-of-some-tests', 'C37',
      [(SO, """            and module_path[-1] != '__main__'
""", """            and '__main__' not in module_path[1:]
"""), (SO, """            and 'tests' not in module_path
""", """            and 'tests' not in module_path[:-1]
""")], """
from paradigm._core import sources

for path in [('a', '__main__'), ('__main__',), ('a', 'tests'), ('tests', 'a'),
             ('a', 'tests', 'b'), ('test', 'a')]:
    assert not sources._is_valid_module_path(path), path
for path in [('a',), ('a', 'b'), ('a', 'testing'), ('a', 'main')]:
    assert sources._is_valid_module_path(path), path
assert not any(path[-1] in ('tests', '__main__')
               for path in sources.stdlib_modules_paths)
""", 'a package of tests in another one or a main module on the top level',
      'the module is indexed as one of the standard library')
