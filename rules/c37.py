"""The module of files of modules is abstractly interpreted on directories
with files of every sort (walks over them, the import system and
configuration being assumed), names of files being computed as they are, and
what it makes public has to be what the reference below makes of the same
files."""
import fnmatch
import inspect
import posixpath
from pathlib import PurePosixPath

from sa import val
from sa.check import Broken
from sa.interp import Config
from sa.val import c, seq

MINIMUM = 5
TECHNIQUE = ('abstract interpretation over trees of files, equivalence with '
             'a reference')
ASSUMPTIONS = ['suffixes of extensions are those for CPython on Linux']
PACKAGE = 'paradigm._core.'
SOURCES = ['.py']
EXTENSIONS = ['.cpython-312-x86_64-linux-gnu.so', '.abi3.so', '.so']
MYPY = '/site/mypy'
STUBS = MYPY + '/typeshed/stdlib'
FILES = {
    STUBS: ['VERSIONS', 'builtins.pyi', '_thread.pyi', 'readme.py',
            'old.pyi.orig', 'types.cpython.pyi', 'zz.pyx', 'Zz.PYI',
            'pyi', '.pyi', 'mod.py.pyi'],
    STUBS + '/os': ['__init__.pyi', 'path.pyi', '__init__.py'],
    STUBS + '/xml': ['__init__.pyi', '__init.pyi', '__init__x.pyi',
                     'x__init__.pyi', '__main__.pyi', 'init__.pyi'],
    STUBS + '/xml/etree': ['__init__.pyi', 'cElementTree.pyi', 'xml.pyi'],
    STUBS + '/spaces': ['nested.pyi'],
    STUBS + '/spaces/deep': ['__main__.pyi', 'init.pyi', 'test_it.pyi'],
    STUBS + '/os/__init__': ['odd.pyi'],
    STUBS + '/stdlib': ['stdlib.pyi'],
    '/second': ['os.py', 'this.py', '__main__.py', 'test_os.py',
                '_testing.py', 'some_test.py', 'latest.py', 'test.py',
                'tests.py', 'notes.txt', 'data.py.txt', 'a.b.py', 'x-y.py',
                'mod.pyc', '1st.py', 'testing.py', 'so', 'contest.py',
                '__hello__.py', '__initial__.py', '__main.py', 'Test.py',
                'tests_of.py', 'x_tests.py', '_tests.py', 'testdata.py',
                'a_test_b.py', 'mytest.py', '_te.py', 'attest.py',
                '__main__x.py', '__test__.py', 'class.py', 'None.py'],
    '/second/json': ['__init__.py', 'decoder.py', '__main__.py', 'py.typed'],
    '/second/json/test': ['__init__.py', 'inner.py'],
    '/second/json/tests': ['__init__.py', 'inner.py'],
    '/second/test_json': ['__init__.py', 'inner.py'],
    '/second/json_test': ['__init__.py', 'inner.py'],
    '/second/_test_c': ['__init__.py'],
    '/second/inner': ['__init__.py', 'tests.py', 'test.py', '__main__.py',
                      'test_it.py', 'it_test.py', '_test.py', 'is_.py'],
    '/second/inner/__main__': ['a.py'],
    '/second/inner/x_test': ['a.py'],
    '/second/__main__': ['__init__.py', 'inner.py'],
    '/second/site-packages': ['mypy.py'],
    '/second/spaces': ['nested.py'],
    '/second/lib': ['_json' + EXTENSIONS[0], 'array.abi3.so', 'math.so',
                    'other.cpython-311-x86_64-linux-gnu.so', 'lib.dll'],
    '/first': ['os.py', 'zz.py', '__init__.py'],
    '/first/zz': ['__init__.py', 'a.py'],
}
BUILT_IN = ['sys', '_thread', 'builtins']
#: what the import system finds
SPECS = {'mypy': MYPY + '/__init__.py', 'json': '/second/json/__init__.py',
         'os': '/second/__init__/os.py', 'this': '/second/this.py',
         'json.decoder': '/second/json/decoder.py', 'sys': 'built-in',
         'spaces': None, 'a__init__': '/second/a__init__.py',
         **{x: f'/second/{x}.py' for x in (
             '__initial__', '__init', '__init__x', 'x__init__', '_init_',
             'init', '__INIT__', '__main__')},
         'a.b': '/second/__init__.d/b.py', 'c.d': '/second/c/__init__.pyc',
         'yy': '/first/yy/__init__.so', 'builtins': 'built-in'}
RULES = ('stubs are found under their paths',
         'packages are told from other modules',
         'modules of the standard library are found',
         'files are found in all the directories')


def walk(root):
    """What `os.walk` gives, directories being in some order."""
    inner = [x for x in FILES if x == root or x.startswith(root + '/')]
    for x in inner:
        yield (x, [posixpath.basename(y) for y in FILES
                   if posixpath.dirname(y) == x], FILES[x])


def stubs():
    return {dotted(PurePosixPath(x) / name, STUBS): PurePosixPath(x) / name
            for x, _, names in walk(STUBS) for name in names
            if PurePosixPath(name).suffixes == ['.pyi']}


def dotted(path, root):
    *parts, name = path.relative_to(root).parts
    name = name.partition('.')[0]
    return tuple(parts) if name == '__init__' else (*parts, name)


def modules():
    result = [(x,) for x in BUILT_IN]
    for root in ('/first', '/second'):
        result += sorted({
            dotted(PurePosixPath(x) / name, root)
            for x, _, names in walk(root) for name in names
            if name.partition('.')[1] + name.partition('.')[2]
            in SOURCES + EXTENSIONS})
    return list(dict.fromkeys(x for x in result if importable(x)))


def importable(path):
    return (path != () and path[-1] != '__main__'
            and not {'test', 'tests'} & set(path)
            and all(x.isidentifier() and not x.startswith(('test_', '_test'))
                    and not x.endswith('_test') for x in path))


def package(path):
    found = stubs().get(path)
    if found is None:
        found = SPECS.get('.'.join(path))
        if found is None:
            return False
    return PurePosixPath(found).name.partition('.')[0] == '__init__'


def prepare(ctx):
    it = ctx.fresh()
    name = PACKAGE + 'sources'
    if name not in it.modules:
        raise Broken(f'{name} is not found')
    it.attributes.update({
        'sys.builtin_module_names': seq('tuple', [c(x) for x in BUILT_IN]),
        'sys.platform': c('linux'),
        'importlib.machinery.SOURCE_SUFFIXES': listed(SOURCES),
        'importlib.machinery.EXTENSION_SUFFIXES': listed(EXTENSIONS)})
    config = Config()
    config.results = {'os.walk': walked, 'importlib.util.find_spec': spec,
                      'sysconfig.get_path': configured,
                      'inspect.getmodulename': named,
                      '.rglob': globbed,
                      **dict.fromkeys(('.exists', '.is_file'),
                                      lambda it, args, r: c(True))}
    it.exact[name] = it.config = config
    return it


def listed(values):
    return seq('list', [c(x) for x in values])


def constant(it, args):
    if len(args) != 1:
        raise Broken('call of unexpected form')
    v = it.resolve(args[0])
    if not val.is_c(v):
        raise Broken(f'{val.show(v, 2)} is not known')
    return val.cv(v)


def walked(it, args, r):
    return seq('list', [seq('tuple', [c(x), listed(y), listed(z)])
                        for x, y, z in walk(str(constant(it, args)))])


def globbed(it, args, r):
    root, pattern = [constant(it, [x]) for x in args]
    return listed([PurePosixPath(x) / name for x, _, names in walk(str(root))
                   for name in names if fnmatch.fnmatchcase(name, pattern)])


def spec(it, args, r):
    name = constant(it, args)
    if name not in SPECS:
        return val.NONE
    r = val.sym('spec of ' + name, ('ext', 'importlib.machinery.ModuleSpec'))
    it.known[r, 'origin'] = c(SPECS[name])
    return r


def configured(it, args, r):
    return c({'stdlib': '/second', 'platstdlib': '/first'}[
        constant(it, args)])


def named(it, args, r):
    return c(inspect.getmodulename(str(constant(it, args))))


def check(ctx):
    it = prepare(ctx)
    it.module(PACKAGE + 'sources')
    for rule, name, expected in (
            (RULES[0], 'stubs_stdlib_modules_paths', stubs()),
            (RULES[2], 'stdlib_modules_paths', modules())):
        ctx.attempt(rule, collection, rule, name,
                    it.resolve(ctx.code('sources', name)), set(expected))
    rest = [(), ('os', 'pat'), ('Os',), ('zz',), ('os', 'path', 'x'),
            ('os', '__init__'), ('readme',), ('old',), ('mod',)]
    function = ctx.code('sources', 'from_module_path')
    for path in [*stubs(), *rest]:
        ctx.attempt(RULES[0], call, RULES[0], function, c(path),
                    c(stubs()[path]) if path in stubs()
                    else val.mk('raise', ctx.code('sources', 'NotFound')))
    function = ctx.code('sources', 'is_package')
    for path in [*stubs(), *[tuple(x.split('.')) for x in SPECS], *rest[1:]]:
        ctx.attempt(RULES[1], call, RULES[1], function, c(path),
                    c(package(path)))
    for root in (STUBS, '/first', '/second'):
        ctx.attempt(RULES[3], call, RULES[3],
                    ctx.code('file_system', 'find_files_paths'),
                    c(PurePosixPath(root)),
                    [PurePosixPath(x) / name
                     for x, _, names in walk(root) for name in names])


def collection(ctx, rule, name, found, expected):
    where = f'paradigm/_core/sources.py {name}'
    paths = known(found)
    if paths is None:
        raise Broken(f'{name} is not understood: {val.show(found, 3)[:300]}')
    lost, added = expected - set(paths), set(paths) - expected
    ctx.hold(rule, where, not lost and not added,
             [f'{word} {sorted(x)[:3]}' for word, x in (
                 ('does not have', lost), ('has', added)) if x])


def known(v):
    """Elements of a known collection."""
    if v.op == 'keys':
        v = v.args[0]
    if v.op != 'seq' or any(p[0] != 'i' or p[1].b != val.TRUE
                            for p in v.args[1]):
        return None
    try:
        return [val.plain(val.static_items(p[2])[0]
                          if v.args[0] == 'dict' else p[2])
                for p in v.args[1]]
    except ValueError:
        return None


def call(ctx, rule, function, path, expected):
    where = f'{ctx.where(function)} ({val.cv(path)})'
    r = ctx.outcome(function, [path])
    if isinstance(expected, list):
        paths = known(r)
        if paths is None:
            raise Broken(f'{where} is not understood')
        return ctx.hold(rule, where, sorted(paths) == sorted(expected), [
            f'finds {len(paths)} files of {len(expected)}'])
    if r.op == 'phi' or r.op not in ('c', 'raise'):
        raise Broken(f'{where} is not understood: {val.show(r, 3)[:300]}')
    ctx.hold(rule, where, r is expected, [
        f'results in {val.show(r, 3)}, not in {val.show(expected, 3)}'])
