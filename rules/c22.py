"""Bodies of modules holding persisted data are abstractly interpreted, with a
cache that either fails to be loaded or holds arbitrary data and an arbitrary
version: loaded data may be used only if nothing has failed and the version is
the current one, and it has to be the data of the very field; what is saved
has to be what the module holds, under the names it is loaded by, with the
version being last.  Names of cache files are computed for configurations
differing in one aspect each.  `load` and `save` are interpreted with each of
the calls of the file system able to fail."""
from pathlib import PurePosixPath

from sa import val
from sa.check import Broken, UNDECIDED
from sa.interp import Config
from sa.val import (B, FALSE, NONE, TRUE, c, cv, is_c, leaves, mkseq, ref,
                    restrict, seq, sym)

MINIMUM = 30
TECHNIQUE = ('abstract interpretation of bodies of modules, collection of '
             'calls of the cache, substitution of configurations, equivalence '
             'with a reference')
ASSUMPTIONS = ['loading a cache fails with an instance of `Exception`',
               'reading a Python source truncated anywhere before its last '
               'statement either fails or defines no name of this statement']
PACKAGE = 'paradigm._core.'
HOLDERS = ['stubs', 'modules']
DIRECTORY = '/lib/paradigm/_core'
USUAL = {'platform': 'linux', 'implementation': 'cpython', 'mypy': '0.971',
         'version': (3, 8, 10, 'final', 0)}
OTHERS = [{'platform': 'win32'}, {'platform': 'darwin'},
          {'implementation': 'pypy'}, {'mypy': '0.982'}, {'mypy': '0.97'},
          {'mypy': '0.97.1'}, {'mypy': '0.990+dev.abc'},
          {'version': (3, 9, 10, 'final', 0)},
          {'version': (3, 8, 1, 'final', 0)},
          {'version': (4, 8, 10, 'final', 0)},
          {'version': (3, 10, 8, 'final', 0)},
          {'version': (3, 8, 10, 'candidate', 0)},
          {'version': (3, 8, 10, 'candidate', 1)}]
KINDS = 'map', None, ('map', None, None)
RESULT = sym('result of parsing or indexing')
SUPPORTED = sym('supported paths')
IS_MAIN = sym('is main process', ('ext', 'builtins.bool'))
LEVELS = {'alpha': 'a', 'beta': 'b', 'candidate': 'rc', 'final': ''}
HEX = {'alpha': 0xA, 'beta': 0xB, 'candidate': 0xC, 'final': 0xF}


def check(ctx):
    for name in HOLDERS:
        hold(ctx, name)
    names(ctx)
    for n in range(2, 9 if ctx.tier == 'thorough' else 5):
        load(ctx, n)
    for n in range(4 if ctx.tier == 'thorough' else 3):
        save(ctx, n)


def attributes(platform, implementation, mypy, version):
    major, minor, micro, level, serial = version
    text = f'{major}.{minor}.{micro}' + (f'{LEVELS[level]}{serial}'
                                         if level != 'final' else '')
    tag = f'{implementation}-{major}{minor}'
    return {
        'sys.platform': c(platform),
        'sys.implementation.name': c(implementation),
        'sys.implementation.version': c(version),
        'sys.implementation.cache_tag': c(tag),
        'sys.version_info': c(version),
        'sys.version': c(f'{text} (default) [GCC]'),
        'sys.hexversion': c(major << 24 | minor << 16 | micro << 8
                            | HEX[level] << 4 | serial),
        'mypy.version.__version__': c(mypy),
        'mypy.__name__': c('mypy'),
        'importlib.machinery.SOURCE_SUFFIXES': c(('.py',)),
        'os.sep': c('/'),
    }


class Cache:
    """Calls of the cache made by the body of a module."""

    def __init__(self, it, name, configuration, missing=False):
        self.it, self.name, self.missing = it, name, missing
        self.loads, self.saves, self.loaded = [], [], {}
        config = Config(
            opaque={PACKAGE + 'caching:load', PACKAGE + 'caching:save',
                    PACKAGE + 'execution:call_in_process',
                    PACKAGE + 'execution:is_main_process',
                    '_to_supported_qualified_paths'},
            may_raise={PACKAGE + 'caching:load': [ref('builtins.Exception')]})
        config.results = {PACKAGE + 'caching:load': self.load,
                          PACKAGE + 'caching:save': self.save,
                          PACKAGE + 'execution:call_in_process':
                          lambda it, args, r: RESULT,
                          PACKAGE + 'execution:is_main_process':
                          lambda it, args, r: IS_MAIN,
                          '_to_supported_qualified_paths':
                          lambda it, args, r: SUPPORTED}
        it.exact[PACKAGE + name] = config
        it.attributes.update(attributes(**configuration))
        module = it.modules.get(PACKAGE + name)
        if module is None:
            raise Broken(f'{PACKAGE}{name} is not found')
        module.vars['__file__'] = c(f'{DIRECTORY}/{name}.py')
        self.module = it.module(PACKAGE + name)

    def load(self, it, args, r):
        keywords = dict(it.keywords or ())
        fields = val.static_items(it.resolve(mkseq('tuple', it.flat_args(
            args))))
        if fields is None or not all(is_c(x) for x in fields):
            raise Broken('names of loaded fields are not definite')
        fields = [cv(x) for x in fields]
        self.loads.append((fields, keywords.get('path'), r, it.alive))
        if self.missing:
            it.raise_(it.alive, ref('builtins.Exception'))
        for x in fields:
            self.loaded[x] = sym(f'loaded {x}', KINDS if x == 'nodes_kinds'
                                 else None)
        return seq('tuple', [self.loaded[x] for x in fields])

    def save(self, it, args, r):
        keywords = it.keywords
        if keywords is None or args and not all(
                x.op == 'absent' for x in args):
            raise Broken('names of saved fields are not definite')
        self.saves.append((
            [(k, it.resolve(x)) for k, x in keywords if k != 'path'],
            dict(keywords).get('path'), it.alive))
        return NONE


def hold(ctx, name):
    """Use of the cache by a module."""
    it = ctx.fresh()
    cache = Cache(it, name, USUAL)
    module = cache.module
    where = f'paradigm/_core/{name}.py'
    if len(cache.loads) != 1 or len(cache.saves) != 1:
        raise Broken(f'{where} calls the cache in an unknown way')
    [(fields, load_path, call, tried)] = cache.loads
    [(values, save_path, saving)] = cache.saves
    ctx.count('fields', len(fields))
    current = it.resolve(it.import_from('paradigm', '__version__'))
    versions = [k for k, x in values if x is current]
    ctx.hold('version is saved', where, len(versions) == 1,
             [f'saved fields: {", ".join(k for k, _ in values)}'])
    if len(versions) != 1:
        return
    [version] = versions
    ctx.hold('version is saved after everything else', where,
             values[-1][0] == version,
             [f'order of fields: {", ".join(k for k, _ in values)}'])
    ctx.hold('what is saved is what is loaded', where,
             sorted(fields) == sorted(k for k, _ in values)
             and len(set(fields)) == len(fields),
             [f'loaded: {", ".join(fields)}',
              f'saved: {", ".join(k for k, _ in values)}'])
    ctx.same('cache is loaded from where it is saved', where, load_path,
             save_path)
    failed = B.var(val.mk('@raises', ref('builtins.Exception'), call))
    good = B.and_(B.not_(failed), val.eq(cache.loaded[version], current)
                  if version in cache.loaded else FALSE)
    escaped = [x for g, x in it.escapes + module_escapes(module)]
    ctx.hold('any failure to load leads to rebuilding', where, not escaped,
             [f'{val.show(x, 3)} is raised' for x in escaped])
    # child processes should not persist the emptiness they have
    is_main = val.truth(IS_MAIN)
    ctx.same('only the main process saves', where,
             val.bool_v(B.and_(saving, B.not_(is_main))), val.FALSE_V)
    ctx.same('cache is saved only if it is not used', where,
             val.bool_v(B.and_(saving, good)), val.FALSE_V)
    kinds = ctx.code('arboreal.kind', 'NodeKind')
    compared = []
    for field, x in values:
        if field == version:
            continue
        variables = [k for k, v in module.vars.items()
                     if not k.startswith('_')
                     and restrict(it.resolve(v), saving) is restrict(
                         x, saving)]
        ctx.hold('what is saved is what the module holds', f'{where} {field}',
                 len(variables) == 1, [f'{val.show(x, 3)} is saved'])
        if len(variables) != 1 or field not in cache.loaded:
            continue
        held = it.resolve(module.vars[variables[0]])
        raw = cache.loaded[field]
        expected = (ctx.outcome(ctx.spec('cache')('restored_kinds'),
                                [raw, kinds])
                    if field == 'nodes_kinds' else raw)
        ctx.same('cache is used if complete and of this very version',
                 f'{where} {field}', held, expected, care=good)
        compared.append((field, variables[0], held))
    missing = Cache(ctx.fresh(), name, USUAL, True)
    for field, variable, held in compared:
        if variable not in missing.module.vars:
            raise Broken(f'{where} {variable} depends on the cache')
        ctx.same('cache is not used otherwise', f'{where} {field}', held,
                 missing.it.resolve(missing.module.vars[variable]),
                 care=B.not_(good))


def module_escapes(module):
    return [x for x in getattr(module, 'escapes', None) or ()]


def names(ctx):
    """Names of cache files."""
    seen = {}
    for change in [{}] + OTHERS:
        configuration = {**USUAL, **change}
        for name in HOLDERS:
            it = ctx.fresh()
            cache = Cache(it, name, configuration)
            where = f'paradigm/_core/{name}.py'
            case = ', '.join(f'{k} {v}' for k, v in change.items()) or 'usual'
            if not cache.loads:
                raise Broken(f'{where} loads no cache')
            path = it.resolve(cache.loads[0][1]
                              if cache.loads[0][1] is not None else NONE)
            if not is_c(path) or not isinstance(cv(path), PurePosixPath):
                ctx.record('name of the cache is definite',
                           f'{where} ({case})', UNDECIDED,
                           [f'{val.show(path, 4)} is not understood'])
                continue
            path = cv(path)
            ctx.hold('configurations do not share a cache',
                     f'{where} ({case})', path not in seen,
                     [f'"{path.name}" is that of {seen.get(path)} as well'])
            seen[path] = f'{name} ({case})'
            ctx.hold('cache is a module next to the one loading it',
                     f'{where} ({case})', str(path.parent) == DIRECTORY
                     and path.suffix == '.py' and '.' not in path.stem,
                     [f'"{path}" can not be imported'])


def load(ctx, n):
    it = ctx.fresh()
    it.attributes.update(attributes(**USUAL))
    fields = [f'field{i}' for i in range(n)]
    module = sym('the cache')
    imported = []

    def import_module(it, args, r):
        name, *rest = [it.resolve(x) for x in args]
        if is_c(name) and str(cv(name)).startswith('.') and rest:
            import importlib.util
            name = c(importlib.util.resolve_name(cv(name), cv(rest[0])))
        imported.append(name)
        return module

    it.config.results = {'importlib.import_module': import_module}
    f = ctx.code('caching', 'load')
    where = f'{ctx.where(f)} ({n} fields)'
    outcome = ctx.outcome(f, [c(x) for x in fields], {'path': c(PurePosixPath(
        DIRECTORY, '_some_cache.py'))})
    if not imported:
        raise Broken(f'{where} loads a cache in an unknown way')
    for x in imported:
        ctx.same('cache is imported from its package', where, x,
                 c('paradigm._core._some_cache'))
    ctx.same('all fields are loaded in their order', where, outcome,
             ctx.outcome(ctx.spec('cache')('loaded'),
                         [module, c(tuple(fields))]))


def save(ctx, n):
    it = ctx.fresh()
    path = c(PurePosixPath(DIRECTORY, '_some_cache.py'))
    fields = [f'field{i}' for i in range(n)]
    values = {x: sym(f'value of {x}') for x in fields}
    written, opened, lost = [], [], []
    f = ctx.code('caching', 'save')
    where = f'{ctx.where(f)} ({n} fields)'

    def text_of(it, x):
        return sym(f'text of {val.show(x, 1)}', ('ext', 'str'))

    def text(it, args, r):
        return val.dist(lambda x: text_of(it, x), it.resolve(args[0]))

    def open_(it, args, r):
        base, *rest = [it.resolve(x) for x in args]
        opened.append((base, rest, r, it.alive))
        return r

    def write(it, args, r):
        parts = [it.resolve(x) for x in args[1:]]
        if len(parts) != 1:
            lost.append('text is written in an unknown way')
        written.append((it.alive, parts[0] if parts else NONE))
        return r

    def write_text(it, args, r):
        open_(it, [args[0], c('w')], r)
        return write(it, args, r)

    def write_lines(it, args, r):
        for p in it.iteration(it.resolve(args[1])):
            if p[0] != 'i' or p[1].b != TRUE:
                lost.append('lines are written in an unknown way')
            else:
                written.append((it.alive, it.resolve(p[2])))
        return r

    def print_(it, args, r):
        keywords = dict(r.args[2])
        if 'file' not in keywords:
            return r
        end = keywords.get('end', c('\n'))
        parts = [it.resolve(x) for x in args]
        if len(parts) != 1:
            lost.append('text is printed in an unknown way')
        written.extend((it.alive, x) for x in (*parts[:1], end))
        return r

    it.config.opaque = {'repr_from', 'format_exception'}
    it.config.results = {
        'repr_from': text, 'builtins.repr': text,
        '.open': open_, 'builtins.open': open_, '.write': write,
        '.write_text': write_text, '.writelines': write_lines,
        'builtins.print': print_}
    arguments = {**values, 'path': path}
    outcome = ctx.outcome(f, [], arguments)
    if lost or not opened or n and not written:
        raise Broken(f'{where} saves in an unknown way')
    content = mkseq('str', [('i', val.G(TRUE), x) for g, x in written])
    ctx.hold('everything is written', where,
             all(g == TRUE for g, _ in written),
             ['not written when: ' + val.show_guard(B.not_(g))
              for g, _ in written if g != TRUE])
    ctx.same('fields are written in their order', where, content,
             ctx.outcome(ctx.spec('cache')('saved'), [
                 c(tuple(fields)),
                 seq('tuple', [text_of(it, x) for x in values.values()])]))
    for base, rest, r, g in opened:
        keywords = dict(r.args[2])
        mode = keywords.get('mode', rest[0] if rest else c('r'))
        if base is not path:
            ctx.record('cache is replaced', where, UNDECIDED,
                       [f'{val.show(base, 3)} is opened'])
        ctx.hold('cache is replaced', where,
                 is_c(mode) and cv(mode) in ('w', 'wt', 'tw', 'w+', 'wt+'),
                 [f'mode is {val.show(mode, 2)}'])
        encoding = keywords.get('encoding', rest[2] if len(rest) > 2
                                else NONE)
        ctx.hold('cache is written the way it is read', where,
                 is_c(encoding) and str(cv(encoding)).lower().replace(
                     '_', '-') in ('utf-8', 'utf8'),
                 [f'encoding is {val.show(encoding, 2)}'])
    # anything may fail
    error = [ref('builtins.Exception')]
    it.config.may_raise = {key: error for key in (
        '.open', '.write', '.write_text', '.writelines', 'builtins.open',
        'builtins.print', 'repr_from',
        'compileall.compile_file', 'py_compile.compile')}
    outcome = ctx.outcome(f, [], arguments)
    raised = [(g, x) for g, x in leaves(outcome) if x.op == 'raise']
    ctx.hold('failure to save does not fail the import', where, not raised,
             [f'{val.show(x, 3)} when {val.show_guard(g)[:300]}'
              for g, x in raised])
