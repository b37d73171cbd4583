"""Selection of modules to index is abstractly interpreted (for CPython on
Linux) on a universe made of the names found in the source, their parents,
children and look-alikes; indexing of modules is abstractly interpreted on
modules any of which fails to be imported, calls of the import system and of
warnings being collected on the way; what the index is built from is taken
from the interpretation of the module holding it."""
import ast

from sa import val
from sa.check import Broken
from sa.interp import Config
from sa.val import B, FALSE, TRUE, c, leaves, mkseq, ref, seq, sym

MINIMUM = 10
TECHNIQUE = ('abstract interpretation over a universe of modules, collection '
             'of the effects of imports and warnings, equivalence with a '
             'reference')
ASSUMPTIONS = ['names of unsupported modules are those for CPython on Linux',
               'importing a module fails with an instance of `Exception`']
ORDINARY = ['os', 'json', 'json.decoder', 'builtins', '_thread', 'dbm.gnu',
            'curses', 'asyncio', 'asyncio.events', 'xml.etree.cElementTree',
            'encodings.utf_8', 'distutils.command', 'lib2to3.pgen2',
            'lib2to3.pgen2.driver', 'pty', 'msilib', 'unittest.mock']
PACKAGE = 'paradigm._core.'


def check(ctx):
    select(ctx)
    for n in (1, 2, 3):
        import_(ctx, n)
    use(ctx)


def names_in(module):
    found = set()
    for node in ast.walk(module.tree):
        if isinstance(node, ast.Constant) and isinstance(node.value, str):
            parts = node.value.split('.')
            if all(part.isidentifier() for part in parts):
                found.add(tuple(parts))
    return found


def select(ctx):
    it = ctx.fresh()
    name = PACKAGE + 'discovery'
    if name not in it.modules:
        raise Broken(f'{name} is not found')
    spec = ctx.spec('discovery')
    named = {tuple(val.cv(x).split('.')) for x in
             val.static_items(it.resolve(spec('UNSUPPORTED')))}
    named |= names_in(it.modules[name])
    universe = {tuple(x.split('.')) for x in ORDINARY}
    for x in named:
        universe |= {x, (*x, 'zz'), (*x, 'zz', 'z'), (*x[:-1], x[-1] + 'z'),
                     (*x[:-1], 'z' + x[-1]), (*x[:-1], x[-1] + '_', x[-1])}
        universe |= {x[:i] for i in range(1, len(x))}
    paths = sorted(universe, key=hash_of)
    it.attributes['sys.platform'] = c('linux')
    it.exact[name] = Config()
    it.module(PACKAGE + 'sources').vars['stdlib_modules_paths'] = seq(
        'list', [c(x) for x in paths])
    it.module(name)
    found = it.resolve(ctx.code('discovery', 'supported_stdlib_modules_paths'))
    items = val.static_items(found)
    where = 'paradigm/_core/discovery.py supported_stdlib_modules_paths'
    if items is None or it.lost:
        raise Broken('list of supported modules is not understood')
    try:
        items = [val.plain(x) for x in items]
    except ValueError:
        raise Broken('list of supported modules is not understood')
    ctx.count('modules', len(paths))
    rejected = ctx.outcome(spec('supported'), [seq('list', [
        c(x) for x in paths])])
    reference = [val.plain(x) for x in val.static_items(it.resolve(rejected))]
    imported = [x for x in items if x not in set(reference)]
    ctx.hold('unsupported modules are not imported', where, not imported,
             ['.'.join(x) for x in imported[:5]])
    excluded = set(paths) - set(items)
    children = [x for x in items
                if any(x[:i] in excluded for i in range(1, len(x)))]
    ctx.hold('submodules of unsupported modules are not imported', where,
             not children, ['.'.join(x) for x in children[:5]])
    by_name = {x for x in excluded if not any(
        x[:i] in named for i in range(1, len(x) + 1))}
    ctx.hold('all other modules are indexed', where, not by_name,
             ['.'.join(x) for x in sorted(by_name)[:5]])
    ctx.hold('modules are indexed in their order', where,
             items == [x for x in paths if x in set(items)],
             ['order differs from that of modules of the standard library'])


def hash_of(x):
    """Some order that is not alphabetical."""
    return sum(ord(k) * (i + 7) for i, k in enumerate('.'.join(x))) % 101, x


def import_(ctx, n):
    """Some of the modules fail to be imported."""
    it = ctx.fresh()
    paths = [('m',), ('n', 'k'), ('l',)][:n]
    modules = {'.'.join(x): sym('module ' + '.'.join(x),
                                ('ext', 'types.ModuleType')) for x in paths}
    imported, warned = [], []
    values = {m: ref(f'builtins.{f}')
              for m, f in zip(modules, ('len', 'abs', 'all'))}

    def import_module(it, args, r):
        for g, x in leaves(it.resolve(args[0])):
            imported.append((B.and_(it.alive, g), x))
        found = modules.get(val.cv(args[0]) if val.is_c(args[0]) else None)
        return found if found is not None else r

    def warn(it, args, r):
        warned.append(it.alive)
        return val.NONE

    def vars_(it, args, r):
        for name, x in modules.items():
            if x is args[0]:
                return mkseq('dict', [('i', val.G(TRUE), seq('tuple', [
                    c('f'), values[name]]))])
        return r

    it.config.recursion = 3
    it.config.opaque = {'qualified_path_from'}
    it.config.results = {
        'builtins.vars': vars_, 'importlib.import_module': import_module,
        'warnings.warn': warn,
        'qualified_path_from': lambda it, args, r: c(
            (('q',), (args[0].args[0],))),
    }
    f = ctx.code('index', 'from_modules')
    where = f'{ctx.where(f)} ({n} modules)'
    spec = ctx.spec('index')
    argument = seq('list', [c(x) for x in paths])
    for error in ('Exception', 'ImportError', 'OSError', 'AttributeError'):
        it.config.may_raise = {'importlib.import_module':
                               [ref('builtins.' + error)]}
        imported.clear(), warned.clear()
        code = ctx.outcome(f, [argument])
        mine, told = list(imported), list(warned)
        imported.clear(), warned.clear()
        expected = ctx.outcome(spec('index'), [argument])
        case = f'{where} ({error})'
        strange = [val.show(x, 3) for g, x in mine
                   if g != FALSE and not any(x is c(m) for m in modules)]
        ctx.hold('only given modules are imported', case, not strange,
                 strange)
        for m in modules:
            guard = FALSE
            for g, x in mine:
                if x is c(m):
                    guard = B.or_(guard, g)
            ctx.hold('a failure does not prevent others from being imported',
                     f'{case} ({m})', guard == TRUE,
                     ['not imported when:', '  ' + val.show_guard(
                         B.not_(guard))])
        for g, x in leaves(code):
            ctx.hold('a failing module is skipped', case, x.op != 'raise',
                     [f'{val.show(x, 3)} when {val.show_guard(g)}'])
        ctx.same('a failing module is reported', case, reported(told),
                 reported(warned))
        good = [phi_of(code), phi_of(expected)]
        for name in values:
            key = [c(('q',)), c((values[name].args[0],))]
            ctx.same('all others are indexed', f'{case} ({name})',
                     *[ctx.outcome(spec('recorded'), [x, *key])
                       for x in good])


def phi_of(v):
    return val.phi([(g, x) for g, x in leaves(v) if x.op != 'raise'])


def reported(guards):
    result = FALSE
    for g in guards:
        result = B.or_(result, g)
    return val.bool_v(result)


def use(ctx):
    """What the index is built from."""
    it = ctx.fresh()
    name = PACKAGE + 'modules'
    if name not in it.modules:
        raise Broken(f'{name} is not found')
    received = []

    def delegate(it, args, r):
        received.append([it.resolve(x) for x in args])
        return r

    it.exact[name] = Config(
        opaque={PACKAGE + 'execution:call_in_process',
                PACKAGE + 'execution:is_main_process',
                PACKAGE + 'index:from_modules',
                PACKAGE + 'caching:load', PACKAGE + 'caching:save',
                '_to_supported_qualified_paths'},
        may_raise={PACKAGE + 'caching:load': [ref('builtins.Exception')]})
    it.exact[name].results = {
        PACKAGE + 'execution:call_in_process': delegate,
        PACKAGE + 'index:from_modules': lambda it, args, r: delegate(
            it, [index, *args], r)}
    index = ctx.code('index', 'from_modules')
    supported = it.resolve(ctx.code('discovery',
                                    'supported_stdlib_modules_paths'))
    it.module(name)
    where = 'paradigm/_core/modules.py supported_stdlib_qualified_paths'
    calls = [x for x in received if x and x[0] is index]
    if not calls:
        raise Broken('nothing is indexed')
    for f, *args in calls:
        ctx.same('only supported modules are indexed', where,
                 elements(args[0]) if len(args) == 1 else val.NONE,
                 elements(supported))


def elements(v):
    return mkseq('list', v.args[1]) if v.op == 'seq' else v
