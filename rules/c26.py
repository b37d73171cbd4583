"""Indexing of modules is abstractly interpreted over small universes of
modules and classes, self-referential ones included, in which it is arbitrary
which names are defined and where the values come from.  What is recorded for
each qualified path has to be what the reference in spec/index.py records."""
from sa.check import Broken
from sa.val import B, G, TRUE, c, leaves, mkseq, phi, ref, seq, sym

MINIMUM = 10
TECHNIQUE = ('abstract interpretation over bounded universes of modules and '
             'classes, equivalence with a reference')
ASSUMPTIONS = ['attributes of modules and classes do not change while they '
               'are being indexed']
BOOLEAN = ('ext', 'builtins.bool')

# stand-ins for arbitrary objects
CLASSES = {'A': 'builtins.int', 'B': 'builtins.str', 'C': 'builtins.bytes',
           'D': 'builtins.float', 'E': 'builtins.list', 'F': 'builtins.dict'}
OTHERS = {'f': 'builtins.len', 'g': 'builtins.abs', 'h': 'builtins.all',
          'x': 'builtins.any'}
UNIVERSES = {
    'functions': {
        'm': {'f': 'f', 'e': 'f', 'g': 'g', 'x': 'x'},
        'n': {'f': 'f', 'x': 'x'},
    },
    'classes': {
        'm': {'f': 'f', 'A': 'A', 'B': 'B', 'b': 'B'},
        'A': {'f': 'f', 'g': 'g', 'x': 'x'},
        'B': {'A': 'A', 'h': 'h'},
    },
    'nested classes': {
        'm': {'A': 'A'},
        'A': {'f': 'f', 'B': 'B', 'g': 'g'},
        'B': {'f': 'f', 'C': 'C', 'g': 'g'},
        'C': {'f': 'f', 'D': 'D', 'g': 'g'},
        'D': {'f': 'f'},
    },
    'any names': {
        'm': {'_f': 'f', '__g__': 'g', '_A': 'A', '__B': 'B', '\u0444': 'f'},
        '_n': {'_': 'f', '__class__': 'A'},
        'A': {'__call__': 'f', '_f': 'g', 'f_': 'f', '__new__': 'g'},
        'B': {'__name__': 'f', 'test_f': 'f'},
    },
    'deeply nested classes': {
        'm': {'A': 'A'}, 'A': {'B': 'B'}, 'B': {'C': 'C'}, 'C': {'D': 'D'},
        'D': {'E': 'E'}, 'E': {'F': 'F'}, 'F': {'f': 'f', 'A': 'A'},
    },
    'common class': {
        'm': {'A': 'A', 'B': 'B', 'C': 'C'},
        'A': {'C': 'C'},
        'B': {'C': 'C', 'A': 'A'},
        'C': {'f': 'f'},
    },
    'self-referential class': {
        'm': {'A': 'A', 'f': 'f'},
        'A': {'A': 'A', 'type': 'A', 'f': 'f'},
    },
    'mutually referential classes': {
        'm': {'A': 'A', 'B': 'B'},
        'A': {'B': 'B', 'f': 'f'},
        'B': {'A': 'A', 'B': 'B', 'f': 'f'},
    },
    'cycle of classes': {
        'm': {'A': 'A', 'g': 'g'},
        'A': {'B': 'B'},
        'B': {'C': 'C', 'g': 'g'},
        'C': {'A': 'A', 'B': 'B', 'g': 'g'},
    },
    'several modules': {
        'm': {'A': 'A', 'f': 'f'},
        'n.k': {'A': 'A', 'f': 'f', 'g': 'g'},
        'l': {'g': 'g', 'B': 'A'},
        'A': {'f': 'f', 'g': 'g'},
    },
}
PATHS = {
    'A': [('m', 'A'), ('k', 'A')], 'B': [('m', 'B')], 'C': [('m', 'A.C')],
    'D': [('n', 'D')], 'E': [('n', 'D.E')], 'F': [('n', 'D.E.F')],
    'f': [('m', 'f'), ('k', 'f')], 'g': [('', 'g')], 'h': [('m', 'B.h')],
    'x': [('', ''), ('m', '')],
}


def check(ctx):
    for name, universe in UNIVERSES.items():
        index(ctx, name, universe)
    for n in range(1, 6 if ctx.tier == 'thorough' else 4):
        keep_known(ctx, n)


def index(ctx, name, universe):
    it = ctx.fresh()
    # no class encloses itself
    it.config.recursion = len(universe) + 2
    it.config.endless = True
    it.config.opaque = {'qualified_path_from'}
    it.config.results = {
        'builtins.vars': lambda it, args, r: members(args[0], universe),
        'importlib.import_module': lambda it, args, r: args[0],
        'qualified_path_from': lambda it, args, r: places(args[0]),
    }
    it.config.may_raise = {'importlib.import_module':
                           [ref('builtins.Exception')]}
    modules = [x for x in universe if x not in CLASSES]
    f = ctx.code('index', 'from_modules')
    argument = seq('list', [c(tuple(x.split('.'))) for x in modules])
    spec = ctx.spec('index')
    code = ctx.outcome(f, [argument])
    expected = ctx.outcome(spec('index'), [argument])
    ctx.same('indexing ends', f'{ctx.where(f)} ({name})',
             failing(code), failing(expected))
    code, expected = succeeding(code), succeeding(expected)
    used = {x for names in universe.values() for x in names.values()}
    for x in sorted({p for v in used for p in PATHS[v]}):
        key = [c(path(y)) for y in x]
        ctx.same('every location is recorded',
                 f'{ctx.where(f)} ({name}: {x[0]}:{x[1]})',
                 ctx.outcome(spec('recorded'), [code, *key]),
                 ctx.outcome(spec('recorded'), [expected, *key]))


def failing(v):
    return phi([(g, x if x.op == 'raise' else c(None))
                for g, x in leaves(v)])


def succeeding(v):
    return phi([(g, x) for g, x in leaves(v) if x.op != 'raise']
               or [(TRUE, c(None))])


def members(x, universe):
    """Attributes of the module or the class."""
    for name, names in universe.items():
        if x is c(name) or name in CLASSES and x is ref(CLASSES[name]):
            return mkseq('dict', [
                ('i', G(maybe(f'{name} has {k}')),
                 seq('tuple', [c(k), ref({**CLASSES, **OTHERS}[v])]))
                for k, v in names.items()])
    if any(x is ref(v) for v in CLASSES.values()):
        return mkseq('dict', [])
    raise Broken(f'attributes of {x} are of no use')


def places(x):
    for name, dotted in {**CLASSES, **OTHERS}.items():
        if x is ref(dotted):
            options = [seq('tuple', [c(path(m)), c(path(n))])
                       for m, n in PATHS[name]]
            if len(options) == 1:
                return options[0]
            b = maybe(f'{name} is from {PATHS[name][0][0] or "nowhere"}')
            return phi([(b, options[0]), (B.not_(b), options[1])])
    raise Broken(f'qualified path of {x} is of no use')


def keep_known(ctx, n):
    """Locations that stubs do not know are left out."""
    it = ctx.fresh()
    it.config.opaque = {'paradigm._core.scoping:contains_object_path'}
    it.config.results = {'paradigm._core.scoping:contains_object_path':
                         lambda it, args, r: r}
    f = ctx.code('modules', '_to_supported_qualified_paths')
    locations = [(path(m), path(f'a{i}')) for i in range(n)
                 for m in 'mn'][:n]
    index = mkseq('dict', [
        ('i', G(maybe(f'{m} is indexed')),
         seq('tuple', [c(path(m)), mkseq('dict', [
             ('i', G(maybe(f'{m}:{o} is indexed')),
              seq('tuple', [c(path(o)), mkseq('list', [
                  ('i', G(maybe(f'{m}:{o} is located at {x}')), c(x))
                  for x in locations])]))
             for o in ('f', 'A.g')])]))
        for m in ('m', 'n')])
    tables = [sym(x) for x in ('definitions', 'references', 'submodules',
                               'superclasses')]
    spec = ctx.spec('index')
    code = ctx.outcome(f, [index, *tables])
    expected = ctx.outcome(spec('known'), [index, *tables])
    for m in ('m', 'n'):
        for o in ('f', 'A.g'):
            key = [c(path(m)), c(path(o))]
            ctx.same('known locations are kept in order',
                     f'{ctx.where(f)} ({n} locations: {m}:{o})',
                     ctx.outcome(spec('recorded'), [code, *key]),
                     ctx.outcome(spec('recorded'), [expected, *key]))


def maybe(name):
    return B.var(sym(name, BOOLEAN))


def path(name):
    return tuple(name.split('.')) if name else ()
