"""Search for a constructor of a class is abstractly interpreted over bounded
hierarchies of classes (chains, diamonds, classes of the same name in
different modules), where it is arbitrary which of the classes define
`__init__` and `__new__` and which have bases at all.  What is found has to be
what the reference in spec/locations.py finds: the first class in a
depth-first traversal of bases, in order, defining any; `__init__` before
`__new__`; `object.__new__` when there is none."""
from sa.check import Broken
from sa.val import B, G, TRUE, c, mkseq, phi, seq, sym

from . import signatures

MINIMUM = 6
TECHNIQUE = ('abstract interpretation over bounded hierarchies of classes, '
             'equivalence with a reference')
BUILTINS = ('builtins',)
OBJECT = (BUILTINS, ('object', '__new__'))

# class: bases, the first class is the one with the constructor looked for
HIERARCHIES = {
    'single class': {'m.A': []},
    'chain': {'m.A': ['m.B'], 'm.B': ['n.C'], 'n.C': []},
    'several bases': {'m.A': ['m.B', 'n.C'], 'm.B': [], 'n.C': []},
    'bases of bases': {'m.A': ['m.B', 'n.C'], 'm.B': ['n.D'],
                       'n.C': ['n.E'], 'n.D': [], 'n.E': []},
    'same names': {'m.A': ['n.A'], 'n.A': ['k.A'], 'k.A': []},
    'common base': {'m.A': ['m.B', 'm.C'], 'm.B': ['m.D'], 'm.C': ['m.D'],
                    'm.D': []},
    'nested': {'m.A.B': ['m.A', 'n.C.D'], 'm.A': ['n.C'], 'n.C.D': ['n.C'],
               'n.C': []},
}
LARGE = {
    'deep': {f'm.A{i}': [f'm.A{i + 1}'] for i in range(6)} | {'m.A6': []},
    'wide': {'m.A': [f'm.B{i}' for i in range(6)]}
    | {f'm.B{i}': [] for i in range(6)},
}


def check(ctx):
    for name, classes in HIERARCHIES.items():
        search(ctx, name, classes)
    if ctx.tier == 'thorough':
        for name, classes in LARGE.items():
            search(ctx, name, classes)
    for n in range(1, 5 if ctx.tier == 'thorough' else 4):
        choice(ctx, n)


def qualified(name):
    module_name, *names = name.split('.')
    return (module_name,), tuple(names)


def search(ctx, name, classes):
    """Constructor of the first class of the hierarchy."""
    it = ctx.fresh()
    stubs = it.module('paradigm._core.stubs')
    modules = sorted({qualified(k)[0] for k in classes})
    superclasses, raw = {}, {}
    for m in modules:
        superclasses[m], raw[m] = [], []
    for k, bases in classes.items():
        m, path = qualified(k)
        if bases:
            superclasses[m].append(
                (B.var(sym(f'{k} has bases', ('ext', 'builtins.bool'))),
                 path, seq('list', [c(qualified(b)) for b in bases])))
        for method in ('__init__', '__new__'):
            raw[m].append(
                (B.var(sym(f'{k} defines {method}',
                           ('ext', 'builtins.bool'))),
                 (*path, method), sym(f'nodes of {k}.{method}')))
    for field, data in (('superclasses', superclasses),
                        ('raw_ast_nodes', raw)):
        if field not in stubs.data:
            raise Broken(f'stubs:{field} is not found')
        stubs.vars[field] = mapping([(TRUE, m, mapping(entries))
                                     for m, entries in data.items()])
    it.config.recursion = 8
    it.config.unroll = 40
    f = ctx.code('signatures', '_to_class_builder_qualified_path')
    module_path, object_path = qualified(next(iter(classes)))
    arguments = [c(module_path), c(object_path)]
    ctx.same('the nearest constructor is found',
             f'{ctx.where(f)} ({name})',
             ctx.outcome(f, arguments),
             ctx.outcome(ctx.spec('locations')('constructor'), arguments))


def choice(ctx, n):
    """Constructor of a class defined in several places, that of each being
    any of a few ones."""
    it = ctx.fresh()
    it.config.opaque = {'_to_class_builder_qualified_path'}
    found = {}
    for i in range(n):
        options, rest = [], TRUE
        for k in range(i + 1):
            b = B.var(sym(f'constructor of place {i} is of place {k}',
                          ('ext', 'builtins.bool')))
            options.append((B.and_(rest, b),
                            c((('m',), (f'A{k}', '__init__')))))
            rest = B.and_(rest, B.not_(b))
        found[sym(f'module_path{i}', signatures.STRINGS)] = phi(
            options + [(rest, c(OBJECT))])
    it.config.results = {'_to_class_builder_qualified_path':
                         lambda it, args, r: found[args[0]]}
    f = ctx.code('signatures', '_resolve_builder_qualified_path')
    places = mkseq('list', [
        ('i', G(TRUE), seq('tuple', [x, c((f'A{i}',))]))
        for i, x in enumerate(found)])
    ctx.same('constructor is taken only if it is the only one',
             f'{ctx.where(f)} ({n} places)', ctx.outcome(f, [places]),
             ctx.outcome(ctx.spec('locations')('only_constructor'),
                         [places]))


def mapping(entries):
    return mkseq('dict', [('i', G(g), seq('tuple', [c(k), x]))
                          for g, k, x in entries])
