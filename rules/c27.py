"""Looking a name up is abstractly interpreted over small universes of modules
in which it is arbitrary what is defined, referred to, inherited from and
imported with a star.  What is found, if anything, has to be what the
reference in spec/scoping.py finds."""
from sa.val import B, G, TRUE, c, mkseq, seq, sym

MINIMUM = 10
TECHNIQUE = ('abstract interpretation over bounded universes of names, '
             'equivalence with a reference')

# definitions may be absent if marked with "?"
UNIVERSES = {
    'module': {
        'queries': ['m:a', 'm:a.b', 'm:a.b.c', 'x:a'],
        'm': ['a?', 'a?.b?', 'a?.b?.c?'],
        'builtins': ['a?', 'a?.b?', 'object', 'object.b?', 'object.c?'],
    },
    'enclosing class': {
        'queries': ['m:P:a', 'm:P:a.b', 'm:P.Q:a', 'm:P:P.a'],
        'm': ['P', 'P.a?', 'P.a?.b?', 'P.Q', 'P.Q.a?', 'a?', 'a?.b?'],
        'builtins': ['a?', 'object', 'object.b?', 'object.a?'],
    },
    'superclasses': {
        'queries': ['m:a.b', 'm:a.b.c'],
        'm': ['a', 'a.b?', 'd', 'd.b?', 'd.b?.c?'],
        'n': ['e', 'e.b?', 'e.b?.c?'],
        'superclasses': {'m:a': ['n:e', 'm:d']},
        'builtins': ['object', 'object.b?', 'object.c?'],
    },
    'superclasses of superclasses': {
        'queries': ['m:a.b', 'm:a.s.b'],
        'm': ['a', 'a.b?', 'a.s?', 'd', 'd.b?'],
        'n': ['e', 'f', 'f.b?', 'f.s?', 'f.s?.b?'],
        'superclasses': {'m:a': ['n:e', 'm:d'], 'n:e': ['n:f'],
                         'm:a.s': ['m:d']},
        'builtins': ['object', 'object.b?', 'object.s?'],
    },
    'root class': {
        'queries': ['builtins:object.b', 'builtins:a.b', 'm:object.b'],
        'm': ['object?'],
        'builtins': ['object', 'object.b?', 'a?'],
    },
    'star imports': {
        'queries': ['m:a', 'm:a.b'],
        'm': ['a?'],
        'n': ['a?', 'a?.b?'],
        'k': ['a?', 'a?.b?'],
        'submodules': {'m': ['n', 'k'], 'n': ['m']},
        'builtins': ['a?', 'a?.b?', 'object', 'object.b?'],
    },
    'cycles of star imports': {
        'queries': ['m:a'],
        'm': [],
        'n': [],
        'k': ['a?'],
        'l': ['a?'],
        'submodules': {'m': ['n'], 'n': ['k'], 'k': ['m', 'l']},
        'builtins': ['a?', 'object'],
    },
    'star imports and references': {
        'queries': ['m:a', 'm:a.b'],
        'm': [],
        'n': ['a?', 'a?.b?'],
        'k': ['c?', 'c?.b?'],
        'submodules': {'m': ['n']},
        'references': {'m:a': 'k:c'},
        'builtins': ['a?', 'object', 'object.b?'],
    },
    'references': {
        'queries': ['m:a', 'm:a.b', 'm:a.b.c'],
        'm': ['a?'],
        'n': ['d', 'd.b?', 'd.b?.c?', 'e?'],
        'k': ['f', 'f.c?'],
        'references': {'m:a': 'n:d', 'm:a.b': 'k:f'},
        'builtins': ['a?', 'object', 'object.b?', 'object.c?'],
    },
    'references to modules': {
        'queries': ['m:a', 'm:a.b', 'm:a.b.c'],
        'm': [],
        'n': ['b?', 'b?.c?'],
        'n.k': ['b?', 'b?.c?', 'c?'],
        'references': {'m:a': 'n:k', 'm:a.b': 'n:'},
        'builtins': ['object', 'object.c?'],
    },
    'chains of references': {
        'queries': ['m:a', 'm:a.b'],
        'm': [],
        'n': ['a?', 'a?.b?'],
        'k': ['a', 'a.b?'],
        'references': {'m:a': 'n:a', 'n:a': 'k:a'},
        'builtins': ['a?', 'a?.b?', 'object', 'object.b?'],
    },
    'certain cycles of references': {
        'queries': ['m:a', 'n:a', 'k:c', 'l:d', 'l:d.a'],
        'm': [],
        'm.a': [],
        'n': [],
        'n.a': [],
        'k': [],
        'l': [],
        'certain': True,
        'references': {'m:a': 'n:a', 'n:a': 'm:a', 'k:c': 'n:a',
                       'l:d': 'k:c'},
        'builtins': ['object'],
    },
    'cycles of references': {
        'queries': ['m:a', 'n:a', 'k:c'],
        'm': [],
        'm.a': [],
        'n': [],
        'n.a': [],
        'k': [],
        'references': {'m:a': 'n:a', 'n:a': 'm:a', 'k:c': 'n:a'},
        'builtins': ['object'],
    },
    'references of packages to their modules': {
        'queries': ['m:a', 'm:a.b', 'k:c', 'k:c.b'],
        'm': [],
        'm.a': ['b?'],
        'k': [],
        'certain': True,
        'submodules': {'m': ['k']},
        'references': {'m:a': 'm:a', 'k:c': 'm:a', 'k:a': 'm:a'},
        'builtins': ['a', 'object'],
    },
}
DEFINITE = ('certain', 'superclasses', 'submodules', 'references', 'queries')


def check(ctx):
    for name, universe in UNIVERSES.items():
        for query in universe['queries']:
            look_up(ctx, name, universe, query)


def look_up(ctx, name, universe, query):
    it = ctx.fresh()
    # there are less names than that to follow
    it.config.recursion, it.config.endless = 24, True
    it.config.unroll = 8
    module, *parent, names = query.split(':')
    arguments = [c(path(module)), c(path(*parent) if parent else ()),
                 c(path(names)), *tables(universe)]
    f = ctx.code('scoping', 'resolve_object_path')
    g = ctx.code('scoping', 'contains_object_path')
    spec = ctx.spec('scoping')
    ctx.same('names are looked up in order',
             f'{ctx.where(f)} ({name}: {query})',
             ctx.outcome(f, arguments),
             ctx.outcome(spec('resolve'), arguments))
    ctx.same('presence of a name is that it is found',
             f'{ctx.where(g)} ({name}: {query})',
             ctx.outcome(g, arguments),
             ctx.outcome(spec('contains'), arguments))


def tables(universe):
    """Definitions, references, submodules and superclasses."""
    modules = [m for m in universe if m not in DEFINITE]
    references = universe.get('references', {})
    submodules = universe.get('submodules', {})
    superclasses = universe.get('superclasses', {})
    return [
        mapping([(TRUE, c(path(m)), scope(m, universe[m], ''))
                 for m in modules]),
        mapping([(TRUE, c(path(m)), mapping([
            (TRUE if universe.get('certain') else maybe(f'{k} is imported'),
             c(path(k.split(':')[1])),
             qualified(v))
            for k, v in references.items() if k.split(':')[0] == m]))
            for m in modules]),
        mapping([(maybe(f'{m} imports all'), c(path(m)),
                  mkseq('list', [('i', G(maybe(f'{m} imports {x}')),
                                  c(path(x))) for x in xs]))
                 for m, xs in submodules.items()]),
        mapping([(TRUE, c(path(m)), mapping([
            (maybe(f'{k} has bases'), c(path(k.split(':')[1])),
             mkseq('list', [('i', G(TRUE), qualified(x)) for x in v]))
            for k, v in superclasses.items() if k.split(':')[0] == m]))
            for m in modules
            if any(k.split(':')[0] == m for k in superclasses)]),
    ]


def scope(module, entries, prefix):
    """Names defined on the level."""
    result = []
    for entry in entries:
        head, _, name = entry.rpartition('.')
        if (head.replace('?', '') + '.' if head else '') != prefix:
            continue
        full = prefix + name.rstrip('?')
        present = (maybe(f'{module} defines {full}') if name.endswith('?')
                   else TRUE)
        result.append((present, c(name.rstrip('?')),
                       scope(module, entries, full + '.')))
    return mapping(result)


def maybe(what):
    return B.var(sym(what, ('ext', 'builtins.bool')))


def path(name):
    return tuple(name.split('.')) if name else ()


def qualified(name):
    module, names = name.split(':')
    return c((path(module), path(names)))


def mapping(entries):
    return mkseq('dict', [('i', G(g), seq('tuple', [k, x]))
                          for g, k, x in entries])
