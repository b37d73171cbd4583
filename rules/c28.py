"""The stub parser is abstractly interpreted, from its entry point to what it
persists, over template modules which contain every kind of statement it
visits, with conditions of conditional blocks left symbolic.  What is recorded
- definitions, kinds, statements, references, star imports, superclasses - has
to be what the template says for every outcome of the conditions, as read
independently of the program.
"""
import itertools

from sa import check as c_
from sa import trees, val

from . import stubs

TECHNIQUE = ('abstract interpretation of the parser over template modules '
             'with symbolic conditions, comparison with an independent '
             'reading of the templates')
ASSUMPTIONS = ['stub modules are made of the statements and nesting the '
               'templates have; names are representative',
               'module ast is modelled by its documented behaviour']
MINIMUM = 150
TABLES = {'definitions': 'names defined in scopes',
          'nodes': 'defining statements, in order',
          'kinds': 'kinds of definitions',
          'references': 'imports and aliases',
          'submodules': 'star imports',
          'superclasses': 'bases of classes'}
FIELDS = {'nodes': 'raw_ast_nodes', 'kinds': 'nodes_kinds'}


def check(ctx):
    for name, universe in stubs.UNIVERSES.items():
        try:
            parsed(ctx, name, universe)
        except stubs.Indefinite as error:
            ctx.record('stubs are parsed', f'{stubs.S} (template {name})',
                       c_.UNDECIDED, [f'not definite: {error}'])


def parsed(ctx, name, universe):
    world = trees.World(ctx.fresh(), universe)
    ctx.it.alive = val.TRUE
    where = f'{stubs.S} (template {name})'
    if world.saved is None:
        return not_parsed(ctx, world, where)
    ctx.functions.update(str(k) for k in ctx.it.functions_analysed)
    ctx.count('template modules', len(universe))
    saved = world.saved
    conditions = conditions_of(saved)
    problems = {}
    names = ['sys.a', 'sys.b', 'sys.c']
    for outcome in itertools.product([False, True],
                                     repeat=len(set(conditions.values()))):
        truth = dict(zip(sorted(set(conditions.values())), outcome))
        full = {x: truth.get(x, False) for x in names}
        full['see'] = full['sys.c']
        reader = stubs.Reader(universe, trees.PACKAGES,
                              stubs.condition(full))
        assignment = {a: truth[x] for a, x in conditions.items()}
        for table in TABLES:
            found = stubs.definite(saved[FIELDS.get(table, table)],
                                   assignment)
            compare(table, found, reader, truth, problems)
        ctx.count('outcomes of conditions')
    for table, rule in TABLES.items():
        for path in reader.modules:
            ctx.hold(f'{rule} are recorded',
                     f'{where}, module {".".join(path)}',
                     (table, path) not in problems,
                     problems.get((table, path), [])[:6])
            ctx.count('tables compared')


def conditions_of(saved):
    """Conditions of blocks what has been recorded depends on."""
    result = {}
    for v in saved.values():
        for a in stubs.atoms_of(v):
            names = [x for x in ('sys.a', 'sys.b', 'sys.c')
                     if a.op == '@truth' and a.args[0] == val.sym(x)]
            if not names:
                raise stubs.Indefinite(val.show(a, 4))
            result[a] = names[0]
    return result


def not_parsed(ctx, world, where):
    """Nothing has been persisted."""
    escapes = [x for g, x in world.stubs.escapes]
    ctx.record('stubs are parsed', where,
               c_.VIOLATED if world.failed() else c_.UNDECIDED,
               [f'parsing ends with {val.show(x, 4)[:200]}'
                for x in escapes] or ['nothing has been persisted'])


def compare(table, found, reader, truth, problems):
    for path, module in reader.modules.items():
        expected = getattr(module, table)
        actual = found.get(path, type(expected)())
        if table == 'nodes':
            actual, expected = dict(actual), dict(expected)
            for k in set(actual) & set(expected):
                if isinstance(expected[k][0], tuple):
                    actual[k] = [stubs.read_constructor(x)
                                 for x in actual[k]]
        if actual == expected:
            continue
        lines = problems.setdefault((table, path), [])
        if isinstance(expected, dict):
            for k in sorted({*actual, *expected}, key=str):
                a, e = actual.get(k), expected.get(k)
                if a != e:
                    lines.append(f'{k}: {cut(a)}, expected {cut(e)}'
                                 + when(truth))
        else:
            lines.append(f'{cut(actual)}, expected {cut(expected)}'
                         + when(truth))


def cut(x):
    return repr(x)[:160]


def when(truth):
    return (' when ' + ', '.join(f'{k}={v}' for k, v in truth.items())
            if truth else '')
