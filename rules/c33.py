"""The stub parser is abstractly interpreted over template modules with
generics and classes deriving from parametrised ones, with conditions left
symbolic.  What is recorded of every class is followed from it: its bases have
to be specialisations with the members of the generic, their statements with
arguments put for parameters, every name of them meaning what it means where
it is spelled (arguments - in the module of the class, everything else - in the
module of the generic), and bases of specialisations accordingly.
"""
import ast
import copy
import itertools

from sa import check as c_
from sa import trees, val

from . import c28, stubs

TECHNIQUE = ('abstract interpretation of the parser over template modules, '
             'comparison with substitution in the templates')
ASSUMPTIONS = c28.ASSUMPTIONS
MINIMUM = 30


def check(ctx):
    for name, universe in stubs.GENERICS.items():
        try:
            specialized(ctx, name, universe)
        except stubs.Indefinite as error:
            ctx.record('stubs are parsed', f'{stubs.S} (template {name})',
                       c_.UNDECIDED, [f'not definite: {error}'])


def specialized(ctx, name, universe):
    world = trees.World(ctx.fresh(), universe)
    ctx.it.alive = val.TRUE
    where = f'{stubs.S} (template {name})'
    if world.saved is None:
        return c28.not_parsed(ctx, world, where)
    ctx.functions.update(str(k) for k in ctx.it.functions_analysed)
    ctx.count('template modules', len(universe))
    conditions = c28.conditions_of(world.saved)
    names = sorted(set(conditions.values()))
    problems, classes = {}, {}
    for outcome in itertools.product([False, True], repeat=len(names)):
        truth = dict(zip(names, outcome))
        assignment = {a: truth[x] for a, x in conditions.items()}
        tables = {k: stubs.definite(x, assignment)
                  for k, x in world.saved.items()}
        reader = stubs.Reader(
            universe, trees.PACKAGES,
            stubs.condition({x: truth.get(x, False)
                             for x in ('sys.a', 'sys.b', 'sys.c')}))
        follow = Follow(reader, tables)
        for path, module in reader.modules.items():
            for key in module.bases:
                classes[path, key] = None
                for line in follow.of_class(path, key):
                    problems.setdefault((path, key), []).append(
                        line + c28.when(truth))
        ctx.count('members of specialisations', follow.members)
        ctx.count('names resolved', follow.names)
        ctx.count('outcomes of conditions')
    for path, key in classes:
        lines = list(dict.fromkeys(problems.get((path, key), [])))
        if name == 'shadowed':
            # every problem is on its own, for only those to be known ones
            # which are
            for line in dict.fromkeys(x.rpartition(': ')[2] for x in lines):
                ctx.hold('bases are specialised with arguments which are '
                         f'named: {line}',
                         f'{where}, class {".".join(path)}:{".".join(key)}',
                         False, [line])
            continue
        ctx.hold('bases are specialised with arguments which are named',
                 f'{where}, class {".".join(path)}:{".".join(key)}',
                 not lines, lines[:6])


class Follow:
    """Observable contents of bases against the templates."""

    def __init__(self, reader, tables):
        self.reader, self.tables = reader, tables
        self.members = self.names = 0
        self.nodes = {}

    def of_class(self, path, key):
        """Problems of bases of the class."""
        module = self.reader.modules[path]
        own = [self.meant(b, Scope(path, key[:-1], {}))
               for b in module.bases[key]]
        found = self.tables['superclasses'].get(path, {}).get(key, [])
        return self.bases(own, found, f'{key[-1]}')

    def meant(self, base, scope):
        """Generic, arguments and scope of them."""
        if base is stubs.NAMED_TUPLE:
            return base
        if isinstance(base, ast.Subscript):
            origin = self.reader.definition(scope.path, scope.parent,
                                            stubs.dotted(base.value))
            return origin, [Term(x, scope) for x in stubs.arguments(base)]
        return self.reader.definition(scope.path, scope.parent,
                                      stubs.dotted(base))

    def bases(self, expected, found, label, depth=0):
        if len(expected) != len(found):
            return [f'{label} has bases {found}, expected '
                    f'{[e if isinstance(e[0][0], str) else e[0] for e in expected]}']
        lines = []
        for e, f in zip(expected, found):
            if isinstance(e[1], list):
                lines += self.specialization(e, f, label, depth)
            elif f != e:
                lines.append(f'{label} is based on {f}, expected {e}')
        return lines

    def specialization(self, expected, found, label, depth):
        (origin, args), (module_path, path) = expected, found
        tables, lines = self.tables, []
        label = f'{label} <- {".".join(map(str, path))}'
        if tables['nodes_kinds'].get(module_path, {}).get(path) != 'CLASS':
            lines.append(f'{label} is not recorded as a class')
        generic = self.reader.modules[origin[0]]
        parameters = self.parameters(origin)
        table = dict(zip(parameters, args))
        scope = generic.definitions
        for part in origin[1]:
            scope = scope[part]
        actual = tables['definitions'].get(module_path, {})
        for part in path:
            actual = actual.get(part, {})
        if set(actual) != set(scope):
            lines.append(f'{label} has members {sorted(actual)}, expected '
                         f'{sorted(scope)}')
            return lines
        for name in scope:
            self.members += 1
            kind = tables['nodes_kinds'].get(module_path, {}).get(
                (*path, name))
            if kind != generic.kinds[(*origin[1], name)]:
                lines.append(f'{label}.{name} is {kind}')
            nodes = generic.statements.get((*origin[1], name), [])
            raw = tables['raw_ast_nodes'].get(module_path, {}).get(
                (*path, name), [])
            if len(nodes) != len(raw):
                lines.append(f'{label}.{name} has {len(raw)} definitions, '
                             f'expected {len(nodes)}')
                continue
            for n, r in zip(nodes, raw):
                lines += self.node(n, table,
                                   Scope(origin[0], (), {}, set(scope)),
                                   self.parse(r), module_path,
                                   f'{label}.{name}')
        below = []
        for b in generic.bases[origin[1]]:
            meant = self.meant(b, Scope(origin[0], origin[1][:-1], table))
            below.append(meant)
        return lines + self.bases(
            below, tables['superclasses'].get(module_path, {}).get(path, []),
            label, depth + 1)

    def parse(self, raw):
        if raw not in self.nodes:
            self.nodes[raw] = eval(raw, {k: x for k, x in vars(ast).items()
                                         if k != 'Ellipsis'})
        return self.nodes[raw]

    def parameters(self, origin):
        return self.reader.parameters(*origin)

    def node(self, node, table, scope, found, module_path, label):
        """Problems of the statement."""
        lines = []

        def fail(a, b):
            lines.append(f'{label}: {show(b)}, expected {show(a)}')

        def same(a, b, table, scope):
            if isinstance(a, list):
                if not isinstance(b, list) or len(a) != len(b):
                    return fail(a, b)
                for x, y in zip(a, b):
                    same(x, y, table, scope)
            elif isinstance(a, ast.AST):
                names = stubs.dotted(a)
                if (names is not None and isinstance(a.ctx, ast.Load)
                        and (names in table or names[:1] not in table)):
                    if names in table:
                        term = table[names]
                        return same(term.node, b, term.scope.table,
                                    term.scope)
                    return mean(a, names, b, scope)
                if type(a) is not type(b):
                    return fail(a, b)
                for n in a._fields:
                    same(getattr(a, n, None), getattr(b, n, None), table,
                         scope)
            elif a != b or type(a) is not type(b):
                fail(a, b)

        def mean(a, names, b, scope):
            self.names += 1
            if ast.dump(a) != ast.dump(b):
                return fail(a, b)
            if names[0] in scope.own:
                # there is the same one in the scope of the specialisation
                return
            expected = self.reader.definition(scope.path, scope.parent,
                                              names)
            actual = self.resolve(module_path, names)
            if expected != actual:
                lines.append(f'{label}: {".".join(names)} means {actual}, '
                             f'expected {expected}')

        same(node, found, table, scope)
        return lines

    def resolve(self, path, names):
        """What names mean in the module of specialisations."""
        tables = self.tables
        for _ in range(20):
            if names and names[0] in tables['definitions'].get(path, {}):
                return path, names
            if path in self.reader.modules:
                return self.reader.definition(path, (), names)
            for n in range(len(names), 0, -1):
                r = tables['references'].get(path, {}).get(names[:n])
                if r is not None:
                    path, names = r[0], (*r[1], *names[n:])
                    break
            else:
                return self.reader.definition(('builtins',), (), names)
        return None


class Scope:
    def __init__(self, path, parent, table, own=()):
        self.path, self.parent, self.table = path, parent, table
        self.own = own


class Term:
    def __init__(self, node, scope):
        self.node, self.scope = node, scope


def show(x):
    if isinstance(x, ast.AST):
        return ast.unparse(copy.deepcopy(x))[:120]
    return repr(x)[:120]
