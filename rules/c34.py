"""Evaluation of expressions is abstractly interpreted over syntax trees which
cover kinds of nodes (with kinds of what they hold) of the installed stubs,
resolution of names being opaque, and has to result in the same value as the
reference in spec/expressions.py.  Printed expressions are parsed back, paths
and names are compared with the ones read off the trees."""
import ast

from sa import check as c_
from sa import trees, val
from sa.val import TRUE, cv, is_c, sym

from . import c25
from .signatures import STRINGS

TECHNIQUE = ('abstract interpretation over syntax trees covering kinds of '
             'nodes of the installed stubs, equivalence with a reference, '
             'parsing of what is printed')
ASSUMPTIONS = ['how a tree is treated depends on kinds of its nodes and '
               'kinds of what they hold only',
               'strings are printed as what they spell (forward references)']
MINIMUM = 60
SAMPLES = ['a', 'a.b', 'a.b.c', '"x"', '-1', '+a', '(a, ...)', '()', '(a,)',
           '[a, b]', '[]', '{a: b, c: d}', '{}', 'a | None | b', 'a & b',
           'a ^ b', 'a[b]', 'a[b, c]', 'a[b][c]', 'a[[b, c], None]',
           'a("x", b, bound=c, covariant=True)', 'a(b=c)', 'a()',
           'a.b[c | d, "e"]', 'a[b](c)', 'a["b" | c]', 'a[-1, b"x", "y"]']


def check(ctx):
    positions = c25.collect()
    evaluation(ctx, positions)
    printing(ctx, positions)
    naming(ctx, positions)


def trees_of(positions, function, samples=()):
    nodes = [('sample', ast.parse(x, mode='eval').body) for x in samples]
    for (f, _), found in positions.items():
        if f == function:
            nodes += found
    return nodes


def evaluation(ctx, positions):
    it = c25.fresh(ctx)
    error = val.ref('builtins.TypeError')
    it.config.may_raise = {x: (error,) for x in [
        '[]', 'operator.or_', 'operator.and_', 'operator.xor']}
    f = ctx.code(*c25.EVALUATED)
    spec = ctx.spec('expressions')('evaluated')
    rest = [sym('module_path', STRINGS), sym('parent_path', STRINGS),
            sym('namespace')]
    for name, x in distinct(trees_of(positions, c25.EVALUATED, SAMPLES)):
        node = trees.allocate(it, x)
        it.notes = []
        ctx.same('expression is evaluated as it reads',
                 f'{ctx.where(f)}: {text(x)} ({name})',
                 ctx.outcome(f, [node] + rest),
                 ctx.outcome(spec, [node] + rest))


def distinct(nodes):
    nodes = [(n, x) for n, x in nodes if n == 'sample'], [
        (n, x) for n, x in nodes if n != 'sample']
    return nodes[0] + list(c25.chosen(nodes[1]))


def text(x):
    return ' '.join(ast.unparse(x).split())[:60]


# --- printing


def printing(ctx, positions):
    it = c25.fresh(ctx)
    f = ctx.code(*c25.PRINTED)
    samples = [x for x in SAMPLES if '{' not in x and 'a(' not in x
               and '](' not in x]
    for name, x in distinct(trees_of(positions, c25.PRINTED, samples)):
        it.notes = []
        r = ctx.outcome(f, [trees.allocate(it, x)])
        printed = spelled(r)
        ctx.record('expression is printed as it reads',
                   f'{ctx.where(f)}: {text(x)} ({name})',
                   c_.UNDECIDED if printed is None else
                   c_.HELD if reads(printed, x) else c_.VIOLATED,
                   [f'printed as {val.show(r, 4)[:200] if printed is None else printed}'])


def spelled(r):
    if is_c(r):
        return str(cv(r)) if isinstance(cv(r), str) else None
    if r.op == 'call' and r.args[0] in (val.ref('builtins.str'),
                                        val.ref('builtins.repr')):
        [x] = r.args[1]
        if is_c(x):
            return (str if r.args[0] == val.ref('builtins.str')
                    else repr)(cv(x))
        if x == val.ref('builtins.Ellipsis'):
            return 'Ellipsis'
    if r.op == 'seq' and r.args[0] == 'str':
        parts = [spelled(p[2]) if p[0] == 'i' and p[1].b == TRUE else None
                 for p in r.args[1]]
        return None if None in parts else ''.join(parts)
    if r.op == 'raise':
        return f'<{val.show(r, 3)}>'
    return None


def reads(printed, x):
    try:
        found = ast.parse(printed, mode='eval').body
    except SyntaxError:
        return False
    return plain(found) == plain(x)


def plain(x):
    """Tree with strings replaced by what they spell."""
    class Plain(ast.NodeTransformer):
        def visit_Constant(self, node):
            if isinstance(node.value, str):
                try:
                    return self.visit(ast.parse(node.value,
                                                mode='eval').body)
                except SyntaxError:
                    return node
            if node.value is ...:
                return ast.Name('Ellipsis', ast.Load())
            return node

        def visit_Subscript(self, node):
            self.generic_visit(node)
            return node

    copied = ast.parse(ast.unparse(x), mode='eval').body
    return ast.dump(Plain().visit(copied))


# --- naming


def naming(ctx, positions):
    it = c25.fresh(ctx)
    f = ctx.code(*c25.PATH)
    for x in ('a', 'a.b', 'a.b.c'):
        r = ctx.outcome(f, [trees.allocate(it, parsed(x))])
        same(ctx, 'path consists of the names', f'{ctx.where(f)}: {x}', r,
             tuple(x.split('.')))
    f = ctx.code(*c25.MAYBE_PATH)
    nodes = trees_of(positions, c25.MAYBE_PATH, SAMPLES)
    for name, x in distinct(nodes):
        r = ctx.outcome(f, [trees.allocate(it, x)])
        same(ctx, 'path is there for dotted names only',
             f'{ctx.where(f)}: {text(x)} ({name})', r, path_of(x))
    f = ctx.code(*c25.NAMES)
    for x, names in {'def f(): ...': ['f'], 'async def g(): ...': ['g'],
                     'class C: ...': ['C'], 'x: int': ['x'],
                     'x: int = 1': ['x'], 'x = 1': ['x'],
                     'x = y = z': ['x', 'y']}.items():
        r = ctx.outcome(f, [trees.allocate(it, ast.parse(x).body[0])])
        same(ctx, 'names are the defined ones', f'{ctx.where(f)}: {x}', r,
             names)


def parsed(x):
    return ast.parse(x, mode='eval').body


def path_of(x):
    if isinstance(x, ast.Name):
        return (x.id,)
    if isinstance(x, ast.Attribute):
        value = path_of(x.value)
        return value and value + (x.attr,)
    return None


def same(ctx, rule, where, r, expected):
    found = plain_value(r)
    ctx.record(rule, where,
               c_.UNDECIDED if found is Ellipsis
               else c_.HELD if found == expected else c_.VIOLATED,
               [f'{val.show(r, 4)[:200]}, expected {expected}'])


def plain_value(r):
    """Python object, ellipsis if it is not understood."""
    if is_c(r):
        return cv(r)
    if r.op == 'raise':
        return val.show(r, 3)
    if r.op == 'seq' and r.args[0] in ('list', 'tuple') and all(
            p[0] == 'i' and p[1].b == TRUE for p in r.args[1]):
        items = [plain_value(p[2]) for p in r.args[1]]
        return (... if ... in items
                else {'list': list, 'tuple': tuple}[r.args[0]](items))
    return ...
