"""Definitions are printed and read back by the abstractly interpreted
functions of the library, over syntax trees with every kind of nodes and of
what they hold met in definitions of the installed stubs: the tree has to be
the same.  Printing of collections is decided by induction: collections of
arbitrary elements have to be printed as displays of these very elements, no
matter what elements are printed as.  Kinds of nodes are printed as the
numbers they are restored by."""
import ast
import itertools

from sa import check as c_
from sa import trees, typeshed, val
from sa.val import G, TRUE, c, cv, is_c, mkseq, seq, sym

TECHNIQUE = ('abstract interpretation over syntax trees covering kinds of '
             'nodes of the installed stubs, induction over collections')
ASSUMPTIONS = ['`ast.dump`, `eval` and `repr` of numbers, strings and `None` '
               'behave as documented']
MINIMUM = 40
V = 'paradigm/_core/arboreal/conversion.py'
N = 'paradigm/_core/arboreal/construction.py'
SAMPLES = r'''
def f(self, a, /, b: int = 1, *, c: 'str' = 'it\'s "q"', d=None) -> None: ...
def f(*args: int, **kwargs: dict[str, int]) -> bool | None: ...
async def g(x: bytes = b'\x00\'"', y: float = -1.5e-7, z=1j) -> Any: ...
def h(x: str = '\n\\ \u20ac \x00', y=(1,), z=(), w=[], k={}, m={'a': 1}): ...
def e(x=Ellipsis, y=..., z=NotImplemented, t=True, n=NotImplementedError): ...
def n(Name=Constant, *, Load: Store = Module.Index, **Tuple: List[Set]): ...
def o(x=~1, y=+1, z=not None, w=1 << 2, v=A ^ B & C, u=a.b.c[d, ...]): ...
@overload
@a.b('c', d=1)
def p(self: Self) -> Callable[[int, str], None]: ...
x: int
y: tuple[int, ...] = ...
a.b: Final = 'Ellipsis'
z = TypeVar('z', bound='Name', covariant=True)
u = v = Union[int, str]
w = 10 ** 20
q: Literal[-1, 'a', b'b', None, True]
'''


def check(ctx):
    definitions(ctx)
    collections(ctx)
    kinds(ctx)


def definitions(ctx):
    it = ctx.fresh()
    it.config.results.update(trees.Trees(it).results)
    it.config.recursion, it.config.unroll = 40, 64
    it.config.snapshots = False
    it.exact['paradigm._core.arboreal.construction'] = it.config
    to_raw = ctx.code('arboreal.conversion', 'to_raw')
    from_raw = ctx.code('arboreal.construction', 'from_raw')
    where = f'{ctx.where(to_raw)}, {ctx.where(from_raw)}'
    seen, nodes = set(), []
    for x in ast.parse(SAMPLES).body:
        nodes.append(('sample', x))
        seen.update(typeshed.shape(x))
    count = 0
    for name, tree in typeshed.modules():
        for x in typeshed.recorded(tree):
            count += 1
            shape = set(typeshed.shape(x))
            if not shape <= seen:
                seen |= shape
                nodes.append((name, x))
    ctx.count('definitions of installed stubs', count)
    ctx.count('kinds of nodes with kinds of what they hold', len(seen))
    for name, x in nodes:
        text = ' '.join(ast.unparse(x).split())[:60]
        place = f'{where}, {name}: {text}'
        expected = ast.dump(x)
        it.notes = []
        raw = ctx.outcome(to_raw, [trees.allocate(it, x)])
        try:
            printed = trees.restore(it, ctx.outcome(from_raw, [raw]))
        except ValueError as error:
            v = error.args[0]
            certain = (v.op in ('raise', 'cls', 'ref', 'func', 'module')
                       or is_c(raw) and v.op == 'unk'
                       and 'undefined name' in str(v.args))
            ctx.record('definition is restored', place,
                       c_.VIOLATED if certain else c_.UNDECIDED,
                       [f'{cut(raw)} is read back as {cut(v)}'])
            continue
        ctx.hold('definition is restored', place,
                 isinstance(printed, ast.AST) and same(expected, printed),
                 [f'{cut(raw)} is read back as '
                  f'{printed if not isinstance(printed, ast.AST) else dump(printed)}'])


def same(expected, node):
    try:
        return ast.dump(node) == expected
    except Exception:
        return False


def dump(node):
    try:
        return ast.dump(node)[:300]
    except Exception as error:
        return f'a malformed tree ({error!r})'


def cut(v):
    return val.show(v, 4)[:300]


# --- collections


def collections(ctx):
    ctx.fresh()
    f = ctx.code('pretty', 'repr_from')
    where = ctx.where(f)
    for kind, n, depth, repeated in itertools.product(
            ['dict', 'list', 'tuple', 'set'], range(4), range(3),
            [False, True]):
        if repeated and (n < 2 or kind in ('dict', 'set')):
            continue
        items, expected = [], []
        for i in range(n):
            x = sym(f'x{i * (not repeated)}')
            if kind == 'dict':
                y = sym(f'y{i}')
                items.append(seq('tuple', [x, y]))
                expected.append((x, y))
            else:
                items.append(x)
                expected.append(x)
        v = mkseq(kind, [('i', G(TRUE), x) for x in items])
        for indent in (4, 0):
            r = ctx.outcome(f, [v, c(indent), c(depth)])
            ctx.count('displays')
            verdict, problem = displayed(r, v, kind, expected, f)
            ctx.record('collection is printed as a display of its elements',
                       f'{where}, {kind} of {n}'
                       f'{" equal ones" * repeated}, depth {depth}, indent '
                       f'{indent}', verdict, [problem])
    for v in [1, 0, -1, 'it\'s "q"\n\\', '', True, 2.5, b'b\'']:
        r = ctx.outcome(f, [c(v), c(4), c(1)])
        ok = is_c(r) and isinstance(cv(r), str) and literal(cv(r)) == [v]
        ctx.record('anything else is printed as it is spelled',
                   f'{where}, {v!r}',
                   c_.HELD if ok else c_.VIOLATED if is_c(r)
                   else c_.UNDECIDED, [f'printed as {cut(r)}'])


def literal(text):
    try:
        return [ast.literal_eval(text)]
    except Exception:
        return []


class Unclear(Exception):
    pass


def displayed(r, v, kind, expected, f):
    """Whether the text is a display of the elements, whatever they are."""
    if not expected and r.op == 'call' and (
            r.args[0] == val.ref('builtins.repr') and r.args[1] == (v,)):
        return c_.HELD, ''
    names, changed = {}, set()
    try:
        text = ''.join(pieces(r, f, names, changed))
    except Unclear as error:
        return c_.UNDECIDED, f'printing is not followed: {error}'
    problem = f'printed as {text!r}'
    if changed and kind in ('list', 'tuple') and len(expected) > 1:
        return c_.VIOLATED, f'{problem} having been {min(changed)}'
    try:
        node = ast.parse(text, mode='eval').body
    except SyntaxError:
        return c_.VIOLATED, problem

    def element(x):
        if isinstance(x, ast.Name) and x.id in names:
            return names[x.id]
        return None

    if kind == 'dict':
        good = isinstance(node, ast.Dict)
        found = ([(k and element(k), element(x))
                  for k, x in zip(node.keys, node.values)] if good else [])
    elif kind == 'set' and not expected:
        good, found = text == 'set()', []
    else:
        good = isinstance(node, {'list': ast.List, 'tuple': ast.Tuple,
                                 'set': ast.Set}[kind])
        found = [element(x) for x in node.elts] if good else []
    if kind in ('dict', 'set'):
        good = good and (sorted(map(repr, found))
                         == sorted(map(repr, expected)))
    else:
        good = good and found == expected
    return (c_.HELD if good else c_.VIOLATED), problem


def pieces(v, f, names, changed):
    """Parts of the text, what elements are printed as being names."""
    if is_c(v):
        if not isinstance(cv(v), str):
            raise Unclear(cut(v))
        yield cv(v)
    elif v.op == 'seq' and v.args[0] == 'str':
        for x in items(v, changed):
            yield from pieces(x, f, names, changed)
    elif v.op == 'call' and v.args[0] in (f, val.ref('builtins.repr')):
        name = f'element_{len(names)}'
        names[name] = v.args[1][0]
        yield name
    elif v.op == 'join':
        separator = ''.join(pieces(v.args[0], f, names, changed))
        yield separator.join(''.join(pieces(x, f, names, changed))
                             for x in items(v.args[1], changed))
    else:
        raise Unclear(cut(v))


def items(v, changed):
    """Elements of the collection, in some order."""
    if v.op == 'call' and v.args[0] == val.ref('builtins.sorted'):
        changed.add('sorted')
        return items(v.args[1][0], changed)
    if v.op == 'seq' and all(p[0] == 'i' and p[1].b == TRUE
                             for p in v.args[1]):
        if v.args[0] in ('set', 'dict'):
            changed.add('left without repetitions')
        return [val.pair_of(p[2])[0] if v.args[0] == 'dict' else p[2]
                for p in v.args[1]]
    if v.op == 'seq' and len(v.args[1]) == 1 and v.args[1][0][0] == 'e':
        _, source, *rest = v.args[1][0]
        e, guard, x = val.open_(source, *rest)
        if guard.b == TRUE:
            return [val.subst(x, {e: y}) for y in items(source, changed)]
    raise Unclear(cut(v))


# --- kinds


def kinds(ctx):
    ctx.fresh()
    k = ctx.code('arboreal.kind', 'NodeKind')
    info = k.args[0]
    where = ctx.where(k)
    members = info.members or ()
    if not members:
        return ctx.record('kinds of nodes are restored', where,
                          c_.UNDECIDED, ['there are no members'])
    values = [m.args[2] for m in members]
    ctx.hold('kinds of nodes differ', where,
             len(set(values)) == len(values), [f'values are {values}'])
    printed = info.lookup('__repr__')
    for m, value in zip(members, values):
        place = f'{where}, {m.args[1]}'
        rule = 'kinds of nodes are printed as what they are restored by'
        if printed is None:
            ctx.record(rule, place, c_.VIOLATED,
                       ['it is printed the way enumerations are'])
            continue
        r = ctx.outcome(printed, [m])
        if r.op == 'call' and r.args[0] == val.ref('builtins.int.__repr__'):
            r = c(repr(value))
        ctx.record(rule, place,
                   c_.HELD if is_c(r) and literal(cv(r)) == [value]
                   else c_.VIOLATED if is_c(r) else c_.UNDECIDED,
                   [f'{value!r} is printed as {cut(r)}'])
