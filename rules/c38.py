"""The parser of stubs is abstractly interpreted over template modules, some
of which are said to be importable, and then so is evaluation of names, in the
order they are listed, in the opposite one and twice.  What is obtained has to
be what is written next to the templates: the very object of the runtime when
there is one, otherwise the object made of the definition, the same one every
time, with the name, bases, members and annotations of the definition.
"""
import ast

from sa import check as c_
from sa import runtime, trees, val
from sa.val import TRUE, c, cv, is_c, mkseq, pair_of, ref

TECHNIQUE = ('abstract interpretation of the parser and of the evaluation '
             'over template modules, comparison with what is written next '
             'to them')
ASSUMPTIONS = ['stub modules are made of the statements and nesting the '
               'templates have; names are representative',
               'module ast is modelled by its documented behaviour, and so is '
               'types.new_class; objects kept weakly are alive']
MINIMUM = 60
NEGATIVE = val.call(ref('operator.neg'), (c(1),))
BUILTINS = {'builtins': '''
class object: ...
class int: ...
class str: ...
class type: ...
class property: ...
class classmethod: ...
''', 'r': '''
class Box: ...
class Base:
    class Inner: ...
def make(x): ...
class K: ...
value: K
'''}
OBJECTS = ['builtins', *[f'builtins.{x}' for x in (
    'object', 'int', 'str', 'type', 'property', 'classmethod')],
    *[f'r{x}' for x in ('', '.Box', '.Base', '.Base.Inner', '.make', '.K',
                        '.value')]]
TEMPLATES = {
    'objects of the runtime': ({'m': '''
import r
import r as s
from r import Base, value
from r import Box as Crate
x = Base
Y = r.Base.Inner
'''}, [], {
        'r': 'r', 's': 'r', 'Base': 'r.Base', 'Crate': 'r.Box',
        'value': 'r.value', 'r.Base.Inner': 'r.Base.Inner', 'x': 'r.Base',
        's.value': 'r.value', 'Base.Inner': 'r.Base.Inner',
        'Y': 'r.Base.Inner', 'int': 'builtins.int',
    }, {}),
    'objects of the runtime declared in stubs': ({'m': '''
class A:
    x: int
    class B: ...
class C(A): ...
v: A
def f(x: C) -> A: ...
'''}, ['m', 'm.A', 'm.A.B', 'm.v', 'm.f'], {
        'A': 'm.A', 'A.B': 'm.A.B', 'v': 'm.v', 'f': 'm.f', 'C': 'C',
    }, {'C': ('C', ['m.A'], {}, {})}),
    'classes': ({'m': '''
from r import Base
class A:
    x: int
    def f(self, a: A = ..., *, b: C) -> A: ...
class C(A, Base):
    y: C
    z: A
    t = 1
    u: int = 2
class D(C): ...
'''}, [], {'A': 'A', 'C': 'C', 'D': 'D'}, {
        'A': ('A', [], {
            'f': "def f(self, a: 'A'=..., *, b: 'C') -> 'A'",
        }, {'x': 'builtins.int'}),
        'C': ('C', ['A', 'r.Base'], {'t': '1', 'u': '2'},
              {'y': 'C', 'z': 'A'}),
        'D': ('D', ['C'], {}, {}),
    }),
    'functions': ({'m': '''
class A: ...
def f(x: A, *y: int, z: str = 'a', **w: A) -> A: ...
async def g(x: int) -> A: ...
'''}, [], {
        'f': "def f(x: 'A', *y: 'int', z: 'str'='a', **w: 'A') -> 'A'",
        'g': "async def g(x: 'int') -> 'A'",
    }, {}),
    'values': ({'m': '''
import r
from r import Box, make
T = make('T')
U = make('U', bound=A)
class A: ...
P = Box[int, A]
Q = Box[P]
n = m = -1
'''}, [], {
        'T': "r.make('T')", 'U': "r.make('U', bound=A)",
        'P': 'r.Box[builtins.int, A]', 'Q': 'r.Box[r.Box[builtins.int, A]]',
        'n': '-1', 'm': '-1', 'A': 'A',
    }, {'A': ('A', [], {}, {})}),
    'recursive aliases': ({'m': '''
from r import Box
Rec = Box[int, Rec]
class A:
    x: Rec
'''}, [], {
        'Rec': "r.Box[builtins.int, typing.ForwardRef('Rec')]", 'A': 'A',
    }, {'A': ('A', [], {},
              {'x': "r.Box[builtins.int, typing.ForwardRef('Rec')]"})}),
    'names of different modules': ({'m': '''
import n
from n import B
class A:
    x: n.A
class C(n.A): ...
T = n.T
''', 'n': '''
from r import make
class A: ...
class B(A): ...
T = make('T')
'''}, [], {
        'A': 'A', 'n.A': 'A2', 'B': 'B', 'C': 'C', 'n.B': 'B',
        'T': "r.make('T')", 'n.T': "r.make('T')",
    }, {
        'A': ('A', [], {}, {'x': 'A2'}), 'A2': ('A', [], {}, {}),
        'B': ('B', ['A2'], {}, {}), 'C': ('C', ['A2'], {}, {}),
    }),
    'modules': ({'m': '''
import n
''', 'n': '''
from r import Base
import m
class A(Base):
    x: m.n.A
x = 1
def f(x: A) -> A: ...
'''}, [], {
        'n': 'n', 'n.A': 'A', 'n.x': '1',
    }, {
        'n': ('n', None, {'A': 'A', 'x': '1',
                          'f': "def f(x: 'A') -> 'A'"}, {}),
        'A': ('A', ['r.Base'], {}, {'x': 'A'}),
    }),
    'nested classes': ({'m': '''
class A:
    class B:
        y: A
        class C: ...
    x: B
class D(A):
    class E(A.B): ...
class F(A.B): ...
S = A.B
'''}, [], {
        'A': 'A', 'A.B': 'B', 'A.B.C': 'C', 'D': 'D', 'F': 'F', 'S': 'B',
    }, {
        'A': ('A', [], {'B': 'B'}, {'x': 'B'}),
        'B': ('A.B', [], {'C': 'C'}, {'y': 'A'}),
        'C': ('A.B.C', [], {}, {}),
        'D': ('D', ['A'], {'E': 'E'}, {}),
        'E': ('D.E', ['B'], {}, {}),
        'F': ('F', ['B'], {}, {}),
    }),
    'annotations of values': ({'m': '''
class A:
    x: A = ...
    y: B = 1
class B:
    z: A = ...
'''}, [], {'A': 'A', 'B': 'B'}, {
        'A': ('A', [], {'x': '...', 'y': '1'}, {}),
        'B': ('B', [], {'z': '...'}, {}),
    }),
    'definitions which depend on others': ({'m': '''
from r import make
class A:
    x = make(B)
    y = make(T)
    def f(self, x=T) -> A: ...
class B: ...
T = make('T')
'''}, [], {'A': 'A', 'B': 'B', 'T': "r.make('T')"}, {
        'A': ('A', [], {'x': 'r.make(B)', 'y': "r.make(r.make('T'))",
                        'f': "def f(self, x=T) -> 'A'"}, {}),
        'B': ('B', [], {}, {}),
    }),
    'classes which refer to each other': ({'m': '''
from n import B
class A:
    x: B
    y: C
class C(B):
    z: A
''', 'n': '''
import m
class B(m.A):
    x: m.C
    class A: ...
    y: A
'''}, [], {'C': 'C', 'B': 'B', 'A': 'A', 'B.A': 'I', 'C.A': 'I'}, {
        'A': ('A', [], {}, {'x': 'B', 'y': 'C'}),
        'B': ('B', ['A'], {'A': 'I'}, {'x': 'C', 'y': 'I'}),
        'C': ('C', ['B'], {}, {'z': 'A'}),
        'I': ('B.A', [], {}, {}),
    }),
    'decorated functions': ({'m': '''
from r import make, Box
class A:
    @make
    def f(self, x: A) -> int: ...
    def g(self, x: int) -> int: ...
    def g(self, x: str) -> A: ...
    async def h(self, *, x: A = ...) -> A: ...
    @make
    @Box(1)
    def k(x: A) -> int: ...
'''}, [], {'A': 'A'}, {
        'A': ('A', [], {
            'f': 'r.make(FUNCTION)', 'k': 'r.make(r.Box(1)(FUNCTION))',
            'g': "def g(self, x: 'str') -> 'A'",
            'h': "async def h(self, *, x: 'A'=...) -> 'A'",
        }, {}),
    }),
    'imported names': ({'m': '''
import p.s
from p import s as t, T as U
from p.s import *
class B(A, t.A2):
    x: p.s.A
    y: U
''', 'p': '''
from r import make
from .s import A as A
T = make(A)
''', 'p.s': '''
import p
from .. import T as T
class A: ...
class A2:
    x: T
'''}, [], {
        'A': 'A', 'B': 'B', 'p.s.A2': 'A2', 't.A': 'A', 'U': 'r.make(A)',
        'p.A': 'A', 'p.T': 'r.make(A)', 't.T': 'r.make(A)',
    }, {
        'A': ('A', [], {}, {}), 'A2': ('A2', [], {}, {'x': 'r.make(A)'}),
        'B': ('B', ['A', 'A2'], {}, {'x': 'A', 'y': 'r.make(A)'}),
    }),
    'values of classes': ({'m': '''
from r import make, Base
class A(Base):
    T = make('T')
    x = y = 1
    def f(self: T, x: Base.Inner) -> T: ...
    z: T
    Inner2 = Base.Inner
class B(A):
    x = 2
    y: int
'''}, [], {
        'A.T': "r.make('T')", 'B.x': '2', 'A.x': '1', 'A': 'A', 'B': 'B',
        'A.y': '1',
    }, {
        'A': ('A', ['r.Base'], {
            'T': "r.make('T')", 'x': '1', 'y': '1',
            'f': "def f(self: 'T', x: 'Base.Inner') -> 'T'",
        }, {'z': "r.make('T')"}),
        'B': ('B', ['A'], {'x': '2'}, {'y': 'builtins.int'}),
    }),
    'no objects': ({'m': '''
from r import make
x: int
y = make(x)
z = make(absent)
'''}, [], {'x': None, 'y': None, 'z': None}, {}),
}


def check(ctx):
    rule = 'names are evaluated to the objects they denote'
    for name in TEMPLATES:
        for way in (1, -1):
            ctx.attempt(rule, evaluated, rule, name, way)


def evaluated(ctx, rule, name, way):
    modules, objects, names, made = TEMPLATES[name]
    ctx.it.alive = TRUE
    it = ctx.fresh()
    it.alive = TRUE
    world = runtime.Runtime(it, {**modules, **BUILTINS},
                            [*OBJECTS, *objects])
    f = ctx.code('arboreal.evaluation', 'evaluate_expression_node')
    where = f'{ctx.where(f)} (template {name})'
    if world.saved is None:
        ctx.record(rule, where, c_.VIOLATED if world.failed()
                   else c_.UNDECIDED,
                   ['template is not parsed']
                   + [val.show(x, 4)[:200] for g, x in world.stubs.escapes])
        return
    matching = Matching(it, made)
    queries = list(names.items())[::way]
    for attempt in ('first', 'second'):
        for query, expected in queries:
            one(ctx, rule, where + ('' if way == 1 else ', backwards'), f,
                query, expected, matching, attempt)
    ctx.functions.update(str(k) for k in it.functions_analysed)


def one(ctx, rule, where, f, query, expected, matching, attempt):
    it = ctx.it
    it.escapes, it.alive, it.notes, it.lost = [], TRUE, [], []
    node = trees.allocate(it, ast.parse(query, mode='eval').body)
    value = it.call_value(f, [node, c(('m',)), c(()),
                              it.new_loc(mkseq('dict', []))], {}, [])
    raised = [x for g, x in it.escapes]
    certain = [x for g, x in it.escapes if g == TRUE]
    alive, it.alive = it.alive, TRUE
    it.escapes = []
    place = f'{where}: {query}, {attempt} time'
    if it.lost or it.notes and not certain:
        return ctx.record(rule, place, c_.UNDECIDED,
                          [str(x)[:200] for x in it.lost + it.notes])
    if expected is None:
        return ctx.record(
            rule, place, c_.HELD if certain else c_.VIOLATED
            if alive == TRUE else c_.UNDECIDED,
            [f'is {val.show(value, 4)[:200]}, there is nothing to evaluate'])
    if raised or alive != TRUE:
        return ctx.record(rule, place, c_.VIOLATED if certain
                          else c_.UNDECIDED,
                          [f'raises {val.show(x, 4)[:200]}' for x in raised])
    problems = matching.check(value, expected)
    ctx.record(rule, place, c_.HELD if not problems else c_.UNDECIDED
               if any(x is None for x, _ in problems) else c_.VIOLATED,
               [y for _, y in problems][:6])
    ctx.count('names evaluated')


class Matching:
    """Values of the program against expressions that describe them."""

    def __init__(self, it, made):
        self.it, self.made = it, made
        self.objects = {}        # made objects by their labels
        self.labels = {}

    def check(self, value, expected):
        self.problems, self.pending = [], []
        self.done = set()
        self.match(value, expected, expected)
        while self.pending:
            self.details(*self.pending.pop())
        return self.problems

    def differ(self, value, expected, what=''):
        unknown = any(x.op == 'unk' for x in val.nodes_in(value))
        self.problems.append((None if unknown else value,
                              f'{what} is {val.show(value, 4)[:160]}, '
                              f'expected {expected}'))

    def match(self, value, expected, what):
        if expected.startswith(('def ', 'async def ')):
            if spelled(value) != expected:
                self.differ(value, f'{expected} (it is {spelled(value)})',
                            what)
            return
        self.expression(value, ast.parse(expected, mode='eval').body, what)

    def expression(self, value, x, what):
        text = ast.unparse(x)
        if isinstance(x, ast.Name) and x.id == 'FUNCTION':
            if value.op != 'func':
                self.differ(value, 'a function', what)
            return
        if isinstance(x, ast.Name) and x.id in self.made:
            return self.object(value, x.id, what)
        if isinstance(x, (ast.Name, ast.Attribute)):
            if value != ref(text):
                self.differ(value, text, what)
        elif isinstance(x, ast.Constant) and x.value is ...:
            if value != ref('builtins.Ellipsis') and value != c(...):
                self.differ(value, text, what)
        elif isinstance(x, (ast.Constant, ast.UnaryOp)):
            if value not in (c(ast.literal_eval(x)), NEGATIVE):
                self.differ(value, text, what)
        elif isinstance(x, ast.Tuple):
            items = (val.static_items(value)
                     if value.op == 'seq' and value.args[0] == 'tuple'
                     else None)
            if items is None or len(items) != len(x.elts):
                return self.differ(value, text, what)
            for item, y in zip(items, x.elts):
                self.expression(item, y, what)
        elif isinstance(x, ast.Subscript):
            if value.op != 'getitem':
                return self.differ(value, text, what)
            self.expression(value.args[0], x.value, what)
            self.expression(value.args[1], x.slice, what)
        elif isinstance(x, ast.Call):
            if (value.op != 'call'
                    or len(value.args[1]) != len(x.args)
                    or [k for k, _ in value.args[2]]
                    != [k.arg for k in x.keywords]):
                return self.differ(value, text, what)
            self.expression(value.args[0], x.func, what)
            for y, z in zip(value.args[1], x.args):
                self.expression(y, z, what)
            for (_, y), z in zip(value.args[2], x.keywords):
                self.expression(y, z.value, what)
        else:
            raise ValueError(text)

    def object(self, value, label, what):
        cell = self.it.deref(value)
        identity = (dict(cell.args[1]).get(runtime.IDENTITY)
                    if cell.op == 'new' else None)
        if identity is not None and not is_c(identity):
            self.problems.append((None, f'{what} is not definite'))
            return
        if identity is None:
            return self.differ(value, f'object made of {label}', what)
        if (self.objects.setdefault(label, identity) != identity
                or self.labels.setdefault(identity, label) != label):
            self.problems.append((
                value, f'{what} is not the same object {label} as before'
                if self.labels.get(identity, label) == label else
                f'{what} is {self.labels[identity]}, not {label}'))
        elif value.op == 'loc':
            self.pending.append((value, label))

    def details(self, value, label):
        name, bases, members, annotations = self.made[label]
        if value in self.done:
            return
        fields = dict(self.it.heap[value].args[1])
        self.done.add(value)
        if fields.pop('__name__', None) != c(name):
            self.problems.append((value, f'{label} is not called {name}'))
        found = fields.pop('__bases__', None)
        if bases is not None:
            items = None if found is None else val.static_items(
                self.it.deref(found))
            if items is None or len(items) != len(bases):
                self.differ(found, f'bases {bases}', f'{label}.__bases__')
            else:
                for x, y in zip(items, bases):
                    self.match(x, y, f'base of {label}')
        found = fields.pop('__annotations__', None)
        self.mapping(label + '.__annotations__',
                     {} if found is None else self.entries(found),
                     annotations)
        for k in ('__module__', '__dict__', runtime.IDENTITY):
            fields.pop(k, None)
        self.mapping(label, fields, members)

    def entries(self, v):
        cell = self.it.deref(v)
        result = {}
        for p in cell.args[1]:
            k, x = pair_of(p[2]) if p[0] == 'i' else (None, None)
            if k is None or not is_c(k) or p[1].b != TRUE:
                return None
            result[cv(k)] = x
        return result

    def mapping(self, what, found, expected):
        if found is None:
            self.problems.append((None, f'{what} is not definite'))
            return
        if sorted(found) != sorted(expected):
            self.problems.append((what, f'{what} has {sorted(found)}, '
                                        f'expected {sorted(expected)}'))
        for k, x in found.items():
            if k in expected:
                self.match(x, expected[k], f'{what}.{k}')


def spelled(value):
    """Header of the function."""
    if value.op != 'func':
        return None
    node = value.args[0].node
    if not isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return None
    text = ast.unparse(type(node)(node.name, node.args, [ast.Pass()], [],
                                  node.returns, lineno=1))
    return text.rpartition(':\n')[0]
