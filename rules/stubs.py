"""Stub modules to parse and what has to be recorded of them."""
import ast
import itertools
import sys

from sa import trees
from sa.val import B, FALSE, TRUE, is_c, cv, pair_of, show, show_guard

S = 'paradigm/_core/stubs.py'
ALWAYS = {'sys.version_info': sys.version_info, 'sys.platform': 'linux'}
SPECIAL = [(('typing',), ('Generic',)), (('typing',), ('Protocol',))]
TYPE_VARS = [((m,), (n,)) for m in ('typing', 'typing_extensions')
             for n in ('TypeVar', 'ParamSpec')]
NAMED_TUPLE = (('typing',), ('NamedTuple',))


class Indefinite(Exception):
    pass


# --- values of the program


def atoms_of(v, seen=None):
    """Conditions the value depends on."""
    seen = set() if seen is None else seen
    result = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if x.op == 'seq':
            for p in x.args[1]:
                if p[0] != 'i':
                    raise Indefinite(show(x, 4)[:200])
                result |= set(B.support(p[1].b))
                stack.append(p[2])
        elif x.op == 'phi':
            for g, y in x.args[0]:
                result |= set(B.support(getattr(g, 'b', g)))
                stack.append(y)
        elif x.op == 'new':
            stack.extend(y for _, y in x.args[1])
    return result


def holds(guard, assignment):
    """Whether the guard holds when conditions are as assigned."""
    node = getattr(guard, 'b', guard)
    while node not in (TRUE, FALSE):
        var, low, high = B.nodes[node]
        atom = B.atoms[var]
        if atom not in assignment:
            raise Indefinite(show_guard(node)[:200])
        node = high if assignment[atom] else low
    return node == TRUE


def definite(v, assignment, member=None):
    """Constant the value is when conditions are as assigned."""
    if is_c(v):
        return cv(v)
    if v.op == 'phi':
        for g, x in v.args[0]:
            if holds(g, assignment):
                return definite(x, assignment, member)
        raise Indefinite(show(v, 4)[:200])
    if v.op == 'seq':
        items = []
        for p in v.args[1]:
            if p[0] != 'i':
                raise Indefinite(show(v, 4)[:200])
            if holds(p[1], assignment):
                items.append(p[2])
        kind = v.args[0]
        if kind == 'dict':
            result = {}
            for p in items:
                k, x = pair_of(p)
                result[definite(k, assignment)] = definite(x, assignment)
            return result
        items = [definite(x, assignment) for x in items]
        if kind == 'str':
            return ''.join(items)
        return {'list': list, 'tuple': tuple, 'set': set,
                'frozenset': frozenset}.get(kind, list)(items)
    if v.op == 'member':
        return v.args[1] if isinstance(v.args[1], str) else str(v.args[1])
    raise Indefinite(show(v, 4)[:200])


# --- what the stubs say


class Module:
    def __init__(self):
        self.definitions, self.kinds, self.nodes = {}, {}, {}
        self.references, self.submodules, self.bases = {}, [], {}
        self.statements, self.declared = {}, {}


class Reader:
    """Contents of stub modules, independently of the program."""

    def __init__(self, texts, packages, condition):
        self.packages, self.condition = packages, condition
        self.trees = {tuple(k.split('.')): ast.parse(x)
                      for k, x in texts.items()}
        self.modules = {}
        for path in self.trees:
            self.module(path)
        for path, module in self.modules.items():
            module.superclasses = {
                k: [self.definition(path, k[:-1], dotted(b))
                    if isinstance(b, ast.AST) else b for b in bases]
                for k, bases in module.bases.items()
                if bases and not any(isinstance(b, ast.Subscript)
                                     for b in bases)
            }

    def module(self, path):
        if path not in self.modules:
            module = self.modules[path] = Module()
            self.body(path, module, (), self.trees[path].body)
        return self.modules[path]

    def body(self, path, module, parent, statements):
        scope = module.definitions
        for part in parent:
            scope = scope[part]

        def define(name, kind, node):
            scope.setdefault(name, {})
            key = (*parent, name)
            module.kinds[key] = kind
            if node is not None and not isinstance(node, ast.ClassDef):
                module.statements.setdefault(key, []).append(node)
                module.nodes.setdefault(key, []).append(
                    ast.dump(node, annotate_fields=False))

        def refer(key, module_path, object_path, node):
            module.references[key] = module_path, object_path

        for x in statements:
            if isinstance(x, ast.FunctionDef):
                define(x.name, 'FUNCTION', x)
            elif isinstance(x, ast.AsyncFunctionDef):
                define(x.name, 'ASYNC_FUNCTION', x)
            elif isinstance(x, ast.ClassDef):
                define(x.name, 'CLASS', x)
                bases = module.bases[(*parent, x.name)] = []
                for b in x.bases:
                    met = self.first(path, parent, dotted(
                        b.value if isinstance(b, ast.Subscript) else b))
                    if met in SPECIAL:
                        if isinstance(b, ast.Subscript):
                            module.declared[(*parent, x.name)] = [
                                dotted(a) for a in arguments(b)]
                        continue
                    if met == NAMED_TUPLE:
                        bases.append(NAMED_TUPLE)
                        module.nodes[(*parent, x.name, '__new__')] = [
                            constructor(x)]
                    else:
                        bases.append(b)
                self.body(path, module, (*parent, x.name), x.body)
            elif isinstance(x, (ast.Assign, ast.AnnAssign)):
                names = (dotted(x.value)
                         if x.value is not None else None)
                kind = ('ASSIGNMENT' if isinstance(x, ast.Assign)
                        else 'ANNOTATED_ASSIGNMENT')
                for target in (x.targets if isinstance(x, ast.Assign)
                               else [x.target]):
                    if names is None:
                        define(target.id, kind, x)
                    else:
                        refer((target.id,),
                              *self.first(path, parent, names), x)
            elif isinstance(x, ast.If):
                self.body(path, module, parent,
                          x.body if self.condition(x.test) else x.orelse)
            elif isinstance(x, ast.Import):
                for a in x.names:
                    parts = tuple(a.name.split('.'))
                    if a.asname is not None:
                        refer((a.asname,), parts, (), x)
                        continue
                    for n in range(1, len(parts) + 1):
                        refer(parts[:n], parts[:n], (), x)
            elif isinstance(x, ast.ImportFrom):
                source = tuple(x.module.split('.')) if x.module else ()
                if x.level:
                    package = (path if '.'.join(path) in self.packages
                               else path[:-1])
                    package = package[:len(package) - (x.level - 1)]
                    source = package + source
                for a in x.names:
                    if a.name == '*':
                        module.submodules.append(source)
                    else:
                        refer((a.asname or a.name,), source, (a.name,), x)

    def parameters(self, path, key):
        """Parameters of the generic."""
        module = self.modules[path]
        if key in module.declared:
            return module.declared[key]
        return list(dict.fromkeys(
            names for b in module.bases[key] if isinstance(b, ast.Subscript)
            for names in self.variables(path, key[:-1], b)))

    def variables(self, path, parent, node):
        """Type variables in the order of appearance."""
        for a in arguments(node):
            if isinstance(a, ast.Subscript):
                yield from self.variables(path, parent, a)
                continue
            names = dotted(a)
            met = names and self.definition(path, parent, names)
            if met is None or met[0] not in self.modules:
                continue
            nodes = self.modules[met[0]].statements.get(met[1], [])
            if (len(nodes) == 1 and isinstance(nodes[0], ast.Assign)
                    and isinstance(nodes[0].value, ast.Call)
                    and self.definition(met[0], (),
                                        dotted(nodes[0].value.func))
                    in TYPE_VARS):
                yield names

    def first(self, path, parent, names):
        """Where the names are met first, see ``definition``."""
        module = self.module(path)
        scope = module.definitions
        for part in parent:
            scope = scope[part]
        if names[0] in scope:
            return path, (*parent, *names)
        if names[0] in module.definitions:
            return path, names
        for sub in module.submodules:
            r = self.first(sub, (), names)
            if r is not None and r[0] != ('builtins',):
                return r
        for n in range(len(names), 0, -1):
            if names[:n] in module.references:
                m, o = module.references[names[:n]]
                return m, o + names[n:]
        builtins = self.module(('builtins',)).definitions
        return (('builtins',), names) if names[0] in builtins else None

    def definition(self, path, parent, names):
        """Module and path the names are defined at."""
        seen = set()
        while True:
            r = self.first(path, parent, names)
            if r is None:
                return r
            (path, names), parent = r, ()
            if r in seen:
                # packages import their modules
                if not names or (*path, names[0]) not in self.trees:
                    return r
                path, names = (*path, names[0]), names[1:]
            seen.add(r)
            if (not names or names[0] in self.module(path).definitions):
                return path, names
            if self.module(path).submodules and r == (path, names):
                continue


def arguments(node):
    item = node.slice
    return item.elts if isinstance(item, ast.Tuple) else [item]


def dotted(node):
    if isinstance(node, ast.Name):
        return (node.id,)
    if isinstance(node, ast.Attribute):
        value = dotted(node.value)
        return None if value is None else (*value, node.attr)
    return None


def constructor(node):
    """Signature of named tuple's constructor."""
    fields = [x for x in node.body if isinstance(x, ast.AnnAssign)]
    return (['cls'] + [x.target.id for x in fields],
            [None] + [ast.dump(x.annotation, annotate_fields=False)
                      for x in fields],
            [ast.dump(x.value, annotate_fields=False) for x in fields
             if x.value is not None])


def read_constructor(raw):
    """Same of what was recorded."""
    node = eval(raw, {k: x for k, x in vars(ast).items()
                      if k != 'Ellipsis'})
    a = node.args
    if a.posonlyargs or a.kwonlyargs or a.vararg or a.kwarg:
        return ast.dump(node)
    return ([x.arg for x in a.args],
            [x.annotation and ast.dump(x.annotation, annotate_fields=False)
             for x in a.args],
            [ast.dump(x, annotate_fields=False) for x in a.defaults])


def condition(assignment):
    """Evaluator of tests of conditional blocks."""
    def test(node):
        if isinstance(node, ast.BoolOp):
            return (all if isinstance(node.op, ast.And) else any)(
                map(test, node.values))
        if isinstance(node, ast.UnaryOp):
            return not test(node.operand)
        name = ast.unparse(node)
        if name in assignment:
            return assignment[name]
        return bool(eval(name, {'sys': sys}))

    return test


TYPING = '''
TypeVar: object
ParamSpec: object
NewType: object
Generic: object
Protocol: object
Any = object()
class NamedTuple:
    def _asdict(self) -> dict: ...
'''
BUILTINS = '''
class object:
    def __init__(self) -> None: ...
class int: ...
class str: ...
class dict: ...
class type: ...
'''
SYS = '''
version_info: tuple
platform: str
a: int
b: int
c: int
'''
BASE = {'builtins': BUILTINS, 'typing': TYPING, 'sys': SYS}
UNIVERSES = {
    'definitions': dict(BASE, m='''
def f(x: int) -> str: ...
def f(x: str) -> int: ...
async def g(x, /, y=..., *z, u, **v): ...
x: int
y: str = ...
z = 5
u = v = dict()
class A:
    a: int
    b = 1
    def f(self, x: int) -> int: ...
    def f(self, x: str) -> str: ...
    async def g(self): ...
    class B(str):
        a: str
        def f(self, y): ...
        class C:
            def f(self): ...
        class D(C):
            def g(self): ...
        class E(D): ...
        class F(str, E): ...
    class G(B): ...
    def h(self): ...
def A_f(): ...
class B(A):
    x: int
class C(A.B, B): ...
def f(): ...
async def f2(): ...
def f2(): ...
class D:
    def D(self): ...
class E(D):
    def E(self): ...
    def f(self): ...
'''),
    'imports': dict(BASE, **{
        'p': '''
from . import m as pm, n
from .m import A, B as PB
from .s import *
import p.s.k
import sys as system
def own(): ...
from .o import *
from .m import *
deep_alias = p.s.k.K
near_alias = system.platform
''', 'p.o': 'class C: ...\nclass O(C): ...\n', 'p.m': '''
from . import n
from .n import N as NN, M
from p.n import N as N2
from .s.k import deep
class A: ...
class B(NN): ...
class C(A): ...
''', 'p.n': '''
class N: ...
class M(N):
    def f(self): ...
''', 'p.s': '''
from . import k
from .k import K, deep as deeper
from .. import n as up
from ..m import A as UpA
from ..n import *
class S(K): ...
class T(M): ...
''', 'p.s.k': '''
from .. import n
from ..m import A
from . import *
import p.m, p.n as pn
def deep(): ...
class K(A): ...
class L(pn.N): ...
class P(p.m.B): ...
''', 'p.s.d': '''
from ... import n as far
from ...m import A as FarA
from .e import E
class D(FarA): ...
''', 'p.s.d.e': '''
from ... import n as far
from ...n import N as FarN
from ..k import K as UpK
class E(FarN): ...
class F(far.M): ...
''', 'q': '''
import p.s.k as psk, sys
from p import *
from sys import version_info as vi, platform
class Q(psk.K): ...
class R(own): ...
class T(C): ...
class U(O): ...
'''}),
    'aliases': dict(BASE, **{'n': '''
class X:
    def f(self): ...
def g(): ...
''', 'm': '''
import n
import n as nn
from n import X, g as gg
from p import *
def f(): ...
class A:
    def m(self): ...
    class I: ...
a = f
b = a
d = e = A
h = A.m
i = n.X
j = nn.g
k = X.f
l = gg
o = int
p_ = s
q: int = f
r: type = A.I
t: type
class B(d): ...
class C(i): ...
class D(X, b): ...
class E(p_): ...
class F(A.I): ...
class G(str, X): ...
''', 'p': '''
class s: ...
class S(s): ...
'''}),
    'conditions': dict(BASE, m='''
import sys
from sys import c as see
if sys.version_info >= (3, 8):
    def new(): ...
    from n import X
else:
    def old(): ...
    X: int
if sys.version_info >= (3, 99):
    def future(): ...
elif sys.version_info >= (3, 9):
    def now(): ...
else:
    def past(): ...
if sys.platform == "win32":
    def win(): ...
    class Win: ...
    from n import Win2
    import n as win3
    win4 = X
    win5: int
if sys.platform != "win32" and sys.version_info < (3, 99):
    def unix(): ...
if sys.a:
    def f(): ...
    x: int
    class K: ...
else:
    def f(x): ...
    x = 5
    from n import X as K
if sys.a and not sys.b:
    def g(): ...
elif see:
    async def g(): ...
    def g2(): ...
else:
    g: int
if sys.b or see:
    if not sys.a:
        def h(): ...
    def h(x): ...
class A:
    if sys.a:
        def f(self): ...
        def f(self, x): ...
        if sys.b:
            y: int
        else:
            def y(self): ...
    elif sys.b:
        f: int
    else:
        class f: ...
    def g(self): ...
if sys.c:
    from n import *
    class B(A): ...
else:
    class B(X): ...
if see:
    z = A
else:
    def z(): ...
''', n='class X: ...\ndef N(): ...\n'),
    'tuples': dict(BASE, m='''
import typing
from typing import NamedTuple, Protocol
class A(NamedTuple):
    x: int
    y: str
    def f(self): ...
class B(typing.NamedTuple):
    a: int
    b: dict = ...
    c: str = 'c'
class O:
    class I(NamedTuple):
        z: int
class P(Protocol):
    def f(self): ...
class Q(P, Protocol): ...
class R(A):
    w: int
''', n='''
import sys
from m import A
from typing import NamedTuple as NT
class T(NT):
    if sys.a:
        def x(self): ...
    y: int
class S(A, T): ...
'''),
}


GENERIC = """
from typing import Any, Generic, Protocol, TypeVar
import typing
_T = TypeVar('_T')
_K = TypeVar('_K')
_V: typing.Any = typing.TypeVar('_V')
class Local: ...
class Other(Local): ...
class S(Generic[_T]):
    def f(self, x: _T) -> int: ...
    def f(self, x: str) -> _T: ...
    y: _T
    z = dict()
    async def g(self, x: dict[_T, Local], *y: _T, z: Other = ...) -> S[_T]: ...
class Plain:
    def p(self) -> Local: ...
class Two(S[_K], Generic[_T, _K]):
    def t(self, a: _T, b: _K) -> dict[_K, _T]: ...
class Mixed(Plain, S[_T]):
    def w(self, x: _T) -> Plain: ...
class Deep(Two[_K, S[_T]], Protocol[_T, _K]):
    def d(self, x: _T) -> _K: ...
class Fixed(Two[_T, Local]):
    def x(self) -> _T: ...
"""
GENERICS = {
    'generics': dict(BASE, m=GENERIC, n="""
class X: ...
class Y(X):
    class Z: ...
""", u="""
from m import *
from m import S as MS, Two
from n import X, Y as W
import m, n
from typing import TypeVar
_P = TypeVar('_P')
class A(S[int]): ...
class B(Two[int, X]): ...
class C(m.S[n.X]): ...
class D(MS[MS[X]]):
    def own(self): ...
class E(Mixed[W]): ...
class F(Two[X, X]): ...
class G(Deep[str, X]): ...
class H(Fixed[W]): ...
class I(S[W.Z], Mixed[X]): ...
class J(Two[_P, int]):
    def j(self, x: _P): ...
class K(J[X]): ...
class L(S[dict[str, X]], m.Plain): ...
class M(S[X]): ...
class N(S[X | None]): ...
"""),
    'order': dict(BASE, m=GENERIC, a="""
from m import S, Two, Mixed, Deep
class X: ...
class A(Two[int, X]): ...
class B(S[X]): ...
class C(Deep[X, X]): ...
class D(Two[X, S[X]]): ...
class E(S[S[X]]): ...
class O:
    class I(S[X]): ...
class F(S[X], Mixed[X]): ...
""", b="""
from m import S, Two as T2
class X:
    def other(self): ...
class A(T2[X, int]): ...
class B(S[X]): ...
""", p="""
from a import X
from .k import S
class A(S[X]): ...
class B(S[S[X]]): ...
""", **{'p.k': """
from typing import TypeVar, Generic
from b import X
T = TypeVar('T')
class S(Generic[T]):
    def s(self, x: T) -> T: ...
class A(S[X]): ...
"""}),
    'parameters': dict(BASE, typing_extensions='''
from typing import TypeVar as TypeVar
class ParamSpec: ...
''', k='''
from typing import Generic, NewType, ParamSpec, TypeVar
import typing_extensions as te
from typing_extensions import ParamSpec as _PS
from builtins import int as number
P = ParamSpec('P')
Q = _PS('Q')
R = TypeVar('R')
V = te.ParamSpec('V')
N = NewType('N', object)
class Named: ...
class A(Generic[P, R]):
    def a(self, f: dict[P, R]) -> R: ...
    def a(self, *args: P.args, **kwargs: P.kwargs) -> number: ...
class B(A[Q, R]):
    def b(self, *args: Q.args, **kwargs: Q.kwargs) -> N: ...
class C(A[N, R], Generic[R, V]):
    def c(self, f: dict[V, R]) -> N: ...
class D(A[dict[R, dict[int, V]], N]):
    def d(self, f: dict[V, R]) -> dict[N, number]: ...
class E(Generic[R]):
    def e(self, x: R) -> N: ...
    def e(self) -> number: ...
class F(Generic[R, P], E[dict[P, R]]):
    def f(self, x: R) -> P: ...
class H(A[N, R]):
    def h(self, x: R) -> N: ...
class G(A[P, dict[int, R]]):
    def g(self, x: R) -> P: ...
''', l='''
from k import A, B, C, D, E, F, G, H, P, R
from typing import Generic, TypeVar
T = TypeVar('T')
class X: ...
class Named: ...
class I(A[P, R]): ...
class J(A[P, X]): ...
class K(B[P, Named]): ...
class Q(F[X, P]): ...
class S(G[P, X]): ...
class U(H[X]): ...
class L(C[X, P]): ...
class M(D[X, P]): ...
class N(Generic[T], E[Named]):
    def n(self) -> T: ...
class O(E[T]):
    def o(self, x: T) -> X: ...
''', o='''
from l import N, O, Named as Other
from k import R
class Named: ...
class T: ...
class X(N[T]): ...
class Y(N[int]): ...
class Z(O[Other]): ...
'''),
    # arguments of generics' bases are named where generics are
    'inner': dict(BASE, k='''
from typing import Generic, TypeVar
T = TypeVar('T')
class Item(Generic[T]):
    def i(self, x: T) -> T: ...
''', l='''
from k import Item, T
from typing import Generic
class Named: ...
class Pair(Generic[T], Item[dict[Named, T]]):
    def p(self) -> T: ...
''', o='''
from l import Pair
class Q: ...
class Z(Pair[Q]): ...
'''),
    'shadowed': dict(BASE, k='''
from typing import Generic, TypeVar
T = TypeVar('T')
class Named: ...
class E(Generic[T]):
    def e(self, x: T) -> Named: ...
''', l='''
from k import E
class Named: ...
class N(E[Named]): ...
'''),
    'own names': dict(BASE, k='''
from typing import Generic, TypeVar
T = TypeVar('T')
class Other: ...
class E(Generic[T]):
    S = TypeVar('S')
    LIMIT: int = 5
    def e(self: S, x: T = LIMIT) -> S: ...
    y: S
    def f(self, x: Other) -> T: ...
class F(E[T]):
    LIMIT: int = 6
    def g(self, x: T = LIMIT) -> Other: ...
class Q(Generic[T]):
    T: int
    x: int
''', l='''
from k import E, F, Q
class O(Q[str]): ...
class S: ...
class N(E[int]): ...
class M(F[S]): ...
'''),
    'spelled alike': dict(BASE, k='''
from typing import Generic, TypeVar
T = TypeVar('T')
U = TypeVar('U')
class E(Generic[T]):
    def e(self) -> T: ...
class P(Generic[T, U]):
    def t(self) -> T: ...
    def u(self) -> U: ...
class a:
    class b: ...
    class b_c: ...
class a_b:
    class c: ...
class a_b_c: ...
class E_getitem_a: ...
class a_bitor_a_b: ...
''', l='''
from k import E, P, a, a_b, a_b_c, E_getitem_a, a_bitor_a_b
class A(E[a.b]): ...
class B(E[a_b]): ...
class C(E[a_b.c]): ...
class D(E[a.b_c]): ...
class F(E[a_b_c]): ...
class G(E[E[a]]): ...
class H(E[E_getitem_a]): ...
class I(P[dict[int], dict[str, object]]): ...
class J(P[dict[int, dict[str]], object]): ...
class K(E[a | a_b]): ...
class L(E[a_bitor_a_b]): ...
class M(P[a, a_b]): ...
class N(P[a_b, a]): ...
class O(E[a_b | a]): ...
'''),
    'classes of generics': dict(BASE, k='''
from typing import Generic, TypeVar
T = TypeVar('T')
class E(Generic[T]):
    class F: ...
    def e(self) -> T: ...
class N(E[int]): ...
'''),
    'names': dict(BASE, g="""
from typing import Generic, TypeVar
from builtins import dict as table
import builtins
T = TypeVar('T')
U = TypeVar('U')
class Named: ...
class Item(Generic[T]):
    def item(self, x: T) -> Named: ...
class Base(Item[Named], Generic[T, U]):
    def get(self, x: U) -> table[T, U]: ...
    def put(self, x: builtins.int, y: T): ...
class Sub(Base[Named, T]):
    def sub(self) -> T: ...
""", h="""
from g import Base, Sub
from builtins import str as text
from n import Q as Other
class A(Base[text, Other]): ...
class B(Sub[Other]): ...
class C(Base[Other, text]): ...
""", n="""
class Q: ...
class Named: ...
""", i="""
from n import *
import g
class A(g.Sub[Q]): ...
class B(g.Base[g.Named, Q]): ...
"""),
    'conditional': dict(BASE, g="""
import sys
from typing import Generic, TypeVar
T = TypeVar('T')
class S(Generic[T]):
    if sys.a:
        def f(self, x: T) -> T: ...
    else:
        def f(self) -> T: ...
        def g(self, x: T): ...
""", h="""
import sys
from g import S
if sys.b:
    from n import X
else:
    class X: ...
class A(S[X]): ...
if sys.a:
    class B(S[A]): ...
""", n='class X: ...\n'),
}
