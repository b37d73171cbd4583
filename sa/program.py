"""Entities of the analysed program and static types of values."""
import ast
import os

from . import val
from .val import (B, FALSE, TRUE, V, c, mk, ref, typ)


class ModuleInfo:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.qualname = name
        self.vars = {}
        self.data = set()    # names of data computed when loading
        self.ready = False

    def __repr__(self):
        return f'<module {self.name}>'


class ClassInfo:
    def __init__(self, name, qualname, module, node):
        self.name, self.qualname, self.module = name, qualname, module
        self.node = node
        self.bases = []
        self.ns = {}
        self.annotations = {}
        self.final = False
        self.members = None
        self.subclasses = []

    def mro(self):
        result, seen = [], set()

        def go(k):
            if k in seen:
                return
            seen.add(k)
            result.append(k)
            for b in k.bases:
                if b.op == 'cls':
                    go(b.args[0])

        go(self)
        return result

    def lookup(self, name, after=None):
        classes = self.mro()
        if after is not None:
            classes = (classes[classes.index(after) + 1:]
                       if after in classes else [])
        for k in classes:
            if name in k.ns:
                return k.ns[name]
        return None

    def field_annotation(self, name):
        for k in self.mro():
            if name in k.annotations:
                return k, k.annotations[name]
        return None, None

    def external_bases(self):
        r = []
        for k in self.mro():
            r.extend(b for b in k.bases if b.op != 'cls')
        return r

    def is_exception(self):
        return any(b.op == 'ref' and is_builtin_exception(b.args[0])
                   for b in self.external_bases())

    def subclass_of(self, other):
        return other in self.mro()

    def __repr__(self):
        return f'<class {self.qualname}>'


def is_builtin_exception(dotted):
    import builtins
    name = dotted[len('builtins.'):] if dotted.startswith('builtins.') else ''
    k = getattr(builtins, name, None)
    return isinstance(k, type) and issubclass(k, BaseException)


class FuncInfo:
    def __init__(self, node, module, qualname, cls=None, frame=None):
        self.node, self.module, self.qualname = node, module, qualname
        self.cls, self.frame = cls, frame
        self.defaults = {}
        self.kind = 'function'   # or 'static', 'class'
        self.is_generator = (not isinstance(node, ast.Lambda)
                             and contains_yield(node))
        self.locals = None
        self.loops = None

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def key(self):
        return f'{self.module.name}:{self.qualname}'

    def __repr__(self):
        return f'<function {self.qualname}>'


def contains_yield(node):
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                          ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class DispatchInfo:
    """Single dispatch function with its registry."""

    def __init__(self, func, name):
        self.func, self.name = func, name
        self.qualname = name
        self.registry = []       # pairs of type values and functions

    def __repr__(self):
        return f'<dispatch {self.name}>'

    def get(self, type_v):
        for t, f in reversed(self.registry):
            if t is type_v:
                return f
        return None


# --- files of the program

def load_modules(root, package='paradigm'):
    """Parses every module of the package."""
    result = {}
    base = os.path.join(root, package)
    for directory, names, files in os.walk(base):
        names[:] = sorted(n for n in names if n != '__pycache__')
        for f in sorted(files):
            if not f.endswith('.py') or f.startswith('_mypy_'):
                continue
            path = os.path.join(directory, f)
            parts = os.path.relpath(path, root)[:-3].split(os.sep)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            with open(path, encoding='utf-8') as file:
                source = file.read()
            name = '.'.join(parts)
            m = ModuleInfo(name, path, ast.parse(source, path))
            m.is_package = f == '__init__.py'
            m.source = source
            result[name] = m
    return result


# --- types of values

SEQUENCES = {'Sequence': 'tuple', 'Tuple': 'tuple', 'List': 'list',
             'Iterable': 'list', 'Collection': 'list', 'Container': 'list',
             'Iterator': 'list', 'tuple': 'tuple', 'list': 'list',
             'Generator': 'list'}
MAPPINGS = {'Dict', 'Mapping', 'MutableMapping', 'dict', 'DefaultDict'}
SETS = {'Set', 'FrozenSet', 'AbstractSet', 'set', 'frozenset'}


def type_from_value(v):
    """Static type described by the value of an annotation."""
    if v is None:
        return None
    if v.op == 'cls':
        k = v.args[0]
        return ('enum', k) if k.members is not None else ('cls', k)
    if v.op == 'member':
        return ('enum', v.args[0])
    if v.op == 'ref':
        last = v.args[0].rsplit('.', 1)[-1]
        if v.args[0] in ('builtins.str', 'builtins.int', 'builtins.bool',
                         'builtins.bytes'):
            return ('ext', last)
        if v.args[0].startswith(('typing.', 'typing_extensions.',
                                 'builtins.')):
            if last in SEQUENCES:
                return ('seq', None, SEQUENCES[last])
            if last in MAPPINGS:
                return ('map', None, None)
            if last in SETS:
                return ('set', None)
            if last in ('Any', 'object', 'Self', 'TypeVar'):
                return None
        return ('ext', v.args[0])
    if v.op == 'getitem' and v.args[0].op == 'ref':
        head, arg = v.args
        name = head.args[0].rsplit('.', 1)[-1]
        items = (val.static_items(arg)
                 if arg.op == 'seq' and arg.args[0] == 'tuple' else [arg])
        if items is None:
            return None
        if name in SEQUENCES:
            if name in ('Tuple', 'tuple'):
                if len(items) == 2 and items[1] is c(Ellipsis):
                    return ('seq', type_from_value(items[0]), 'tuple')
                return ('seq', None, 'tuple')
            return ('seq', type_from_value(items[0]), SEQUENCES[name])
        if name in MAPPINGS and len(items) == 2:
            return ('map', type_from_value(items[0]),
                    type_from_value(items[1]))
        if name in SETS:
            return ('set', type_from_value(items[0]))
        if name in ('Final', 'ClassVar', 'TypeGuard'):
            return type_from_value(items[0])
        if name == 'Literal':
            types = {type_from_value(x) for x in items}
            return types.pop() if len(types) == 1 else None
        if name == 'Union':
            types = [type_from_value(x) for x in items]
            flat = []
            for t in types:
                if t is not None and t[0] == 'union':
                    flat.extend(t[1])
                elif t is not None and t[0] == 'cls':
                    flat.append(t[1])
                else:
                    return None
            return ('union', tuple(sorted(set(flat),
                                          key=lambda k: k.qualname)))
    return None
