"""Syntax trees as objects of the analysed program.

Module `ast` is replaced by a model of it written in Python (its text is made
here), so that visitors, transformers and copies of nodes are interpreted as
anything else is: nodes are allocated objects which may be shared and changed.
"""
import ast
import contextlib
from pathlib import PurePosixPath

from . import program
from .interp import Frame
from .val import (B, FALSE, G, NONE, TRUE, TRUE_V, c, cv, is_c, mk, mkseq,
                  pair_of, ref, seq, sym, unk)


CORE = 'paradigm._core.'
PACKAGES = {'p', 'p.s', 'p.s.d', 'q'}
ATTRIBUTES = {
    'sys.platform': c('linux'),
    'sys.implementation.name': c('cpython'),
    'mypy.version.__version__': c('1.6.1'),
    'mypy.__name__': c('mypy'),
    'importlib.machinery.SOURCE_SUFFIXES': c(('.py',)),
}
HEAD = '''
class AST:
    _fields = ()


def iter_child_nodes(node):
    result = []
    for name in node._fields:
        value = getattr(node, name, None)
        if isinstance(value, list):
            for item in value:
                if isinstance(item, AST):
                    result.append(item)
        elif isinstance(value, AST):
            result.append(value)
    return result


def iter_fields(node):
    result = []
    for name in node._fields:
        result.append((name, getattr(node, name, None)))
    return result


def walk(node):
    result = [node]
    for child in iter_child_nodes(node):
        result.extend(walk(child))
    return result


def copy_location(new_node, old_node):
    return new_node


def fix_missing_locations(node):
    return node


class NodeVisitor:
    def visit(self, node):
        visitor = getattr(self, 'visit_' + node._name, self.generic_visit)
        return visitor(node)

    def generic_visit(self, node):
        for name in node._fields:
            value = getattr(node, name, None)
            if isinstance(value, list):
                for item in value:
                    if isinstance(item, AST):
                        self.visit(item)
            elif isinstance(value, AST):
                self.visit(value)


class NodeTransformer(NodeVisitor):
    def generic_visit(self, node):
        for name in node._fields:
            value = getattr(node, name, None)
            if isinstance(value, list):
                items = []
                for item in value:
                    if isinstance(item, AST):
                        item = self.visit(item)
                        if item is None:
                            continue
                        if isinstance(item, list):
                            items.extend(item)
                            continue
                    items.append(item)
                value[:] = items
            elif isinstance(value, AST):
                changed = self.visit(value)
                setattr(node, name, changed)
        return node
'''
DEPRECATED = {'Str': 's', 'Num': 'n', 'Bytes': 's', 'NameConstant': 'value'}


def source():
    """Text of the model."""
    lines = [HEAD]
    done = {'AST'}

    def declare(k):
        if k.__name__ in done:
            return
        [base, *_] = k.__bases__
        if base is not object:
            declare(base)
        done.add(k.__name__)
        lines.append(f'\n\nclass {k.__name__}({base.__name__}):')

        lines.append(f'    _name = {k.__name__!r}')
        lines.append(f'    _fields = {k._fields!r}')
        if k._fields:
            lines.append('    def __init__(self, '
                         + ', '.join(f'{n}=None' for n in k._fields) + '):')
            lines.extend(f'        self.{n} = {n}' for n in k._fields)

    for name, k in sorted(vars(ast).items()):
        if (isinstance(k, type) and issubclass(k, ast.AST)
                and k.__module__ in ('ast', '_ast') and name not in DEPRECATED and name != 'Ellipsis'
                and k.__name__ == name):
            declare(k)
    for name, field in DEPRECATED.items():
        lines.append(f'''

class {name}(Constant):
    _name = 'Constant'
    def __init__(self, {field}=None):
        self.value = {field}
        self.kind = None
''')
    lines.append('''

class Ellipsis(Constant):
    _name = 'Constant'
    def __init__(self):
        self.value = ...
        self.kind = None
''')
    return '\n'.join(lines)


def install(it):
    """Makes the program use the model."""
    tree = ast.parse(source())
    module = program.ModuleInfo('ast', '<model of ast>', tree)
    module.is_package = False
    it.modules['ast'] = module
    return it.module('ast')


def allocate(it, node):
    """Object for the node of a real tree."""
    if isinstance(node, list):
        return it.new_loc(mkseq('list', [('i', G(TRUE), allocate(it, x))
                                         for x in node]))
    if not isinstance(node, ast.AST):
        return c(node)
    k = it.modules['ast'].vars[type(node).__name__].args[0]
    return it.new_loc(mk('new', k, tuple(sorted(
        (name, allocate(it, getattr(node, name, None)))
        for name in node._fields))))


def deep_copy(it, v):
    copies = {}

    def copy(v):
        if v.op == 'loc':
            if v not in copies:
                copies[v] = it.new_loc(None)
                it.heap[copies[v]] = copy(it.heap[v])
            return copies[v]
        if v.op == 'new':
            return mk('new', v.args[0], tuple((n, copy(x))
                                              for n, x in v.args[1]))
        if v.op == 'seq':
            return mkseq(v.args[0], [copy_part(p) for p in v.args[1]])
        return v

    def copy_part(p):
        return (p[0], p[1], copy(p[2])) if p[0] == 'i' else p

    return copy(v)


def restore(it, v):
    """Real tree of the object, ValueError if it is not definite."""
    if v.op == 'loc':
        v = it.heap[v]
    if is_c(v):
        return cv(v)
    if v == ref('builtins.Ellipsis'):
        return ...
    if v.op == 'seq' and v.args[0] in ('list', 'tuple'):
        result = []
        for p in v.args[1]:
            if p[0] != 'i' or p[1].b != TRUE:
                raise ValueError(v)
            result.append(restore(it, p[2]))
        return result
    if v.op == 'new':
        name = v.args[0].name
        if name in DEPRECATED or name == 'Ellipsis':
            name = 'Constant'
        k = getattr(ast, name)
        return k(**{n: restore(it, x) for n, x in v.args[1]
                    if n in k._fields})
    raise ValueError(v)


class Trees:
    """Syntax trees of the program, printed and read back."""

    def __init__(self, it):
        self.it = it
        self.model = install(it)
        for name in ('parse', 'dump'):
            self.model.vars[name] = ref('ast.' + name)
        self.results = {'ast.dump': self.dump, 'builtins.eval': self.evaluate,
                        'builtins.vars': self.names}

    def names(self, it, args, r):
        if (len(args) == 1 and args[0].op == 'module'
                and args[0].args[0] in ('ast', self.it.modules['ast'])):
            return it.new_loc(mkseq('dict', [
                ('i', G(TRUE), seq('tuple', [
                    c(k), self.model.vars.get(k) or ref('ast.' + k)]))
                for k in dict.fromkeys([*vars(ast), *DEPRECATED,
                                        'Ellipsis'])]))
        return r

    def dump(self, it, args, r):
        try:
            tree = restore(it, args[0])
        except ValueError:
            return r
        named = dict(zip(['annotate_fields', 'include_attributes'],
                         args[1:]), **dict(r.args[2]))
        return c(ast.dump(tree, **{k: cv(x) for k, x in named.items()
                                   if is_c(x)}))

    def evaluate(self, it, args, r):
        text, *namespaces = args
        if not (is_c(text) and len(namespaces) == 1):
            return r
        with self.frame(namespaces[0]):
            return it.eval(ast.parse(cv(text), mode='eval').body)

    @contextlib.contextmanager
    def frame(self, namespace):
        it = self.it
        module = program.ModuleInfo('<executed>', '<executed>', None)
        module.ready = True
        frame = Frame(None, None, module, it.alive)
        module.closed = True
        for p in it.dict_parts(namespace):
            module.closed &= p[0] == 'i' and is_c(pair_of(p[2])[0])
            if p[0] == 'i':
                k, x = pair_of(p[2])
                if is_c(k):
                    frame.vars[cv(k)] = (
                        x if p[1].b == TRUE
                        else unk(f'{cv(k)} might be not in the namespace'))
        saved, it.frame = it.frame, frame
        try:
            yield frame
        finally:
            it.frame = saved


def satisfiable(guard):
    """Whether it is certainly so for some values of what is symbolic."""
    return guard == TRUE or guard != FALSE and all(
        a.op == '@truth' and a.args[0].op == 'sym'
        for a in B.support(guard))


class World(Trees):
    """Stub modules with given sources, parsed by the program."""

    def __init__(self, it, modules):
        super().__init__(it)
        self.texts, self.saved = {}, None
        config = it.config
        config.recursion, config.unroll, config.endless = 30, 64, True
        config.snapshots = False
        config.opaque |= {CORE + 'caching:load', CORE + 'caching:save',
                          CORE + 'execution:call_in_process',
                          CORE + 'execution:is_main_process'}
        config.results.update({
            CORE + 'caching:load': self.load,
            CORE + 'caching:save': self.save,
            CORE + 'execution:call_in_process': self.delegate,
            CORE + 'execution:is_main_process': lambda *_: TRUE_V,
            '.read_text': self.read, 'ast.parse': self.parse,
            'copy.deepcopy': lambda it, args, r: deep_copy(it, args[0]),
        })
        config.results.update(self.results)
        config.results.update({
            'builtins.compile': self.compile, 'builtins.exec': self.execute,
            'importlib.import_module': self.import_module,
        })
        it.exact[CORE + 'stubs'] = config
        it.attributes.update(ATTRIBUTES)
        sources = it.module(CORE + 'sources')
        paths = {}
        for name, text in modules.items():
            # what stubs declare there is
            for x in ast.parse(text).body:
                if isinstance(x, ast.AnnAssign):
                    n = f'{name}.{x.target.id}'
                    it.known[ref(name), x.target.id] = (
                        sym(n) if isinstance(x.annotation, ast.Name)
                        and x.annotation.id == 'int'
                        else ATTRIBUTES.get(n, ref(n)))
            path = PurePosixPath('/stubs', *name.split('.'))
            path = (path / '__init__.pyi' if name in PACKAGES
                    else path.with_suffix('.pyi'))
            self.texts[path] = text
            paths[tuple(name.split('.'))] = path
        sources.vars['_stubs_cache'] = mkseq('dict', [
            ('i', G(TRUE), seq('tuple', [c(k), c(x)]))
            for k, x in paths.items()])
        sources.vars['stubs_stdlib_modules_paths'] = mkseq('set', [
            ('i', G(TRUE), c(k)) for k in paths])
        it.modules[CORE + 'stubs'].vars['__file__'] = c('/core/stubs.py')
        self.stubs = it.module(CORE + 'stubs')

    def failed(self):
        """Whether parsing certainly ends with an exception."""
        return (not self.it.notes and not self.it.lost
                and any(satisfiable(g) and x.op in ('ref', 'cls', 'exc',
                                                    'call', 'new')
                        for g, x in self.stubs.escapes))

    def import_module(self, it, args, r):
        name = it.resolve(args[0])
        return ref(cv(name)) if is_c(name) else r

    def load(self, it, args, r):
        it.raise_(it.alive, ref('builtins.Exception'))
        return r

    def save(self, it, args, r):
        self.saved = {k: it.resolve(x) for k, x in it.keywords
                      if k != 'path'}
        return NONE

    def delegate(self, it, args, r):
        function, *rest = args
        return it.call_value(function, rest, {}, [])

    def read(self, it, args, r):
        path = it.resolve(args[0])
        if is_c(path) and cv(path) in self.texts:
            return c(self.texts[cv(path)])
        return r

    def parse(self, it, args, r):
        text = it.resolve(args[0])
        if is_c(text) and isinstance(cv(text), str):
            return allocate(it, ast.parse(cv(text)))
        return r

    def compile(self, it, args, r):
        return mk('call', ref('builtins.compile'), (args[0],), ())

    def execute(self, it, args, r):
        code, *namespaces = args
        if not (code.op == 'call' and code.args[0].args[0].endswith('compile')
                and len(namespaces) == 1):
            return r
        try:
            tree = restore(it, code.args[1][0])
        except ValueError:
            it.notes.append('what is executed is not definite')
            return r
        [namespace] = namespaces
        with self.frame(namespace) as frame:
            before = dict(frame.vars)
            for statement in tree.body:
                it.exec_stmt(statement)
        for name, x in frame.vars.items():
            if x is not before.get(name):
                it.setitem(namespace, c(name), x)
        return NONE
