"""Exceptions of given classes that may escape from functions.

Flow of exceptions over the call graph: raises and calls are collected with
the handlers around them; calls are resolved through the values of the modules
(functions, single dispatch functions with all of their implementations,
methods by name), fixed point over the whole program.
"""
import ast

from . import val


class Site:
    """Place an exception comes from, next one on the way to it."""

    def __init__(self, exc, module, line, via=None):
        self.exc, self.module, self.line, self.via = exc, module, line, via


class Escapes:
    def __init__(self, it, targets):
        self.it = it
        self.targets = set(targets)        # ClassInfo
        self.result = {}                   # FuncInfo -> {ClassInfo: text}
        self.changed = True
        self.methods = {}
        self.calls = 0
        for m in it.modules.values():
            for v in list(m.vars.values()):
                if isinstance(v, val.V) and v.op == 'cls':
                    k = v.args[0]
                    if k.module is m:
                        for name, f in k.ns.items():
                            for i in funcs(f):
                                self.methods.setdefault(name, []).append(i)

    def of(self, info):
        """Exceptions that escape from the function with their origins."""
        self.pending = {info}
        known = set()
        while True:
            before = {f: set(r) for f, r in self.result.items()}
            known |= self.pending
            self.pending = set()
            for f in list(known):
                self.result[f] = Walk(self, f).run()
            if not (self.pending - known) and before == {
                    f: set(r) for f, r in self.result.items()}:
                return self.result[info]

    def request(self, info):
        self.calls += 1
        self.pending.add(info)
        return self.result.get(info, {})


def funcs(v):
    """Functions a value may denote."""
    if not isinstance(v, val.V):
        return []
    if v.op == 'phi':
        return [f for _, x in val.leaves(v) for f in funcs(x)]
    if v.op == 'func':
        return [v.args[0]]
    if v.op == 'dispatch':
        d = v.args[0]
        return funcs(d.func) + [f for _, g in d.registry for f in funcs(g)]
    if v.op in ('bm', 'static', 'classm', 'prop', 'partialv'):
        return funcs(v.args[0])
    if v.op == 'cls':
        k = v.args[0]
        result = []
        for name in ('__new__', '__init__'):
            result.extend(funcs(k.lookup(name)))
        return result
    return []


class Walk:
    def __init__(self, analysis, info):
        self.a, self.info = analysis, info
        self.local = {}
        node = info.node
        self.body = (node.body if isinstance(node.body, list)
                     else [ast.Expr(node.body)])
        self.params = {x.arg for x in node.args.args + node.args.kwonlyargs
                       + node.args.posonlyargs}
        for s in self.body:
            for n in ast.walk(s):
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.local.setdefault(n.name, []).append(n)
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            self.local.setdefault(t.id, []).append(n.value)
                elif isinstance(n, ast.For) and isinstance(n.target,
                                                           ast.Name):
                    if isinstance(n.iter, (ast.Tuple, ast.List)):
                        self.local.setdefault(n.target.id, []).extend(
                            n.iter.elts)
        self.seen = set()

    def run(self):
        return self.block(self.body, {})

    def name(self, name):
        """Value of a global name."""
        v = self.info.module.vars.get(name)
        if v is None and self.info.frame is not None:
            f = self.info.frame
            while f is not None and v is None:
                v = f.vars.get(name)
                f = f.parent
        return v

    def value(self, node):
        if isinstance(node, ast.Name):
            return self.name(node.id)
        if isinstance(node, ast.Attribute):
            base = self.value(node.value)
            if base is not None and base.op in ('module', 'cls'):
                v = self.a.it.getattr_(base, node.attr)
                return v if v.op != 'unk' else None
        return None

    # --- statements

    def block(self, stmts, caught):
        r = {}
        for s in stmts:
            r.update(self.stmt(s, caught))
        return r

    def stmt(self, s, caught):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef,
                          ast.ClassDef)):
            r = {}
            for d in s.decorator_list:
                r.update(self.expr(d))
            return r
        if isinstance(s, ast.Try):
            inner = self.block(s.body, caught)
            r = {}
            for h in s.handlers:
                got = {x: t for x, t in inner.items()
                       if self.catches(h.type, x)}
                inner = {x: t for x, t in inner.items() if x not in got}
                r.update(self.block(h.body, got))
            r.update(inner)
            r.update(self.block(s.orelse, caught))
            r.update(self.block(s.finalbody, caught))
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue))
                   for x in s.finalbody for n in ast.walk(x)):
                return {}
            return r
        if isinstance(s, ast.With):
            r = {}
            dropped = []
            for i in s.items:
                r.update(self.expr(i.context_expr))
                x = i.context_expr
                if isinstance(x, ast.Call) and (
                        getattr(x.func, 'attr', None) == 'suppress'
                        or getattr(x.func, 'id', '').endswith('suppress')):
                    dropped.extend(x.args)
            inner = self.block(s.body, caught)
            r.update({x: t for x, t in inner.items()
                      if not any(self.catches(d, x) for d in dropped)})
            return r
        if isinstance(s, ast.Raise):
            r = {}
            if s.exc is None:
                return dict(caught)
            r.update(self.expr(s.exc))
            x = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            v = self.value(x)
            if v is not None and v.op == 'cls':
                k = v.args[0]
                for t in self.a.targets:
                    if k.subclass_of(t):
                        r[k] = [f'{self.where(s)} raises {k.name}']
            elif isinstance(x, ast.Name) and x.id in self.names_of(caught):
                r.update(caught)
            return r
        r = {}
        for field, x in ast.iter_fields(s):
            for y in x if isinstance(x, list) else [x]:
                if isinstance(y, ast.stmt):
                    r.update(self.stmt(y, caught))
                elif isinstance(y, ast.AST):
                    r.update(self.any(y, caught))
        return r

    def any(self, node, caught):
        if isinstance(node, ast.expr):
            return self.expr(node)
        r = {}
        for y in ast.iter_child_nodes(node):
            if isinstance(y, ast.stmt):
                r.update(self.stmt(y, caught))
            else:
                r.update(self.any(y, caught))
        return r

    def names_of(self, caught):
        return {h.name for s in self.body for h in ast.walk(s)
                if isinstance(h, ast.ExceptHandler) and h.name} if caught \
            else ()

    def where(self, n):
        return f'{self.info.module.name}:{n.lineno} {self.info.name}'

    def catches(self, type_, exc):
        if type_ is None:
            return True
        if isinstance(type_, ast.Tuple):
            return any(self.catches(t, exc) for t in type_.elts)
        v = self.value(type_)
        if v is None and isinstance(type_, ast.Name):
            for x in self.local.get(type_.id, ()):
                if isinstance(x, ast.expr) and self.catches(x, exc):
                    return True
            return type_.id in ('Exception', 'BaseException')
        return v is None or self.value_catches(v, exc)

    def value_catches(self, v, exc):
        if v.op == 'phi':
            return any(self.value_catches(x, exc) for _, x in val.leaves(v))
        items = val.static_items(self.a.it.resolve(v))
        if items is not None:
            return any(self.value_catches(x, exc) for x in items)
        if v.op == 'cls':
            return exc.subclass_of(v.args[0])
        if v.op == 'ref':
            name = v.args[0]
            if name in ('builtins.Exception', 'builtins.BaseException'):
                return True
            return any(b.op == 'ref' and b.args[0] == name
                       for b in exc.external_bases())
        return v.op == 'unk'

    # --- expressions

    def expr(self, node):
        r = {}
        for n in ast.walk(node):
            if not isinstance(n, ast.Call):
                continue
            called = [n.func] + [a.value if isinstance(a, ast.Starred) else a
                                 for a in n.args] + [
                k.value for k in n.keywords]
            for i, f in enumerate(called):
                if i and not isinstance(f, (ast.Name, ast.Attribute)):
                    continue
                for found in self.resolve(f, i == 0):
                    r.update(self.through(found, n))
        return r

    def through(self, found, n):
        if isinstance(found, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if id(found) in self.seen:
                return {}
            self.seen.add(id(found))
            try:
                return self.block(found.body, {})
            finally:
                self.seen.discard(id(found))
        return {x: [f'{self.where(n)} calls {found.name}'] + t[:6]
                for x, t in self.a.request(found).items()}

    def resolve(self, node, direct):
        if isinstance(node, ast.Name):
            if node.id in self.local:
                r = []
                for x in self.local[node.id]:
                    if isinstance(x, (ast.FunctionDef,
                                      ast.AsyncFunctionDef)):
                        r.append(x)
                    elif direct and isinstance(x, (ast.Name, ast.Attribute,
                                                   ast.IfExp)):
                        branches = ([x.body, x.orelse]
                                    if isinstance(x, ast.IfExp) else [x])
                        for b in branches:
                            if not (isinstance(b, ast.Name)
                                    and b.id == node.id):
                                r.extend(self.resolve(b, False))
                return r
            if node.id in self.params:
                return []
            return funcs(self.name(node.id))
        if isinstance(node, ast.Attribute):
            v = self.value(node)
            if v is not None:
                return funcs(v)
            if direct and self.value(node.value) is None:
                return self.a.methods.get(node.attr, [])
        return []
