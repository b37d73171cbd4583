"""Applies a mechanical rewriting that keeps the behaviour to every place of
the package at once and runs all the checks, which have to stay quiet.

    python3 tools/try_refactorings.py [names of rewritings]

Not run by any registered check.
"""
import ast
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REWRITINGS = {}


def rewriting(cls):
    REWRITINGS[cls.__name__] = cls
    return cls


FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef)


class Rewriting(ast.NodeTransformer):
    count = 0

    def fresh(self):
        Rewriting.count += 1
        return f'value_{Rewriting.count}'


def bodies(node):
    for field in ('body', 'orelse', 'finalbody'):
        body = getattr(node, field, None)
        if isinstance(body, list):
            yield field, body


@rewriting
class Unparsed(Rewriting):
    """The text is formatted anew, without comments."""


@rewriting
class ConditionalReturns(Rewriting):
    """return a if c else b  ->  if c: return a, else: return b"""

    def visit_Return(self, node):
        if isinstance(node.value, ast.IfExp):
            v = node.value
            return self.visit_If(ast.If(
                v.test, [self.visit_Return(ast.Return(v.body))],
                [self.visit_Return(ast.Return(v.orelse))]))
        return node

    def visit_If(self, node):
        self.generic_visit(node)
        flat = []
        for x in node.body:
            flat += x if isinstance(x, list) else [x]
        node.body = flat
        return node


@rewriting
class EarlyReturns(Rewriting):
    """if c: ...return  else: rest  ->  if c: ...return; rest"""

    def generic_visit(self, node):
        super().generic_visit(node)
        for field, body in bodies(node):
            new = []
            for x in body:
                new.append(x)
                if (isinstance(x, ast.If) and x.orelse
                        and isinstance(x.body[-1], (ast.Return, ast.Raise,
                                                    ast.Continue))):
                    new += x.orelse
                    x.orelse = []
            setattr(node, field, new)
        return node


@rewriting
class NegatedConditions(Rewriting):
    """if c: a else: b  ->  if not c: b else: a"""

    def visit_If(self, node):
        self.generic_visit(node)
        if node.orelse:
            node.test = ast.UnaryOp(ast.Not(), node.test)
            node.body, node.orelse = node.orelse, node.body
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = ast.UnaryOp(ast.Not(), node.test)
        node.body, node.orelse = node.orelse, node.body
        return node


@rewriting
class NamedResults(Rewriting):
    """return e  ->  result = e; return result"""

    def visit_Return(self, node):
        if node.value is None or isinstance(node.value, ast.Name):
            return node
        name = self.fresh()
        return [ast.Assign([ast.Name(name, ast.Store())], node.value),
                ast.Return(ast.Name(name, ast.Load()))]


@rewriting
class NamedConditions(Rewriting):
    """if c:  ->  condition = c; if condition:"""

    def visit_If(self, node):
        self.generic_visit(node)
        name = self.fresh()
        test, node.test = node.test, ast.Name(name, ast.Load())
        return [ast.Assign([ast.Name(name, ast.Store())], test), node]

    def visit_Module(self, node):
        node.body = [y for x in node.body for y in (
            (lambda r: r if isinstance(r, list) else [r])(self.visit(x)))]
        return node


@rewriting
class RenamedLocals(Rewriting):
    """Local variables get other names."""

    def visit_FunctionDef(self, node):
        stored = {n.id for n in ast.walk(node) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        for n in ast.walk(node):
            if isinstance(n, ast.ExceptHandler) and n.name:
                stored.discard(n.name)
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                stored -= set(n.names)
            if isinstance(n, (ast.ClassDef,)):
                return node
        args = {a.arg for n in ast.walk(node) for a in
                (n.args.args + n.args.kwonlyargs + n.args.posonlyargs
                 if isinstance(n, (*FUNCTIONS, ast.Lambda)) else [])}
        stored -= args
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id = 'local_' + n.id
        return node


@rewriting
class LoopsFromComprehensions(Rewriting):
    """x = [e for a in b if c]  ->  x = []; for a in b: ..."""

    def one(self, node):
        v = getattr(node, 'value', None)
        if (not isinstance(v, (ast.ListComp, ast.SetComp, ast.DictComp))
                or len(v.generators) != 1
                or not isinstance(node, (ast.Assign, ast.Return))):
            return [node]
        if isinstance(node, ast.Assign) and not (
                len(node.targets) == 1
                and isinstance(node.targets[0], ast.Name)):
            return [node]
        name = self.fresh()
        g = v.generators[0]
        load = ast.Name(name, ast.Load())
        if isinstance(v, ast.DictComp):
            empty = ast.Dict([], [])
            step = ast.Assign([ast.Subscript(load, v.key, ast.Store())],
                              v.value)
        elif isinstance(v, ast.SetComp):
            empty = ast.Call(ast.Name('set', ast.Load()), [], [])
            step = ast.Expr(ast.Call(ast.Attribute(load, 'add', ast.Load()),
                                     [v.elt], []))
        else:
            empty = ast.List([], ast.Load())
            step = ast.Expr(ast.Call(ast.Attribute(load, 'append',
                                                   ast.Load()),
                                     [v.elt], []))
        for test in reversed(g.ifs):
            step = ast.If(test, [step], [])
        node.value = load
        return [ast.Assign([ast.Name(name, ast.Store())], empty),
                ast.For(g.target, g.iter, [step], []), node]

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        return node

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.ClassDef, ast.Module)):
            return node
        for field, body in bodies(node):
            if body and isinstance(body[0], ast.stmt):
                setattr(node, field, [y for x in body for y in self.one(x)])
        return node


@rewriting
class NamedArguments(Rewriting):
    """f(g(x))  ->  value = g(x); f(value) in simple statements"""

    def one(self, node):
        v = getattr(node, 'value', None)
        if not isinstance(node, (ast.Assign, ast.Return, ast.Expr)) or not (
                isinstance(v, ast.Call)):
            return [node]
        before = []
        if not isinstance(v.func, (ast.Name, ast.Attribute)):
            return [node]
        if isinstance(v.func, ast.Attribute) and not isinstance(
                v.func.value, ast.Name):
            return [node]
        for i, a in enumerate(v.args):
            if isinstance(a, ast.Starred):
                break
            if isinstance(a, (ast.Call, ast.BinOp, ast.ListComp)):
                name = self.fresh()
                before.append(ast.Assign([ast.Name(name, ast.Store())], a))
                v.args[i] = ast.Name(name, ast.Load())
        return before + [node]

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.ClassDef, ast.Module)):
            return node
        for field, body in bodies(node):
            if body and isinstance(body[0], ast.stmt):
                setattr(node, field, [y for x in body for y in self.one(x)])
        return node


@rewriting
class NestedConditions(Rewriting):
    """if a and b: c (no else)  ->  if a: if b: c"""

    def visit_If(self, node):
        self.generic_visit(node)
        if isinstance(node.test, ast.BoolOp) and isinstance(
                node.test.op, ast.And) and not node.orelse:
            first, *rest = node.test.values
            inner = rest[0] if len(rest) == 1 else ast.BoolOp(ast.And(), rest)
            return ast.If(first, [ast.If(inner, node.body, [])], [])
        return node


@rewriting
class DeMorgan(Rewriting):
    """a and b  ->  not (not a or not b) in tests"""

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self.negate(node.test)
        return node

    def visit_IfExp(self, node):
        self.generic_visit(node)
        node.test = self.negate(node.test)
        return node

    @staticmethod
    def negate(test):
        if isinstance(test, ast.BoolOp):
            other = ast.Or() if isinstance(test.op, ast.And) else ast.And()
            return ast.UnaryOp(ast.Not(), ast.BoolOp(other, [
                ast.UnaryOp(ast.Not(), x) for x in test.values]))
        return test


@rewriting
class PrivateRenamed(Rewriting):
    """Private functions and classes of modules get other names."""
    names = None

    @classmethod
    def prepare(cls, trees):
        cls.names = set()
        for tree in trees:
            for n in ast.walk(tree):
                if isinstance(n, (*FUNCTIONS, ast.ClassDef)) and (
                        n.name.startswith('_') and n.name != '_'
                        and not n.name.startswith('__')):
                    cls.names.add(n.name)

    def new(self, name):
        return name + '_renamed' if name in self.names else name

    def visit_Name(self, node):
        node.id = self.new(node.id)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        node.attr = self.new(node.attr)
        return node

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        node.name = self.new(node.name)
        return node

    visit_ClassDef = visit_FunctionDef


@rewriting
class Wrapped(Rewriting):
    """Undecorated functions delegate to new ones doing the work."""

    def visit_Module(self, node):
        new = []
        for x in node.body:
            if (isinstance(x, ast.FunctionDef) and not x.decorator_list
                    and not x.args.defaults and not x.args.kw_defaults
                    and not any(isinstance(n, (ast.Yield, ast.YieldFrom))
                                for n in ast.walk(x))):
                inner = ast.FunctionDef(
                    x.name.strip('_') + '_impl', x.args, x.body, [],
                    x.returns, type_params=[])
                a = x.args
                call = ast.Call(
                    ast.Name(inner.name, ast.Load()),
                    [ast.Name(y.arg, ast.Load())
                     for y in a.posonlyargs + a.args]
                    + ([ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                    ast.Load())] if a.vararg else []),
                    [ast.keyword(y.arg, ast.Name(y.arg, ast.Load()))
                     for y in a.kwonlyargs]
                    + ([ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load()))]
                       if a.kwarg else []))
                outer = ast.FunctionDef(x.name, a, [ast.Return(call)], [],
                                        x.returns, type_params=[])
                new += [inner, outer]
            else:
                new.append(x)
        node.body = new
        return node


@rewriting
class Guarded(Rewriting):
    """Statements that do nothing in every function."""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        at = (1 if isinstance(node.body[0], ast.Expr)
              and isinstance(node.body[0].value, ast.Constant) else 0)
        node.body[at:at] = ast.parse('_unused = None\nif False:\n    pass'
                                     ).body
        return node


@rewriting
class UnpackedAssignments(Rewriting):
    """a, b = x, y  ->  a = x; b = y  where x and y are plain names"""

    def visit_Assign(self, node):
        if (len(node.targets) == 1 and isinstance(node.targets[0], ast.Tuple)
                and isinstance(node.value, ast.Tuple)
                and len(node.value.elts) == len(node.targets[0].elts)
                and not any(isinstance(x, ast.Starred)
                            for x in node.value.elts + node.targets[0].elts)):
            stored = {n.id for n in ast.walk(node.targets[0])
                      if isinstance(n, ast.Name)}
            used = {n.id for n in ast.walk(node.value)
                    if isinstance(n, ast.Name)}
            plain = all(isinstance(x, ast.Name) for x in
                        node.targets[0].elts)
            if plain and not stored & used:
                return [ast.Assign([a], b) for a, b in
                        zip(node.targets[0].elts, node.value.elts)]
        return node


@rewriting
class ExplicitElse(Rewriting):
    """if c: return a; rest  ->  if c: return a else: rest"""

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.Module, ast.ClassDef)):
            return node
        for field, body in bodies(node):
            for i, x in enumerate(body):
                if (isinstance(x, ast.If) and not x.orelse and body[i + 1:]
                        and isinstance(x.body[-1], (ast.Return, ast.Raise))):
                    x.orelse = body[i + 1:]
                    setattr(node, field, body[:i + 1])
                    break
        return node


@rewriting
class TryElseInlined(Rewriting):
    """try: a except: return / continue / raise  else: b  ->  ...; b"""

    def generic_visit(self, node):
        super().generic_visit(node)
        for field, body in bodies(node):
            new = []
            for x in body:
                new.append(x)
                if (isinstance(x, ast.Try) and x.orelse and not x.finalbody
                        and all(isinstance(h.body[-1], (
                            ast.Return, ast.Raise, ast.Continue))
                            for h in x.handlers)):
                    new += x.orelse
                    x.orelse = []
            setattr(node, field, new)
        return node


def bound_names(function):
    """Names of the variables of a function."""
    a = function.args
    names = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
    names |= {x.arg for x in (a.vararg, a.kwarg) if x}
    for n in ast.walk(function):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            names.add(n.id)
        elif isinstance(n, (*FUNCTIONS, ast.ClassDef)) and n is not function:
            names.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        elif isinstance(n, ast.alias):
            names.add((n.asname or n.name).split('.')[0])
    return names


def free_names(nodes, names):
    """Variables which nodes use and do not define, in order of names."""
    loaded, stored = set(), set()
    for node in nodes:
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                (loaded if isinstance(n.ctx, ast.Load) else stored).add(n.id)
            elif isinstance(n, ast.arg):
                stored.add(n.arg)
    return sorted((loaded & names) - stored)


class Extracting(Rewriting):
    """Moves parts of functions into new functions of the module."""

    def visit_Module(self, node):
        body = []
        for x in node.body:
            self.helpers = []
            self.names = set()
            x = self.visit(x)
            body += self.helpers + [x]
        node.body = body
        return node

    def visit_FunctionDef(self, node):
        before = self.names
        self.names = before | bound_names(node)
        self.function = node
        self.generic_visit(node)
        self.names = before
        return node

    def helper(self, body, arguments, prefix='_helper'):
        name = f'{prefix}_{self.fresh()}'
        self.helpers.append(ast.FunctionDef(
            name, ast.arguments([], [ast.arg(x) for x in arguments], None,
                                [], [], None, []),
            body, [], None, type_params=[]))
        return ast.Call(ast.Name(name, ast.Load()),
                        [ast.Name(x, ast.Load()) for x in arguments], [])

    def movable(self, *nodes):
        return self.names and not any(
            isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr,
                           ast.Nonlocal, ast.Global))
            or isinstance(n, ast.Name) and n.id in ('super', 'locals')
            or isinstance(n, ast.Attribute) and n.attr == 'stack'
            for x in nodes for n in ast.walk(x))

    def expression(self, v):
        if (isinstance(v, (ast.Call, ast.BoolOp, ast.BinOp, ast.IfExp,
                           ast.Compare, ast.ListComp, ast.SetComp,
                           ast.DictComp, ast.Tuple, ast.JoinedStr,
                           ast.Dict))
                and self.movable(v)):
            return self.helper([ast.Return(v)], free_names([v], self.names))
        return v


@rewriting
class ExtractedReturns(Extracting):
    """return e  ->  return helper(names of e)"""

    def visit_Return(self, node):
        if node.value is not None:
            node.value = self.expression(node.value)
        return node


@rewriting
class ExtractedValues(Extracting):
    """x = e  ->  x = helper(names of e)"""

    def visit_Assign(self, node):
        node.value = self.expression(node.value)
        return node


@rewriting
class ExtractedConditions(Extracting):
    """if e:  ->  if helper(names of e):"""

    def visit_If(self, node):
        self.generic_visit(node)
        node.test = self.expression(node.test)
        return node


@rewriting
class ExtractedElements(Extracting):
    """[e for a in b]  ->  [helper(names of e) for a in b]"""

    def visit_ListComp(self, node):
        names = {n.id for g in node.generators for n in ast.walk(g.target)
                 if isinstance(n, ast.Name)}
        if self.names:
            before, self.names = self.names, self.names | names
            node.elt = self.expression(node.elt)
            self.names = before
        return node

    visit_SetComp = visit_GeneratorExp = visit_ListComp


@rewriting
class ExtractedLoops(Extracting):
    """for ...: ...  ->  helper(names)  unless it defines what is used"""

    def visit_FunctionDef(self, node):
        before = self.names
        self.names = before | bound_names(node)
        self.whole = node
        node.body = [self.visit(x) if not isinstance(x, ast.For)
                     else self.loop(node, x) for x in node.body]
        self.names = before
        return node

    def loop(self, function, node):
        inside_ = list(ast.walk(node))
        stored = {n.id for n in inside_ if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)}
        outside = [n for n in ast.walk(function) if n not in inside_]
        used = {n.id for n in outside if isinstance(n, ast.Name)}
        used |= {n.arg for n in outside if isinstance(n, ast.arg)}
        if (stored & used or node.orelse or not self.movable(node)
                or any(isinstance(n, (ast.Return, *FUNCTIONS, ast.ClassDef))
                       for n in inside_)):
            return node
        return ast.Expr(self.helper([node], free_names([node], self.names)))


@rewriting
class ExtractedBranches(Extracting):
    """if c: return ... (several statements)  ->  if c: return helper()"""

    def visit_If(self, node):
        self.generic_visit(node)
        for field, body in bodies(node):
            if (len(body) > 1 and isinstance(body[-1], ast.Return)
                    and self.movable(*body)
                    and not any(isinstance(n, (ast.Break, ast.Continue))
                                for x in body for n in ast.walk(x))):
                stored = {n.id for x in body for n in ast.walk(x)
                          if isinstance(n, ast.Name)
                          and isinstance(n.ctx, ast.Store)}
                loaded = {n.id for x in body for n in ast.walk(x)
                          if isinstance(n, ast.Name)
                          and isinstance(n.ctx, ast.Load)}
                arguments = sorted(loaded & self.names)
                if stored & set(arguments):
                    # what is defined by the branch itself only
                    others = {n.id for n in ast.walk(self.function)
                              if isinstance(n, ast.Name)
                              and isinstance(n.ctx, ast.Store)
                              and not any(n is m for x in body
                                          for m in ast.walk(x))}
                    others |= {n.arg for n in ast.walk(self.function.args)
                               if isinstance(n, ast.arg)}
                    if stored & others:
                        continue
                    arguments = [x for x in arguments if x not in stored]
                setattr(node, field,
                        [ast.Return(self.helper(body, arguments))])
        return node


@rewriting
class MapsFromComprehensions(Rewriting):
    """[f(x) for x in xs]  ->  list(map(f, xs))"""

    def visit_ListComp(self, node, made='list'):
        self.generic_visit(node)
        g, e = node.generators[0], node.elt
        if (len(node.generators) == 1 and not g.ifs
                and isinstance(g.target, ast.Name) and isinstance(e, ast.Call)
                and isinstance(e.func, ast.Name) and not e.keywords
                and len(e.args) == 1 and isinstance(e.args[0], ast.Name)
                and e.args[0].id == g.target.id):
            return ast.Call(ast.Name(made, ast.Load()), [ast.Call(
                ast.Name('map', ast.Load()), [e.func, g.iter], [])], [])
        return node

    def visit_GeneratorExp(self, node):
        return self.visit_ListComp(node, 'iter')


@rewriting
class ComprehensionsFromMaps(Rewriting):
    """map(f, xs)  ->  (f(x) for x in xs)"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if (isinstance(node.func, ast.Name) and node.func.id == 'map'
                and len(node.args) == 2
                and isinstance(node.args[0], (ast.Name, ast.Attribute))):
            name = self.fresh()
            return ast.GeneratorExp(
                ast.Call(node.args[0], [ast.Name(name, ast.Load())], []),
                [ast.comprehension(ast.Name(name, ast.Store()), node.args[1],
                                   [], 0)])
        return node


@rewriting
class InlinedVariables(Rewriting):
    """x = e; return f(x)  ->  return f(e)  where x is used only once"""

    def visit_FunctionDef(self, node):
        self.generic_visit(node)
        uses = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Name):
                uses.setdefault(n.id, []).append(n)
        for holder in ast.walk(node):
            for field, body in bodies(holder):
                new = []
                for x in body:
                    p = new[-1] if new else None
                    if (isinstance(p, ast.Assign) and len(p.targets) == 1
                            and isinstance(p.targets[0], ast.Name)
                            and isinstance(x, (ast.Return, ast.Assign,
                                               ast.Expr))
                            and len(uses[p.targets[0].id]) == 2
                            and self.first(x, p.targets[0].id)):
                        name, value = p.targets[0].id, p.value

                        class Put(ast.NodeTransformer):
                            def visit_Name(self, n):
                                return value if n.id == name else n

                        new[-1] = Put().visit(x)
                    else:
                        new.append(x)
                setattr(holder, field, new)
        return node

    @staticmethod
    def first(statement, name):
        """Is the variable what is evaluated first?"""
        v = statement.value
        while v is not None:
            if isinstance(v, ast.Name):
                return v.id == name
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                if v.func.id == name:
                    return True
                v = v.args[0] if v.args else None
            elif isinstance(v, ast.Call):
                v = v.func
            elif isinstance(v, (ast.Attribute, ast.Subscript, ast.Starred)):
                v = v.value
            elif isinstance(v, ast.BinOp):
                v = v.left
            elif isinstance(v, (ast.Tuple, ast.List)):
                v = v.elts[0] if v.elts else None
            else:
                return False
        return False


@rewriting
class IndexedUnpacking(Rewriting):
    """a, b = pair  ->  a = pair[0]; b = pair[1]  for names of pairs"""

    def visit_For(self, node):
        self.generic_visit(node)
        t = node.target
        if isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name)
                                            for x in t.elts):
            name = self.fresh()
            node.target = ast.Name(name, ast.Store())
            node.body[:0] = [ast.Assign([t], ast.Name(name, ast.Load()))]
        return node


@rewriting
class AnyLoops(Rewriting):
    """return any(c for x in xs)  ->  for x in xs: if c: return True ..."""

    def visit_Return(self, node):
        v = node.value
        if (isinstance(v, ast.Call) and isinstance(v.func, ast.Name)
                and v.func.id in ('any', 'all') and len(v.args) == 1
                and isinstance(v.args[0], ast.GeneratorExp)
                and len(v.args[0].generators) == 1):
            g = v.args[0].generators[0]
            every = v.func.id == 'all'
            test = v.args[0].elt
            if every:
                test = ast.UnaryOp(ast.Not(), test)
            step = ast.If(test, [ast.Return(ast.Constant(not every))], [])
            for c in reversed(g.ifs):
                step = ast.If(c, [step], [])
            return [ast.For(g.target, g.iter, [step], []),
                    ast.Return(ast.Constant(every))]
        return node


@rewriting
class SwappedAssignments(Rewriting):
    """a = x; b = y  ->  b = y; a = x  where neither uses the other"""

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.ClassDef, ast.Module)):
            return node
        for field, body in bodies(node):
            i = 0
            while i + 1 < len(body):
                if self.independent(body[i], body[i + 1]):
                    body[i], body[i + 1] = body[i + 1], body[i]
                    i += 1
                i += 1
        return node

    @staticmethod
    def independent(a, b):
        def names(x, ctx):
            return {n.id for n in ast.walk(x) if isinstance(n, ast.Name)
                    and isinstance(n.ctx, ctx)}

        def simple(x):
            return isinstance(x, ast.Assign) and all(
                isinstance(t, ast.Name) for t in x.targets) and not any(
                isinstance(n, (ast.Yield, ast.NamedExpr))
                or isinstance(n, ast.Call) and not (
                    isinstance(n.func, ast.Name) and n.func.id in (
                        'list', 'dict', 'tuple', 'set', 'len', 'sorted',
                        'reversed', 'isinstance', 'defaultdict', 'type',
                        'getattr'))
                or isinstance(n, (ast.Subscript, ast.Attribute))
                and x is a
                for n in ast.walk(x.value))

        return (simple(a) and simple(b)
                and not names(a, ast.Store) & names(b, (ast.Load, ast.Store))
                and not names(b, ast.Store) & names(a, ast.Load))


@rewriting
class Literals(Rewriting):
    """[] -> list(), {} -> dict(), (*a, b) -> tuple([*a, b])"""

    def visit_List(self, node):
        self.generic_visit(node)
        if not node.elts and isinstance(node.ctx, ast.Load):
            return ast.Call(ast.Name('list', ast.Load()), [], [])
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return ast.Call(ast.Name('dict', ast.Load()), [], [])
        return node

    def visit_Tuple(self, node):
        self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and any(
                isinstance(x, ast.Starred) for x in node.elts):
            return ast.Call(ast.Name('tuple', ast.Load()),
                            [ast.List(node.elts, ast.Load())], [])
        return node

    def visit_Subscript(self, node):
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node

    def visit_arg(self, node):
        return node

    def visit_FunctionDef(self, node):
        node.body = [self.visit(x) for x in node.body]
        return node


@rewriting
class Polled(Rewriting):
    """for x in xs: ...  ->  iterator = iter(xs); for x in iterator: ..."""

    def one(self, node):
        if isinstance(node, ast.For):
            name = self.fresh()
            made = ast.Assign([ast.Name(name, ast.Store())], ast.Call(
                ast.Name('iter', ast.Load()), [node.iter], []))
            node.iter = ast.Name(name, ast.Load())
            return [made, node]
        return [node]

    def generic_visit(self, node):
        super().generic_visit(node)
        if isinstance(node, (ast.ClassDef, ast.Module)):
            return node
        for field, body in bodies(node):
            if body and isinstance(body[0], ast.stmt):
                setattr(node, field, [y for x in body for y in self.one(x)])
        return node


def prepare(name):
    tree = tempfile.mkdtemp(prefix='refactoring') + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
    cls = REWRITINGS[name]
    files, changed = [], 0
    for where, _, names in os.walk(tree + '/paradigm'):
        files += [os.path.join(where, n) for n in names if n.endswith('.py')]
    trees = {f: ast.parse(open(f).read()) for f in files}
    if hasattr(cls, 'prepare'):
        cls.prepare(trees.values())
    for f, t in trees.items():
        before = ast.dump(t)
        t = ast.fix_missing_locations(cls().visit(t))
        changed += ast.dump(t) != before
        text = ast.unparse(t) + '\n'
        compile(text, f, 'exec')
        with open(f, 'w') as file:
            file.write(text)
    return tree, changed


def one(tree, p):
    r = subprocess.run([sys.executable, os.path.join(ROOT, 'check.py'), p],
                       env=dict(os.environ, VERIF_REPO=tree,
                                VERIF_EVIDENCE=os.path.dirname(tree)),
                       cwd=ROOT, capture_output=True, text=True)
    return p, r


def main():
    wanted = [a for a in sys.argv[1:] if not a.startswith('-')]
    ids = [a for a in wanted if a[0] == 'C' and a[1:].isdigit()]
    wanted = [a for a in wanted if a not in ids] or list(REWRITINGS)
    ids = ids or sorted(x[:-3].upper() for x in os.listdir(
        os.path.join(ROOT, 'rules')) if x[1:3].isdigit())
    with ThreadPoolExecutor(7) as pool:
        for name in wanted:
            tree, changed = prepare(name)
            try:
                if '--test' in sys.argv:
                    r = subprocess.run(
                        ['/opt/venv/bin/python', '-c',
                         'import paradigm.base as b, sys\n'
                         'print(b.signature_from_callable(int))\n'],
                        cwd=tree, env=dict(os.environ, PYTHONPATH=tree),
                        capture_output=True, text=True)
                    print(name, 'runs:', r.returncode, r.stdout[:60],
                          r.stderr[-200:])
                bad = undecided = 0
                lines = []
                for p, r in pool.map(lambda p: one(tree, p), ids):
                    out = r.stdout + r.stderr
                    if r.returncode:
                        bad += 1
                        lines += [f'  {p} rc={r.returncode}'] + [
                            '    ' + x[:180] for x in out.splitlines()[
                                :int(os.environ.get('N', 9))]]
                    elif 'UNDECIDED:' in out:
                        undecided += 1
                        lines.append(f'  {p} undecided: ' + next(
                            x for x in out.splitlines()
                            if 'obligations' in x)[:100])
                        if '-v' in sys.argv:
                            lines += ['    ' + x[:180] for x in
                                      out.splitlines()[
                                          :int(os.environ.get('N', 9))]]
                print(f'{name}: {changed} files changed, {bad} alarms, '
                      f'{undecided} undecided')
                print('\n'.join(lines), flush=True)
            finally:
                shutil.rmtree(os.path.dirname(tree))


if __name__ == '__main__':
    main()
