"""Where an arbitrary order of iteration may get to.

A dataflow analysis over syntax trees of all modules of the package: objects
are abstracted by their allocation sites (contents of lists, dictionaries and
sets are summarised), values of parameters are joined over call sites, local
variables are followed along the control flow.  What a value, a key or an
element depends on is tracked symbolically in terms of parameters and of
elements of loops whose order is arbitrary, so that effects of a function are
judged anew at each of its calls.

* iteration over a set, over a dictionary filled in an arbitrary order, over a
  sequence made of those is arbitrarily ordered;
* putting elements of it into a sequence, a string, picking one of them make
  the result arbitrary, sorting and building sets clear that;
* a store which overwrites in such a loop what does not depend on the key only
  depends on the order.
"""
import ast
from typing import NamedTuple

EMPTY = frozenset()


class Val(NamedTuple):
    objs: frozenset = EMPTY
    arb: str = None           # why is it arbitrary
    deps: frozenset = EMPTY   # parameters and elements it depends on
    clear: frozenset = EMPTY  # those of them which can be told by it
    fns: frozenset = EMPTY

    def bare(self):
        return self._replace(deps=EMPTY, clear=EMPTY)

    def opaque(self):
        return self._replace(clear=EMPTY)


NOTHING = Val()


def join(*values):
    values = [v for v in values if v is not None]
    if not values:
        return NOTHING
    if len(values) == 1:
        return values[0]
    deps = EMPTY.union(*[v.deps for v in values])
    clear = EMPTY.union(*[v.clear for v in values])
    return Val(EMPTY.union(*[v.objs for v in values]),
               min((v.arb for v in values if v.arb), default=None), deps,
               clear, EMPTY.union(*[v.fns for v in values]))


class Obj:
    def __init__(self, key, kind, owner, node):
        self.key, self.kind, self.owner, self.node = key, kind, owner, node
        self.arb = None
        self.elem = NOTHING
        self.keys = NOTHING
        self.fields = None
        self.attrs = {}
        self.cls = None


class Effect(NamedTuple):
    op: str
    objs: frozenset
    key: frozenset
    clear: frozenset
    value: frozenset
    where: str


class Function:
    def __init__(self, id_, node, module, outer, cls):
        self.id, self.node, self.module = id_, node, module
        self.outer, self.cls = outer, cls
        self.params = {}
        self.ret = NOTHING
        self.effects = set()
        self.callees = set()
        self.callers = 0
        self.locals = {}
        self.sinks = set()       # parameters written to files
        self.yields = False
        self.closure = {id_}
        self.is_property = False
        self.static = False

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')


class Class:
    def __init__(self, id_, node, module):
        self.id, self.node, self.module = id_, node, module
        self.methods = {}
        self.bases = []


class Analysis:
    ORDERED = 'ordered'

    def __init__(self, modules, relative):
        self.relative = relative
        self.heap = {}
        self.functions, self.classes = {}, {}
        self.globals = {}
        self.trees = {}
        self.dispatch = {}       # id of a generic function -> its handlers
        self.dispatched = {}     # handler -> types it is registered for
        self.version = 0
        self.reporting = False
        self.fresh = {}
        self.violations = {}
        self.sites = {}
        self.calls = 0
        self.own = {}
        for m in modules:
            self.trees[m.name] = m
            self.globals[m.name] = {}
        self.run()

    # --- fixpoint

    def run(self):
        rounds = 0
        while rounds < 30:
            rounds += 1
            version = self.version
            self.round()
            if self.version == version:
                break
        self.rounds = rounds
        self.stable = self.version == version
        self.reporting = True
        for f in self.functions.values():
            f.callers = 0
        self.round()
        self.sinks()

    def round(self):
        for name, m in self.trees.items():
            id_ = (name, 0, 0)
            f = self.functions.get(id_)
            if f is None:
                f = self.functions[id_] = Function(id_, m.tree, m, None, None)
            Frame(self, f, self.globals[name]).module()
        for f in list(self.functions.values()):
            if not isinstance(f.node, ast.Module):
                Frame(self, f, {}).function()
        changed = True
        while changed:
            changed = False
            for f in self.functions.values():
                closure = f.closure.union(*[self.functions[c].closure
                                            for c in f.callees])
                if len(closure) > len(f.closure):
                    f.closure = closure
                    changed = self.touch()

    def touch(self):
        self.version += 1
        return True

    # --- the heap

    def alloc(self, frame, node, kind, tag=''):
        key = (frame.f.module.name, node.lineno, node.col_offset, kind, tag)
        o = self.heap.get(key)
        if o is None:
            o = self.heap[key] = Obj(key, kind, frame.f.id, node)
            self.touch()
        return o

    def put(self, o, elem=None, keys=None, fields=None, arb=None):
        if elem is not None:
            new = join(o.elem, elem.bare())
            if new != o.elem:
                o.elem = new
                self.touch()
        if keys is not None:
            new = join(o.keys, keys.bare())
            if new != o.keys:
                o.keys = new
                self.touch()
        if fields is not None:
            fields = [x.bare() for x in fields]
            if o.fields is not None:
                fields = [join(x, y) for x, y in zip(o.fields, fields)]
            if fields != o.fields:
                o.fields = fields
                self.touch()
        if arb and (not o.arb or arb < o.arb):
            o.arb = arb
            self.touch()
        return o

    def attr(self, o, name, v):
        new = join(o.attrs.get(name), v.bare())
        if new != o.attrs.get(name):
            o.attrs[name] = new
            self.touch()

    def made(self, f):
        """Variables of a function which are assigned new containers only."""
        if f.id in self.own:
            return self.own[f.id]
        made, other = set(), set()
        body = f.node.body if isinstance(f.node.body, list) else []
        if isinstance(f.node, ast.Module):
            body = []
        else:
            a = f.node.args
            other |= {x.arg for x in [*a.posonlyargs, *a.args, *a.kwonlyargs,
                                      a.vararg, a.kwarg] if x is not None}
        containers = {'list', 'dict', 'set', 'deque', 'defaultdict',
                      'OrderedDict', 'Counter'}
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    other |= set(n.names)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    targets = (n.targets if isinstance(n, ast.Assign)
                               else [n.target])
                    v = n.value
                    if (isinstance(v, (ast.List, ast.Dict, ast.Set,
                                       ast.ListComp, ast.DictComp,
                                       ast.SetComp))
                            or isinstance(v, ast.Call) and (
                                isinstance(v.func, (ast.Name, ast.Attribute))
                                and (getattr(v.func, 'id', None)
                                     or v.func.attr).lstrip('_')
                                in containers)):
                        names = {t.id for t in targets
                                 if isinstance(t, ast.Name)}
                        made |= names
                        targets = [t for t in targets
                                   if not isinstance(t, ast.Name)]
                    elif v is None:
                        targets = []
                    for t in targets:
                        if isinstance(t, (ast.Name, ast.Tuple, ast.List,
                                          ast.Starred)):
                            other |= {x.id for x in ast.walk(t)
                                      if isinstance(x, ast.Name)}
                elif (isinstance(n, ast.Name)
                      and isinstance(n.ctx, ast.Store)):
                    if not any(n is t for t in self.targets(s)):
                        other.add(n.id)
        self.own[f.id] = made - other
        return self.own[f.id]

    @staticmethod
    def targets(s):
        return [t for n in ast.walk(s)
                if isinstance(n, (ast.Assign, ast.AnnAssign))
                for t in (n.targets if isinstance(n, ast.Assign)
                          else [n.target])]

    def objs(self, v):
        return [self.heap[k] for k in v.objs]

    # --- reports

    def violation(self, where, what):
        if self.reporting:
            self.violations.setdefault((where, what))

    def reason(self, v, depth=0, seen=None):
        """Why is a value, with all its contents, arbitrary."""
        if v.arb:
            return v.arb
        seen = set() if seen is None else seen
        for o in self.objs(v):
            if o.key in seen:
                continue
            seen.add(o.key)
            if o.arb and o.kind not in ('dict', 'set', 'keys'):
                return o.arb
            for x in [o.elem, o.keys, *(o.fields or ()),
                      *o.attrs.values()]:
                r = self.reason(x, depth + 1, seen)
                if r:
                    return r
        return None

    def sinks(self):
        for f in self.functions.values():
            if (f.callers or isinstance(f.node, (ast.Module, ast.Lambda))
                    or f.name in ('__hash__',)):
                continue
            r = self.reason(f.ret)
            if r:
                self.violation(r, 'the order gets to what '
                               f'{f.name} returns')


COMMUTATIVE = (ast.BitOr, ast.BitAnd, ast.BitXor)
CLEARING = {'len', 'min', 'max', 'sum', 'any', 'all', 'isinstance',
            'issubclass', 'bool', 'type', 'hasattr', 'callable', 'id',
            'print', 'warnings.warn', 'math.fsum', 'math.prod'}
SETS = {'set', 'frozenset', 'builtins.set', 'builtins.frozenset'}
SEQUENCES = {'list', 'tuple', 'collections.deque', 'deque'}
LAZY = {'iter', 'map', 'filter', 'zip', 'enumerate', 'reversed',
        'itertools.chain', 'itertools.islice', 'itertools.zip_longest',
        'itertools.product', 'itertools.starmap', 'itertools.accumulate',
        'itertools.takewhile', 'itertools.dropwhile', 'itertools.groupby',
        'itertools.tee', 'itertools.cycle', 'itertools.compress',
        'itertools.filterfalse', 'itertools.combinations',
        'itertools.permutations', 'itertools.chain.from_iterable'}
DICTS = {'dict', 'collections.OrderedDict', 'collections.Counter',
         'collections.defaultdict', 'types.MappingProxyType',
         'collections.ChainMap', 'dict.fromkeys',
         'weakref.WeakValueDictionary', 'collections.OrderedDict.fromkeys'}
SET_TYPES = {'Set', 'FrozenSet', 'AbstractSet', 'MutableSet', 'set',
             'frozenset', 'KeysView'}
EXTERNAL_SETS = {'sys.stdlib_module_names', 'keyword.kwlist_set'}


class Loop:
    def __init__(self, node, reason, sym, deps):
        self.node, self.reason, self.sym, self.deps = node, reason, sym, deps

    def of(self, deps):
        return frozenset(s for s in deps
                         if s[0] == 'l' and s[1] == self.sym)


class Frame:
    def __init__(self, analysis, f, env):
        self.a, self.f, self.env = analysis, f, env
        self.loops = []
        self.lines = [(getattr(f.node, 'lineno', 1),
                       getattr(f.node, 'end_lineno', 10 ** 9))]

    # --- entries

    def module(self):
        # variables of modules are not followed along the control flow
        # by functions
        self.env = {}
        self.block(self.f.node.body)
        g = self.a.globals[self.f.module.name]
        for k, v in self.env.items():
            new = join(g.get(k), v.bare())
            if new != g.get(k):
                g[k] = new
                self.a.touch()

    def function(self):
        node, f = self.f.node, self.f
        args = node.args
        every = [*args.posonlyargs, *args.args, args.vararg,
                 *args.kwonlyargs, args.kwarg]
        for arg in every:
            if arg is None:
                continue
            v = f.params.get(arg.arg, NOTHING)
            if not v.objs and set_annotation(arg.annotation):
                v = join(v, Val(frozenset([self.a.alloc(
                    self, arg, 'set', 'parameter').key])))
            s = frozenset([('p', f.id, arg.arg)])
            self.env[arg.arg] = Val(v.objs, v.arb, s, s, v.fns)
        if isinstance(node, ast.Lambda):
            self.returned(self.expr(node.body))
        else:
            self.block(node.body)

    def returned(self, v):
        f = self.f
        for loop in self.loops:
            found = loop.of(v.deps)
            if found:
                v = v._replace(arb=v.arb or loop.reason)
        v = self.close(v)
        # values of variables are not what their deps are
        new = join(f.ret, v)
        if new != f.ret:
            f.ret = new
            self.a.touch()

    def close(self, v):
        """Forget about elements of loops."""
        deps = v.deps
        for loop in reversed(self.loops):
            if loop.of(deps):
                deps = deps - loop.of(deps) | loop.deps
        return v._replace(deps=deps, clear=v.clear & deps)

    def where(self, node):
        m = self.f.module
        name = ('<module>' if isinstance(self.f.node, ast.Module)
                else self.f.name)
        return f'{self.a.relative(m.path)}:{node.lineno} {name}'

    # --- statements

    def block(self, body):
        for s in body:
            if not self.statement(s):
                return False
        return True

    def statement(self, s):
        """False if what follows is unreachable."""
        method = getattr(self, 's_' + type(s).__name__, None)
        if method is not None:
            return method(s) is not False
        for child in ast.iter_child_nodes(s):
            if isinstance(child, ast.expr):
                self.expr(child)
        return True

    def s_Return(self, s):
        if s.value is not None:
            self.returned(self.expr(s.value))
        return False

    def s_Raise(self, s):
        return False

    def s_Continue(self, s):
        return False

    s_Break = s_Continue

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Assert(self, s):
        self.expr(s.test)

    def merge(self, *envs):
        result = {}
        for e in envs:
            if e is None:
                continue
            for k, v in e.items():
                result[k] = join(result[k], v) if k in result else v
        self.env = result

    def s_If(self, s):
        self.expr(s.test)
        before = dict(self.env)
        self.assume(s.test, True)
        a = self.block(s.body)
        then = dict(self.env)
        self.env = before
        self.assume(s.test, False)
        b = self.block(s.orelse)
        if a and b:
            self.merge(then, self.env)
        elif a:
            self.env = then
        elif not b:
            # what follows may be reached from enclosing loops only
            self.merge(then, self.env)
            return False
        return True

    def s_Try(self, s):
        before = dict(self.env)
        ended = self.block(s.body)
        after = dict(self.env)
        if ended:
            ended = self.block(s.orelse)
        results = [dict(self.env)] if ended else []
        for h in s.handlers:
            self.merge(before, after)
            if h.name:
                self.env[h.name] = NOTHING
            if self.block(h.body):
                results.append(dict(self.env))
        if results:
            self.merge(*results)
        else:
            self.merge(before, after)
        done = self.block(s.finalbody)
        return bool(results) and done

    s_TryStar = s_Try

    def s_With(self, s):
        for item in s.items:
            v = self.expr(item.context_expr)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v)
        return self.block(s.body)

    s_AsyncWith = s_With

    def s_While(self, s):
        # elements popped from a set come in an arbitrary order
        before = dict(self.env)
        self.expr(s.test)
        for _ in range(2):
            self.block(s.body)
            self.merge(before, self.env)
            self.expr(s.test)
        self.block(s.orelse)

    def s_For(self, s):
        before = dict(self.env)
        v = self.expr(s.iter)
        loop = self.enter(s, s.target, v, s.iter)
        for _ in range(2):
            self.block(s.body)
            self.merge(before, self.env)
            self.element(s.target, v, loop)
        self.leave(loop)
        self.block(s.orelse)

    s_AsyncFor = s_For

    def enter(self, node, target, v, at):
        elem, reason = self.iterate(v)
        loop = None
        self.note(at, v, reason)
        if reason:
            loop = Loop(node, f'{self.where(at)}: {reason}'
                        if reason == UNORDERED else reason,
                        (self.f.id, node.lineno, node.col_offset), v.deps)
            self.loops.append(loop)
        self.element(target, v, loop)
        return loop

    def note(self, at, v, reason):
        if self.a.reporting and v.objs:
            self.a.sites[self.where(at)] = bool(reason)

    def element(self, target, v, loop):
        elem, _ = self.iterate(v)
        if loop is None:
            self.assign(target, elem._replace(deps=v.deps))
        else:
            self.components(target, elem, v.deps, loop.sym, ())

    def components(self, target, elem, deps, sym, path):
        if isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            starred = any(isinstance(t, ast.Starred) for t in target.elts)
            for i, t in enumerate(target.elts):
                self.components(t.value if isinstance(t, ast.Starred) else t,
                                self.item(elem, None if starred else i, n),
                                deps, sym, path + (i,))
        else:
            s = frozenset([('l', sym, path)])
            self.assign(target, elem._replace(deps=deps | s, clear=s))

    def leave(self, loop):
        if loop is None:
            return
        self.loops.remove(loop)
        for k, v in list(self.env.items()):
            found = loop.of(v.deps)
            if found:
                deps = v.deps - found | loop.deps
                self.env[k] = Val(v.objs, v.arb or loop.reason, deps,
                                  v.clear & deps, v.fns)

    def s_Assign(self, s):
        for target in s.targets:
            if (isinstance(target, (ast.Tuple, ast.List))
                    and isinstance(s.value, (ast.Tuple, ast.List))
                    and len(target.elts) == len(s.value.elts)
                    and not any(isinstance(x, ast.Starred)
                                for x in target.elts + s.value.elts)):
                values = [self.expr(x) for x in s.value.elts]
                for t, v in zip(target.elts, values):
                    self.assign(t, v)
                return
        v = self.expr(s.value)
        if isinstance(s.value, ast.BoolOp) or self.accumulates(s):
            v = v._replace(deps=frozenset(
                x for x in v.deps if x[0] != 'l'))
        for target in s.targets:
            self.assign(target, v)

    def accumulates(self, s):
        """Is it a commutative update of a variable."""
        names = {t.id for t in s.targets if isinstance(t, ast.Name)}
        x = s.value
        if isinstance(x, ast.BinOp) and isinstance(x.op, COMMUTATIVE):
            parts = [x.left, x.right]
        elif (isinstance(x, ast.Call) and isinstance(x.func, ast.Name)
              and x.func.id in ('min', 'max') and not x.keywords):
            parts = x.args
        else:
            return False
        return any(isinstance(p, ast.Name) and p.id in names for p in parts)

    def s_AnnAssign(self, s):
        if s.value is not None:
            v = self.expr(s.value)
            self.assign(s.target, v)

    def s_AugAssign(self, s):
        v = self.expr(s.value)
        if isinstance(s.target, ast.Name):
            old = self.lookup(s.target.id)
            if isinstance(s.op, COMMUTATIVE):
                for o in self.a.objs(old):
                    if o.kind == 'set':
                        self.a.put(o, elem=self.iterate(v)[0])
                self.env[s.target.id] = old
                return
            kinds = {o.kind for o in self.a.objs(old)}
            if isinstance(s.op, ast.Add) and kinds & {'list', 'tuple'}:
                if kinds == {'list'}:
                    self.extend(s, old, v)
                    return
                r = self.concat(s, old, v)
                self.env[s.target.id] = r
                return
            text = (isinstance(s.value, ast.JoinedStr)
                    or isinstance(s.value, ast.Constant)
                    and isinstance(s.value.value, str)
                    or is_text(s.value))
            if not text and not v.arb:
                # a number or something we know nothing about
                self.env[s.target.id] = join(
                    old, v._replace(deps=frozenset(
                        x for x in v.deps if x[0] != 'l')))
                return
            self.env[s.target.id] = join(old, v)
        else:
            base, key = self.place(s.target)
            if (isinstance(s.op, ast.Add)
                    and any(o.kind == 'list' for o in
                            self.a.objs(self.read(s.target)))):
                self.extend(s, self.read(s.target), v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.env.pop(t.id, None)

    def s_Global(self, s):
        pass

    def s_FunctionDef(self, s):
        f = self.define(s)
        v = Val(fns=frozenset([('f', f.id, EMPTY)]))
        for d in s.decorator_list:
            self.decorate(d, s, f)
        for d in [*s.args.defaults, *s.args.kw_defaults]:
            if d is not None:
                self.expr(d)
        positional = [*s.args.posonlyargs, *s.args.args]
        for arg, d in zip(positional[::-1], s.args.defaults[::-1]):
            self.pass_(f, arg.arg, self.expr(d))
        for arg, d in zip(s.args.kwonlyargs, s.args.kw_defaults):
            if d is not None:
                self.pass_(f, arg.arg, self.expr(d))
        self.env[s.name] = (join(self.env.get(s.name), v)
                            if s.name == '_' else v)

    s_AsyncFunctionDef = s_FunctionDef

    def define(self, node, cls=None):
        id_ = (self.f.module.name, node.lineno, node.col_offset)
        f = self.a.functions.get(id_)
        if f is None:
            f = self.a.functions[id_] = Function(
                id_, node, self.f.module,
                None if isinstance(self.f.node, ast.Module) else self.f, cls)
            f.yields = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                           for x in walk(node))
            self.a.touch()
        return f

    def decorate(self, d, s, f):
        for x in ast.walk(d):
            if (isinstance(x, ast.Attribute) and x.attr == 'register'):
                for fn in self.expr(x.value).fns:
                    if fn[0] == 'f':
                        handlers = self.a.dispatch.setdefault(fn[1], set())
                        if f.id not in handlers:
                            handlers.add(f.id)
                            self.a.touch()
                        types = [ast.unparse(t) for t in
                                 getattr(d, 'args', [])]
                        first = (s.args.posonlyargs + s.args.args)[:1]
                        if first:
                            self.registered(f, first[0], types)
        text = ast.unparse(d)
        if 'property' in text:
            f.is_property = True
        if text.endswith('staticmethod'):
            f.static = True

    def registered(self, f, arg, types):
        """Values of a type may be in any order."""
        kinds = []
        for t in types:
            t = t.rsplit('.')[-1]
            if t in ('set', 'frozenset', 'dict', 'list', 'tuple'):
                self.a.dispatched.setdefault(f.id, set()).add(
                    {'frozenset': 'set'}.get(t, t))
            if t in ('set', 'frozenset', 'Set', 'AbstractSet'):
                kinds.append(('set', None))
            elif t in ('dict', 'Mapping', 'OrderedDict', 'MutableMapping'):
                kinds.append(('dict', 'dictionary filled in any order'))
        for kind, reason in kinds:
            o = self.a.alloc(self, arg, kind, 'registered')
            self.a.put(o, arb=reason and UNORDERED)
            self.pass_(f, arg.arg, Val(frozenset([o.key])))

    def s_ClassDef(self, s):
        id_ = (self.f.module.name, s.lineno, s.col_offset)
        k = self.a.classes.get(id_)
        if k is None:
            k = self.a.classes[id_] = Class(id_, s, self.f.module)
            self.a.touch()
        k.bases = [fn for b in s.bases for fn in self.expr(b).fns]
        for child in s.body:
            if isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self.define(child, k)
                k.methods.setdefault(child.name, f.id)
                for d in child.decorator_list:
                    self.decorate(d, child, f)
                positional = [*child.args.posonlyargs, *child.args.args]
                for arg, d in zip(positional[::-1],
                                  child.args.defaults[::-1]):
                    self.pass_(f, arg.arg, self.expr(d))
                for arg, d in zip(child.args.kwonlyargs,
                                  child.args.kw_defaults):
                    if d is not None:
                        self.pass_(f, arg.arg, self.expr(d))
        self.env[s.name] = Val(fns=frozenset([('c', id_)]))

    def s_Import(self, s):
        for alias in s.names:
            name = alias.asname or alias.name.split('.')[0]
            target = alias.name if alias.asname else name
            self.env[name] = Val(fns=frozenset([('x', target)]))

    def s_ImportFrom(self, s):
        package = self.f.module.name.split('.')
        if s.level:
            depth = s.level - (1 if getattr(self.f.module, 'is_package',
                                            False) else 0)
            base = package[:len(package) - depth]
        else:
            base = []
        source = '.'.join(base + (s.module.split('.') if s.module else []))
        for alias in s.names:
            name = alias.asname or alias.name
            if alias.name == '*':
                continue
            if f'{source}.{alias.name}' in self.a.trees:
                v = Val(fns=frozenset([('x', f'{source}.{alias.name}')]))
            elif source in self.a.trees:
                v = Val(fns=frozenset([('g', source, alias.name)]))
            else:
                v = Val(fns=frozenset([('x', f'{source}.{alias.name}')]))
            self.env[name] = self.loaded(v)

    # --- places

    def loaded(self, v):
        """Values of variables of other modules."""
        result = []
        for fn in v.fns:
            if fn[0] == 'g':
                result.append(self.a.globals[fn[1]].get(fn[2], NOTHING))
        if not result:
            return v
        return join(v._replace(fns=frozenset(fn for fn in v.fns
                                             if fn[0] != 'g')), *result)

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            self.env[target.id] = v
            if not isinstance(self.f.node, ast.Module):
                new = join(self.f.locals.get(target.id), v.bare())
                if new != self.f.locals.get(target.id):
                    self.f.locals[target.id] = new
                    self.a.touch()
        elif isinstance(target, (ast.Tuple, ast.List)):
            n = len(target.elts)
            starred = any(isinstance(t, ast.Starred) for t in target.elts)
            elem, reason = self.iterate(v)
            for i, t in enumerate(target.elts):
                if isinstance(t, ast.Starred):
                    o = self.a.put(self.a.alloc(self, t, 'list'), elem=elem,
                                   arb=reason and self.because(t, reason))
                    self.assign(t.value, Val(frozenset([o.key]),
                                             deps=v.deps))
                    continue
                x = self.item(v, None if starred else i, n)
                if reason and n > 1 and self.sets(v):
                    x = x._replace(arb=x.arb or self.because(t, reason))
                self.assign(t, x._replace(deps=v.deps, clear=EMPTY))
        elif isinstance(target, ast.Subscript):
            self.store(target, self.expr(target.value),
                       self.expr(target.slice), v)
            self.filled(target.value, v, self.expr(target.slice))
        elif isinstance(target, ast.Attribute):
            base = self.expr(target.value)
            for o in self.a.objs(base):
                self.a.attr(o, target.attr, v)
            self.effect('store', base, NOTHING, v, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)

    def sets(self, v):
        return any(o.kind in ('set', 'dict', 'keys') or o.arb
                   for o in self.a.objs(v))

    def place(self, target):
        if isinstance(target, ast.Subscript):
            return self.expr(target.value), self.expr(target.slice)
        return self.expr(target.value), NOTHING

    def read(self, target):
        return self.expr(target)

    def store(self, node, base, key, v):
        for o in self.a.objs(base):
            if o.kind in ('dict', 'list', 'iter'):
                self.a.put(o, elem=v, keys=key)
        self.effect('store', base, key, v, node)

    def filled(self, container, *values):
        """Contents of a local container depend on what they are made of."""
        v = isinstance(container, ast.Name) and self.env.get(container.id)
        if v and v.objs and all(o.owner == self.f.id
                                for o in self.a.objs(v)):
            self.env[container.id] = v._replace(deps=v.deps.union(*[
                [s for s in x.deps if s[0] == 'p'] for x in values]))

    def because(self, node, reason):
        return (f'{self.where(node)}: {reason}' if reason == UNORDERED
                else reason)

    def effect(self, op, base, key, v, node):
        if not base.objs:
            return
        self.apply(Effect(op, base.objs, base.deps | key.deps,
                          base.clear | key.clear, v.deps,
                          self.where(node)), node, None)

    def apply(self, e, node, callee):
        """An effect of an expression of the body."""
        for loop in self.loops:
            fresh = self.fresh(loop, callee)
            objs = [self.a.heap[k] for k in sorted(e.objs, key=repr)
                    if k not in fresh]
            if not objs:
                continue
            key, clear, value = (loop.of(e.key), loop.of(e.clear),
                                 loop.of(e.value))
            if e.op == 'append':
                if clear or not (value or key):
                    continue
                for o in objs:
                    if o.kind in ('list', 'iter'):
                        self.a.put(o, arb=loop.reason)
            elif value <= key:
                if key:
                    for o in objs:
                        if o.kind == 'dict':
                            self.a.put(o, arb=UNORDERED)
            else:
                self.a.violation(
                    loop.reason, 'what is stored depends on the order '
                    f'({e.where})')
        key, clear, value = e.key, e.clear, e.value
        for loop in reversed(self.loops):
            if loop.of(key):
                key = key - loop.of(key) | loop.deps
            if loop.of(value):
                value = value - loop.of(value) | loop.deps
            clear = clear - loop.of(clear)
        e = e._replace(key=key, clear=clear & key, value=value)
        # what nobody else can reach and what is not given is not followed
        if any(s[0] == 'p' for s in e.value | e.key) \
                and e not in self.f.effects \
                and not (callee is None and self.anew(node)):
            self.f.effects.add(e)
            self.a.touch()

    def anew(self, node):
        """Is it a container which every call makes for itself."""
        if isinstance(node, ast.Call) and isinstance(node.func,
                                                     ast.Attribute):
            node = node.func
        node = getattr(node, 'value', None)
        return (isinstance(node, ast.Name)
                and node.id in self.a.made(self.f))

    def fresh(self, loop, callee):
        """Objects created anew for each of elements."""
        key = (self.f.id, loop.sym, callee and callee.id)
        cached = self.a.fresh.get(key)
        if cached is not None and cached[0] == self.a.version:
            return cached[1]
        candidates = {
            k for k, o in self.a.heap.items()
            if (o.owner in callee.closure if callee is not None else
                o.owner == self.f.id and inside(loop.node, o.node))}
        stack = [o for k, o in self.a.heap.items() if k not in candidates]
        while stack:
            o = stack.pop()
            for v in [o.elem, o.keys, *(o.fields or ()), *o.attrs.values()]:
                for k in v.objs:
                    if k in candidates:
                        candidates.remove(k)
                        stack.append(self.a.heap[k])
        self.a.fresh[key] = self.a.version, candidates
        return candidates

    # --- expressions

    def expr(self, e):
        if e is None:
            return NOTHING
        method = getattr(self, 'e_' + type(e).__name__, None)
        if method is not None:
            return method(e)
        return self.generic(e)

    def generic(self, e):
        values = [self.expr(x) for x in ast.iter_child_nodes(e)
                  if isinstance(x, ast.expr)]
        return Val(arb=next((v.arb for v in values if v.arb), None),
                   deps=EMPTY.union(*[v.deps for v in values]))

    def e_Constant(self, e):
        return NOTHING

    def lookup(self, name):
        if name in self.env:
            return self.env[name]
        f = self.f.outer
        while f is not None:
            if name in f.locals or name in f.params:
                return join(f.locals.get(name), f.params.get(name)).bare()
            f = f.outer
        g = self.a.globals[self.f.module.name]
        if name in g:
            return g[name]
        return Val(fns=frozenset([('x', name)]))

    def e_Name(self, e):
        return self.lookup(e.id)

    def e_NamedExpr(self, e):
        v = self.expr(e.value)
        self.assign(e.target, v)
        return v

    def e_Starred(self, e):
        return self.expr(e.value)

    def e_Lambda(self, e):
        f = self.define(e)
        for k, v in self.env.items():
            self.capture(k, v)
        return Val(fns=frozenset([('f', f.id, EMPTY)]))

    def capture(self, k, v):
        if isinstance(self.f.node, ast.Module):
            return
        new = join(self.f.locals.get(k), v.bare())
        if new != self.f.locals.get(k):
            self.f.locals[k] = new
            self.a.touch()

    def e_IfExp(self, e):
        self.expr(e.test)
        before = dict(self.env)
        self.assume(e.test, True)
        body = self.expr(e.body)
        self.env = dict(before)
        self.assume(e.test, False)
        orelse = self.expr(e.orelse)
        self.env = before
        return join(body, orelse)

    def assume(self, test, truth):
        """There is no order in empty collections."""
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            self.assume(test.operand, not truth)
        elif isinstance(test, ast.Name) and not truth:
            if test.id in self.env:
                v = self.env[test.id]
                self.env[test.id] = v._replace(
                    objs=frozenset(k for k in v.objs
                                   if self.a.heap[k].kind == 'inst'))
        elif isinstance(test, ast.BoolOp) and truth == isinstance(
                test.op, ast.And):
            for x in test.values:
                self.assume(x, truth)
        elif (isinstance(test, ast.Call) and isinstance(test.func, ast.Name)
              and test.func.id in ('len', 'bool') and len(test.args) == 1):
            self.assume(test.args[0], truth)

    def e_BoolOp(self, e):
        return join(*[self.expr(x) for x in e.values])

    def e_Compare(self, e):
        values = [self.expr(x) for x in [e.left, *e.comparators]]
        arb = None
        if not any(isinstance(op, (ast.In, ast.NotIn, ast.Is, ast.IsNot))
                   for op in e.ops):
            arb = next((self.seq_reason(v) for v in values
                        if self.seq_reason(v)), None)
        return Val(arb=arb, deps=EMPTY.union(*[v.deps for v in values]))

    def seq_reason(self, v):
        if v.arb:
            return v.arb
        for o in self.a.objs(v):
            if o.arb and o.kind in ('list', 'tuple', 'iter'):
                return o.arb
        return None

    def display(self, e, kind):
        values, fields = [], []
        arb = None
        for x in e.elts:
            v = self.expr(x)
            if isinstance(x, ast.Starred):
                elem, reason = self.iterate(v)
                if reason:
                    arb = arb or self.because(x, reason)
                values.append(elem._replace(deps=v.deps, clear=v.clear))
                fields = None
            else:
                values.append(v)
                if fields is not None:
                    fields.append(v)
        o = self.a.alloc(self, e, kind)
        every = join(*values)
        if kind == 'set':
            self.a.put(o, elem=every._replace(arb=None))
        else:
            self.a.put(o, elem=every,
                       fields=fields if kind == 'tuple' else None, arb=arb)
        return Val(frozenset([o.key]), None, every.deps, every.clear)

    def e_List(self, e):
        return self.display(e, 'list')

    def e_Tuple(self, e):
        return self.display(e, 'tuple')

    def e_Set(self, e):
        return self.display(e, 'set')

    def e_Dict(self, e):
        o = self.a.alloc(self, e, 'dict')
        deps = EMPTY
        for k, x in zip(e.keys, e.values):
            v = self.expr(x)
            deps |= v.deps
            if k is None:
                for p in self.a.objs(v):
                    self.a.put(o, elem=p.elem, keys=p.keys, arb=p.arb)
            else:
                key = self.expr(k)
                self.a.put(o, elem=v, keys=key)
                deps |= key.deps
        return Val(frozenset([o.key]), deps=deps)

    def comprehension(self, e, kind, parts):
        saved, loops = dict(self.env), []
        arb = None
        deps = EMPTY
        for g in e.generators:
            v = self.expr(g.iter)
            deps |= v.deps
            loops.append(self.enter(e, g.target, v, g.iter))
            for c in g.ifs:
                self.expr(c)
        values = [self.expr(p) for p in parts]
        o = self.a.alloc(self, e, kind)
        real = [loop for loop in loops if loop is not None]
        if kind == 'set':
            self.a.put(o, elem=values[0]._replace(arb=None))
        elif kind == 'dict':
            self.a.put(o, keys=values[0], elem=values[1])
            for loop in real:
                self.a.put(o, arb=UNORDERED)
                if not loop.of(values[1].deps) <= loop.of(values[0].deps):
                    self.a.put(o, elem=values[1]._replace(arb=loop.reason))
        else:
            varies = [loop for loop in real if loop.of(values[0].deps)]
            self.a.put(o, elem=values[0],
                       arb=varies[0].reason if varies else None)
        for v in values:
            deps |= v.deps
        for loop in real:
            deps = deps - loop.of(deps) | loop.deps
            self.loops.remove(loop)
        walrus = {x.target.id for x in ast.walk(e)
                  if isinstance(x, ast.NamedExpr)}
        new = {k: v for k, v in self.env.items() if k in walrus}
        self.env = saved
        self.env.update(new)
        return Val(frozenset([o.key]), deps=deps)

    def e_ListComp(self, e):
        return self.comprehension(e, 'list', [e.elt])

    def e_SetComp(self, e):
        return self.comprehension(e, 'set', [e.elt])

    def e_GeneratorExp(self, e):
        return self.comprehension(e, 'iter', [e.elt])

    def e_DictComp(self, e):
        return self.comprehension(e, 'dict', [e.key, e.value])

    def e_JoinedStr(self, e):
        arb, deps = None, EMPTY
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                v = self.expr(x.value)
                deps |= v.deps
                arb = arb or self.text(v, x)
        return Val(arb=arb, deps=deps)

    def text(self, v, node):
        """Why is a text of a value arbitrary."""
        if v.arb:
            return v.arb
        for o in self.a.objs(v):
            if o.kind == 'set' or o.arb:
                return self.because(node, o.arb or UNORDERED)
        return None

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_BinOp(self, e):
        left, right = self.expr(e.left), self.expr(e.right)
        if isinstance(e.op, (*COMMUTATIVE, ast.Sub)):
            kinds = {o.kind for o in self.a.objs(left) + self.a.objs(right)}
            if kinds & {'set', 'keys'}:
                o = self.a.alloc(self, e, 'set')
                for v in (left, right):
                    self.a.put(o, elem=self.iterate(v)[0]._replace(arb=None))
                return Val(frozenset([o.key]), deps=left.deps | right.deps)
            if 'dict' in kinds and isinstance(e.op, ast.BitOr):
                o = self.a.alloc(self, e, 'dict')
                for p in self.a.objs(left) + self.a.objs(right):
                    self.a.put(o, elem=p.elem, keys=p.keys, arb=p.arb)
                return Val(frozenset([o.key]), deps=left.deps | right.deps)
        if isinstance(e.op, ast.Add):
            return self.concat(e, left, right)
        if isinstance(e.op, ast.Mod) and is_text(e.left):
            return Val(arb=self.text(right, e),
                       deps=left.deps | right.deps)
        return Val(arb=left.arb or right.arb, deps=left.deps | right.deps)

    def concat(self, e, left, right):
        objs = self.a.objs(left) + self.a.objs(right)
        kinds = {o.kind for o in objs}
        deps, clear = left.deps | right.deps, left.clear | right.clear
        if kinds & {'list', 'tuple'}:
            kind = 'list' if 'list' in kinds else 'tuple'
            o = self.a.alloc(self, e, kind)
            for p in objs:
                self.a.put(o, elem=p.elem, arb=p.arb)
            return Val(frozenset([o.key]), left.arb or right.arb, deps,
                       clear)
        return Val(EMPTY, left.arb or right.arb, deps, clear)

    def e_Subscript(self, e):
        base, key = self.expr(e.value), self.expr(e.slice)
        if isinstance(e.slice, ast.Slice):
            # a part of a sequence is in the same order
            return base.opaque()._replace(deps=base.deps | key.deps)
        index = (e.slice.value if isinstance(e.slice, ast.Constant)
                 and isinstance(e.slice.value, int) else None)
        result, arb = [], base.arb or key.arb
        for o in self.a.objs(base):
            if o.fields is not None and index is not None:
                if -len(o.fields) <= index < len(o.fields):
                    result.append(o.fields[index])
                continue
            result.append(o.elem)
            if o.arb and o.kind in ('list', 'tuple', 'iter'):
                arb = arb or o.arb
        v = join(*result)
        return Val(v.objs, v.arb or arb, base.deps | key.deps,
                   base.clear | key.clear, v.fns)

    def e_Attribute(self, e):
        base = self.expr(e.value)
        return self.attribute(base, e.attr, e)

    def attribute(self, base, name, node):
        result = []
        fns = set()
        for fn in base.fns:
            if fn[0] == 'x':
                dotted = f'{fn[1]}.{name}'
                if fn[1] in self.a.trees:
                    result.append(self.a.globals[fn[1]].get(name, NOTHING))
                elif dotted in EXTERNAL_SETS:
                    o = self.a.alloc(self, node, 'set')
                    result.append(Val(frozenset([o.key])))
                elif dotted.count('.') < 5:
                    fns.add(('x', dotted))
            elif fn[0] == 'c':
                k = self.a.classes[fn[1]]
                m = self.method(k, name)
                if m is not None:
                    fns.add(('f', m, EMPTY))
        known = False
        for o in self.a.objs(base):
            if o.kind != 'inst':
                continue
            known = True
            if name in o.attrs:
                result.append(o.attrs[name])
            if o.cls is not None:
                for m in self.methods(self.a.classes[o.cls], name):
                    f = self.a.functions[m]
                    if f.is_property:
                        result.append(self.invoke(f, [base], {}, node))
                    else:
                        fns.add(('f', m, frozenset([o.key])))
        if not known and not base.fns and not base.objs:
            for k in self.a.classes.values():
                m = k.methods.get(name)
                if m is not None:
                    f = self.a.functions[m]
                    if f.is_property:
                        result.append(self.invoke(f, [base], {}, node))
        v = join(*result)
        return Val(v.objs, v.arb or base.arb, base.deps, base.clear,
                   v.fns | frozenset(fns))

    def method(self, k, name):
        if name in k.methods:
            return k.methods[name]
        for b in k.bases:
            if b[0] == 'c':
                m = self.method(self.a.classes[b[1]], name)
                if m is not None:
                    return m
        return None

    def methods(self, k, name):
        m = self.method(k, name)
        if m is not None:
            return [m]
        if name in ('visit', 'generic_visit'):
            return [f for n, f in sorted(k.methods.items())
                    if n.startswith('visit_')]
        return []

    def e_Await(self, e):
        return self.expr(e.value)

    def e_Yield(self, e):
        v = self.expr(e.value)
        self.yielded(v, e)
        return NOTHING

    def e_YieldFrom(self, e):
        v = self.expr(e.value)
        elem, reason = self.iterate(v)
        self.yielded(elem._replace(deps=v.deps), e,
                     reason and self.because(e, reason))
        return NOTHING

    def yielded(self, v, node, reason=None):
        o = self.a.alloc(self, self.f.node, 'iter', 'generator')
        for loop in self.loops:
            if loop.of(v.deps):
                reason = reason or loop.reason
        self.a.put(o, elem=v, arb=reason)
        v = self.close(v)
        new = join(self.f.ret, Val(frozenset([o.key]), deps=v.deps))
        if new != self.f.ret:
            self.f.ret = new
            self.a.touch()

    # --- iteration

    def iterate(self, v):
        elems, reason = [], v.arb
        for o in self.a.objs(v):
            if o.kind == 'dict':
                elems.append(o.keys)
                if o.arb:
                    reason = reason or UNORDERED
            elif o.kind == 'set':
                elems.append(o.elem)
                reason = reason or UNORDERED
            else:
                elems.append(join(o.elem, *(o.fields or ())))
                if o.arb:
                    reason = reason or o.arb
        return join(*elems), reason

    def item(self, v, i, n):
        result = []
        for o in self.a.objs(v):
            if o.fields is not None and i is not None:
                if len(o.fields) == n:
                    result.append(o.fields[i])
            else:
                result.append(o.keys if o.kind == 'dict' else o.elem)
        x = join(*result)
        return x._replace(arb=x.arb or v.arb)

    # --- calls

    def e_Call(self, e):
        args, kwargs, stars = [], {}, []
        for x in e.args:
            v = self.expr(x)
            if isinstance(x, ast.Starred):
                stars.append(v)
            args.append((isinstance(x, ast.Starred), v))
        double = []
        for k in e.keywords:
            v = self.expr(k.value)
            if k.arg is None:
                double.append(v)
            else:
                kwargs[k.arg] = v
        results = []
        if isinstance(e.func, ast.Attribute):
            base = self.expr(e.func.value)
            handled = self.container(e, base, e.func.attr, args, kwargs)
            if handled is not None:
                results.append(handled)
                if not base.fns and all(o.kind != 'inst'
                                        for o in self.a.objs(base)):
                    return handled
            self.written(e, e.func.attr, args, kwargs)
        f = self.expr(e.func)
        known = False
        for fn in sorted(f.fns, key=repr):
            if fn[0] == 'x':
                results.append(self.external(e, fn[1], args, kwargs))
                known = True
            elif fn[0] == 'c':
                results.append(self.construct(e, fn[1], args, kwargs,
                                              double))
                known = True
            elif fn[0] == 'f':
                known = True
                receiver = ([Val(fn[2], deps=f.deps, clear=f.clear)]
                            if fn[2] else [])
                results.append(self.call(e, fn[1], receiver, args, kwargs,
                                         double))
            elif fn[0] == 'p':
                known = True
                results.append(self.call(e, fn[1], list(fn[2]), args, kwargs,
                                         double))
        if not known and not results:
            results.append(self.unknown(e, f, args, kwargs))
        return join(*results)

    def unknown(self, e, f, args, kwargs):
        values = [f, *[v for _, v in args], *kwargs.values()]
        return Val(arb=next((self.seq_reason(v) for v in values
                             if self.seq_reason(v)), None),
                   deps=EMPTY.union(*[v.deps for v in values]))

    def written(self, e, name, args, kwargs):
        """Sinks."""
        if name not in ('write', 'writelines', 'write_text', 'write_bytes'):
            return
        for _, v in args:
            self.sink(v)

    def sink(self, v):
        r = self.a.reason(v)
        if r:
            self.a.violation(r, 'the order gets to what is written')
        for s in self.close(v).deps:
            if s[0] == 'p' and s[1] == self.f.id \
                    and s[2] not in self.f.sinks:
                self.f.sinks.add(s[2])
                self.a.touch()

    def pass_(self, f, name, v):
        v = v.bare()
        new = join(f.params.get(name), v)
        if new != f.params.get(name):
            f.params[name] = new
            self.a.touch()

    def construct(self, e, cid, args, kwargs, double):
        k = self.a.classes[cid]
        o = self.a.alloc(self, e, 'inst')
        o.cls = cid
        values = [v for _, v in args] + list(kwargs.values())
        deps = EMPTY.union(*[v.deps for v in values])
        clear = EMPTY.union(*[v.clear for v in values])
        self_ = Val(frozenset([o.key]),
                    next((v.arb for v in values if v.arb), None), deps,
                    clear)
        result = self_
        m = self.method(k, '__new__')
        if m is not None:
            made = self.call(e, m, [Val(fns=frozenset([('c', cid)]))], args,
                             kwargs, double)
            result = join(self_, Val(frozenset(
                x.key for x in self.a.objs(made) if x.kind == 'inst')))
        m = self.method(k, '__init__')
        if m is not None:
            self.call(e, m, [result], args, kwargs, double)
        return result

    def call(self, e, fid, receiver, args, kwargs, double=()):
        f = self.a.functions[fid]
        positional = [(False, r) for r in receiver] + list(args)
        handlers = sorted(self.a.dispatch.get(fid, ()))
        handled = {k for h in handlers
                   for k in self.a.dispatched.get(h, ())}
        r = self.invoke(f, self.dispatched(positional, handled, False),
                        kwargs, e, double, pairs=True)
        for h in handlers:
            given = self.dispatched(positional,
                                    self.a.dispatched.get(h, ()), True)
            r = join(r, self.invoke(self.a.functions[h], given, kwargs, e,
                                    double, pairs=True))
        # delegation: a function along with its arguments
        a = f.node.args
        if (a.vararg is not None and args and not args[0][0]
                and not self.delegates(args[0][1])):
            for fn in sorted(args[0][1].fns, key=repr):
                if fn[0] == 'f':
                    g = self.a.functions[fn[1]]
                    r = join(r, self.invoke(g, list(args[1:]), kwargs, e,
                                            double, pairs=True))
        return r

    def delegates(self, v):
        """Is it what this function is given to be called with the rest of
        what it is given, which its callers have been told about."""
        a = getattr(self.f.node, 'args', None)
        return a is not None and a.vararg is not None and any(
            s[0] == 'p' and s[1] == self.f.id for s in v.deps)

    def dispatched(self, args, kinds, same):
        """Containers a handler is given."""
        if not args or args[0][0] or not kinds and same:
            return args
        v = args[0][1]
        objs = frozenset(k for k in v.objs
                         if (self.a.heap[k].kind in kinds) == same)
        return [(False, v._replace(objs=objs)), *args[1:]]

    def invoke(self, f, args, kwargs, node, double=(), pairs=False):
        if not pairs:
            args = [(False, v) for v in args]
        self.a.calls += 1
        if f.id != self.f.id:
            f.callers += 1
        if f.id not in self.f.callees:
            self.f.callees.add(f.id)
            self.a.touch()
        if isinstance(f.node, ast.Module):
            return NOTHING
        spec = f.node.args
        names = [x.arg for x in [*spec.posonlyargs, *spec.args]]
        every = names + [x.arg for x in spec.kwonlyargs]
        bound = {}

        def give(name, v):
            bound[name] = join(bound.get(name), v)

        i, starred = 0, False
        for star, v in args:
            if star:
                elem, reason = self.iterate(v)
                elem = elem._replace(
                    deps=v.deps, arb=elem.arb
                    or (reason and self.because(node, reason)))
                fields = [o.fields for o in self.a.objs(v)
                          if o.fields is not None]
                if len(fields) == 1 and not reason:
                    for x in fields[0]:
                        if i < len(names):
                            give(names[i], x._replace(deps=v.deps))
                            i += 1
                        elif spec.vararg is not None:
                            self.variadic(f, spec.vararg, x, None, give, v)
                    continue
                starred = True
                for name in names[i:]:
                    give(name, elem)
                if spec.vararg is not None:
                    self.variadic(f, spec.vararg, elem._replace(arb=None),
                                  reason and self.because(node, reason),
                                  give, v)
            elif i < len(names) and not starred:
                give(names[i], v)
                i += 1
            elif starred:
                for name in names[i:]:
                    give(name, v)
                if spec.vararg is not None:
                    self.variadic(f, spec.vararg, v, None, give, v)
            elif spec.vararg is not None:
                self.variadic(f, spec.vararg, v, None, give, v)
        for name, v in kwargs.items():
            if name in every:
                give(name, v)
            elif spec.kwarg is not None:
                self.keywords(f, spec.kwarg, v, None, give, v)
        for v in double:
            for o in self.a.objs(v):
                for name in every[i:]:
                    give(name, o.elem._replace(deps=v.deps))
                if spec.kwarg is not None:
                    self.keywords(f, spec.kwarg, o.elem, o.arb, give, v)
        for name, v in bound.items():
            self.pass_(f, name, v)
            if name in f.sinks:
                self.sink(v)
        subst = {name: v for name, v in bound.items()}

        def replaced(deps, part):
            result = set()
            for s in deps:
                if s[0] == 'p' and s[1] == f.id:
                    v = subst.get(s[2])
                    if v is not None:
                        result |= getattr(v, part)
                elif s[0] == 'p':
                    pass
                else:
                    result.add(s)
            return frozenset(result)

        for x in sorted(f.effects, key=repr):
            self.apply(Effect(x.op, x.objs, replaced(x.key, 'deps'),
                              replaced(x.clear, 'clear'),
                              replaced(x.value, 'deps'), x.where), node, f)
        r = f.ret
        # an object of a loop's iteration may be what is given
        return Val(r.objs, r.arb, replaced(r.deps, 'deps'),
                   replaced(r.clear, 'clear'), r.fns)

    def variadic(self, f, arg, elem, arb, give, v):
        frame = Frame(self.a, f, {})
        o = self.a.put(self.a.alloc(frame, arg, 'tuple', 'variadic'),
                       elem=elem, arb=arb)
        give(arg.arg, Val(frozenset([o.key]), deps=v.deps, clear=v.clear))

    def keywords(self, f, arg, elem, arb, give, v):
        frame = Frame(self.a, f, {})
        o = self.a.put(self.a.alloc(frame, arg, 'dict', 'variadic'),
                       elem=elem, arb=arb)
        give(arg.arg, Val(frozenset([o.key]), deps=v.deps, clear=v.clear))

    # --- the standard library

    def external(self, e, name, args, kwargs):
        short = name[len('builtins.'):] if name.startswith('builtins.') \
            else name
        values = [v for _, v in args] + list(kwargs.values())
        deps = EMPTY.union(*[v.deps for v in values])
        clear = EMPTY.union(*[v.clear for v in values])
        pos = [v for _, v in args]
        spread = [v for star, v in args if star]
        if short == 'sorted':
            return self.sort(e, pos, kwargs, deps)
        if short in CLEARING:
            return Val(deps=deps)
        if short.endswith('super.__new__') or short == 'object.__new__':
            o = self.a.alloc(self, e, 'inst')
            if self.f.cls is not None:
                o.cls = self.f.cls.id
            return Val(frozenset([o.key]), deps=deps)
        if short == 'super':
            return Val(fns=frozenset([('x', 'super')]))
        if short in SETS:
            o = self.a.alloc(self, e, 'set')
            for v in pos:
                self.a.put(o, elem=self.iterate(v)[0]._replace(arb=None))
            return Val(frozenset([o.key]), deps=deps)
        if short in SEQUENCES or short in LAZY:
            kind = 'list' if short in ('list', 'collections.deque') else (
                'tuple' if short == 'tuple' else 'iter')
            return self.sequence(e, short, kind, pos, deps, clear, args)
        if short in DICTS:
            o = self.a.alloc(self, e, 'dict')
            for v in pos:
                for p in self.a.objs(v):
                    if p.kind == 'dict':
                        self.a.put(o, elem=p.elem, keys=p.keys, arb=p.arb)
                        continue
                    elem, reason = self.iterate(Val(frozenset([p.key])))
                    if short.endswith('fromkeys') or short.endswith(
                            'Counter'):
                        self.a.put(o, keys=elem,
                                   arb=reason and UNORDERED)
                    else:
                        self.a.put(o, keys=self.item(elem, 0, 2),
                                   elem=self.item(elem, 1, 2),
                                   arb=reason and UNORDERED)
            for v in kwargs.values():
                self.a.put(o, elem=v)
            return Val(frozenset([o.key]), deps=deps)
        if short == 'next':
            elem, reason = self.iterate(pos[0]) if pos else (NOTHING, None)
            if reason:
                elem = elem._replace(arb=elem.arb
                                     or self.because(e, reason))
            return join(elem._replace(deps=deps), *[v.opaque()
                                                    for v in pos[1:]])
        if short in ('str', 'repr', 'format', 'ascii', 'json.dumps',
                     'pprint.pformat'):
            return Val(arb=next((self.text(v, e) for v in pos
                                 if self.text(v, e)), None),
                       deps=deps, clear=clear)
        if short == 'functools.reduce':
            text = ast.unparse(e.args[0]) if e.args else ''
            elem, reason = (self.iterate(pos[1]) if len(pos) > 1
                            else (NOTHING, None))
            if text.rsplit('.')[-1] in ('or_', 'and_', 'xor', 'max', 'min'):
                reason = None
            self.called(e, pos[:1], [elem] * 2, deps)
            return Val(arb=reason and self.because(e, reason), deps=deps)
        if short in ('copy.copy', 'copy.deepcopy', 'typing.cast'):
            return join(*pos)
        if short == 'functools.partial' and pos:
            fns = set()
            for fn in pos[0].fns:
                if fn[0] == 'f':
                    given = tuple(v.bare() for v in pos[1:])
                    fns.add(('p', fn[1], given))
            for k, v in kwargs.items():
                for fn in pos[0].fns:
                    if fn[0] == 'f':
                        self.pass_(self.a.functions[fn[1]], k, v)
            return Val(fns=frozenset(fns), deps=deps)
        arb = None
        for v in values:
            arb = arb or self.seq_reason(v)
        for v in spread:
            _, reason = self.iterate(v)
            arb = arb or (reason and self.because(e, reason))
        for v in pos:
            # what is done with functions is not known
            for fn in v.fns:
                if fn[0] == 'f' and fn[2]:
                    self.a.functions[fn[1]].callers += 1
        return Val(arb=arb, deps=deps)

    def sort(self, e, pos, kwargs, deps):
        o = self.a.alloc(self, e, 'list')
        for v in pos:
            elem, reason = self.iterate(v)
            partial = 'key' in kwargs and self.partial(e)
            self.a.put(o, elem=elem, arb=(reason and partial
                                          and self.because(e, reason)))
        return Val(frozenset([o.key]), deps=deps)

    def partial(self, e):
        """Can different elements have equal keys."""
        key = next((k.value for k in e.keywords if k.arg == 'key'), None)
        if key is None:
            return False
        if isinstance(key, ast.Name):
            return key.id in ('len', 'hash', 'id', 'type', 'bool')
        if isinstance(key, ast.Lambda):
            body, name = key.body, key.args.args[0].arg
            if isinstance(body, ast.Constant):
                return True
            if (isinstance(body, ast.Subscript)
                    and isinstance(body.value, ast.Name)
                    and body.value.id == name):
                return not isinstance(body.slice, ast.Slice) or not (
                    body.slice.lower is None and body.slice.upper is None)
            if (isinstance(body, ast.Call)
                    and isinstance(body.func, ast.Name)):
                return body.func.id in ('len', 'hash', 'id', 'type', 'bool')
        text = ast.unparse(key)
        return (text.endswith(('attrgetter', 'itemgetter'))
                or 'itemgetter(' in text and ',' not in text)

    def sequence(self, e, short, kind, pos, deps, clear, args):
        function = short in ('map', 'filter', 'itertools.starmap',
                             'itertools.takewhile', 'itertools.dropwhile',
                             'itertools.filterfalse')
        sources = pos[1:] if function else pos
        if short == 'itertools.islice' or short == 'itertools.accumulate':
            sources = pos[:1]
        elems, arb = [], None
        for v in sources:
            elem, reason = self.iterate(v)
            if reason:
                arb = arb or self.because(e, reason)
            if short == 'itertools.chain.from_iterable' or (
                    short == 'itertools.chain'
                    and any(star and x is v for star, x in args)):
                inner, reason = self.iterate(elem)
                if reason:
                    arb = arb or self.because(e, reason)
                elem = inner
            elems.append(elem)
        if short in ('enumerate', 'zip', 'itertools.zip_longest'):
            tuple_ = self.a.alloc(self, e, 'tuple', 'element')
            if short == 'enumerate':
                elems = [NOTHING, *elems[:1]]
            fields = [x._replace(arb=x.arb or arb) for x in elems]
            if any(star for star, _ in args):
                self.a.put(tuple_, elem=join(*fields))
            else:
                self.a.put(tuple_, elem=join(*fields), fields=fields)
            elem = Val(frozenset([tuple_.key]))
        elif short in ('map', 'itertools.starmap'):
            elem = self.called(e, pos[:1], elems, deps)
        else:
            elem = join(*elems)
        o = self.a.put(self.a.alloc(self, e, kind), elem=elem, arb=arb)
        return Val(frozenset([o.key]), deps=deps, clear=clear)

    def called(self, e, functions, args, deps):
        results = []
        for f in functions:
            for fn in sorted(f.fns, key=repr):
                if fn[0] == 'f':
                    receiver = [Val(fn[2])] if fn[2] else []
                    results.append(self.call(
                        e, fn[1], receiver,
                        [(False, x._replace(deps=deps)) for x in args], {}))
                elif fn[0] == 'p':
                    results.append(self.call(
                        e, fn[1], list(fn[2]),
                        [(False, x._replace(deps=deps)) for x in args], {}))
                elif fn[0] == 'x':
                    results.append(self.external(
                        e, fn[1], [(False, x) for x in args], {}))
        return join(*results).bare()

    def container(self, e, base, name, args, kwargs):
        """Methods of containers and strings."""
        pos = [v for _, v in args]
        objs = self.a.objs(base)
        kinds = {o.kind for o in objs}
        deps = base.deps.union(*[v.deps for v in pos])
        if name == 'join' and len(pos) == 1:
            elem, reason = self.iterate(pos[0])
            return Val(arb=elem.arb or (reason and self.because(e, reason)),
                       deps=deps)
        if name == 'format' and is_text(e.func.value):
            return Val(arb=next((self.text(v, e) for v in
                                 [*pos, *kwargs.values()]
                                 if self.text(v, e)), None), deps=deps)
        if not kinds - {'inst'}:
            return None
        if name in ('append', 'appendleft', 'insert', 'extend', 'extendleft',
                    'add', 'update', 'setdefault'):
            self.filled(e.func.value, *pos)
        if name in ('append', 'appendleft', 'insert'):
            v = pos[-1] if pos else NOTHING
            for o in objs:
                if o.kind in ('list', 'iter'):
                    self.a.put(o, elem=v)
            self.effect('append', base, NOTHING, v, e)
            return NOTHING
        if name in ('extend', 'extendleft'):
            self.extend(e, base, join(*pos))
            return NOTHING
        if name == 'add':
            for o in objs:
                if o.kind == 'set':
                    self.a.put(o, elem=pos[0]._replace(arb=None)
                               if pos else None)
            return NOTHING
        if name == 'update':
            for o in objs:
                if o.kind == 'set':
                    for v in pos:
                        self.a.put(o, elem=self.iterate(v)[0]._replace(
                            arb=None))
                elif o.kind == 'dict':
                    for v in pos:
                        for p in self.a.objs(v):
                            if p.kind == 'dict':
                                self.a.put(o, elem=p.elem, keys=p.keys,
                                           arb=p.arb)
                            else:
                                elem, reason = self.iterate(
                                    Val(frozenset([p.key])))
                                self.a.put(o, keys=self.item(elem, 0, 2),
                                           elem=self.item(elem, 1, 2),
                                           arb=reason and UNORDERED)
            return NOTHING
        if name == 'setdefault' and 'dict' in kinds:
            key, v = pos[0], (pos[1] if len(pos) > 1 else NOTHING)
            self.store(e, base, key, v)
            result = join(v, *[o.elem for o in objs if o.kind == 'dict'])
            return Val(result.objs, result.arb, base.deps | key.deps,
                       base.clear | key.clear, result.fns)
        if name == 'get' and 'dict' in kinds:
            v = join(*[o.elem for o in objs if o.kind == 'dict'],
                     *[x.bare() for x in pos[1:]])
            key = pos[0] if pos else NOTHING
            return Val(v.objs, v.arb, deps, base.clear | key.clear, v.fns)
        if name in ('keys', 'values', 'items') and 'dict' in kinds:
            o = self.a.alloc(self, e, {'keys': 'keys'}.get(name, 'iter'))
            for p in objs:
                if p.kind != 'dict':
                    continue
                if name == 'items':
                    t = self.a.alloc(self, e, 'tuple', 'item')
                    self.a.put(t, elem=join(p.keys, p.elem),
                               fields=[p.keys, p.elem])
                    elem = Val(frozenset([t.key]))
                else:
                    elem = p.keys if name == 'keys' else p.elem
                self.a.put(o, elem=elem,
                           arb=(p.arb and (UNORDERED if name == 'keys'
                                           else self.because(e, p.arb))))
            return Val(frozenset([o.key]), deps=deps)
        if name == 'pop' or name == 'popleft':
            v = join(*[o.elem for o in objs], *pos[1:])
            arb = v.arb
            for o in objs:
                if o.kind == 'set' or (o.arb and o.kind != 'dict'):
                    arb = arb or self.because(e, o.arb or UNORDERED)
            return Val(v.objs, arb, deps, EMPTY, v.fns)
        if name == 'popitem':
            arb = next((self.because(e, o.arb) for o in objs if o.arb), None)
            return Val(arb=arb, deps=deps)
        if name in ('union', 'intersection', 'difference',
                    'symmetric_difference') and 'set' in kinds:
            o = self.a.alloc(self, e, 'set')
            for v in [base, *pos]:
                self.a.put(o, elem=self.iterate(v)[0]._replace(arb=None))
            return Val(frozenset([o.key]), deps=deps)
        if name == 'copy':
            return base.opaque()
        if name == 'sort':
            if isinstance(e.func.value, ast.Name):
                v = self.sort(e, [base], kwargs, base.deps)
                self.env[e.func.value.id] = v
            return NOTHING
        if name in ('index',) and kinds & {'list', 'tuple'}:
            return Val(arb=self.seq_reason(base), deps=deps)
        return NOTHING._replace(deps=deps) if not kinds & {'inst'} else None

    def extend(self, e, base, v):
        elem, reason = self.iterate(v)
        for o in self.a.objs(base):
            if o.kind in ('list', 'iter'):
                self.a.put(o, elem=elem,
                           arb=reason and self.because(e, reason))
        self.effect('append', base, NOTHING, v, e)


UNORDERED = 'order of iteration is arbitrary'


def inside(outer, node):
    start = (outer.lineno, outer.col_offset)
    end = (outer.end_lineno, outer.end_col_offset)
    return start <= (node.lineno, node.col_offset) < end


def is_text(e):
    return (isinstance(e, ast.JoinedStr)
            or isinstance(e, ast.Constant) and isinstance(e.value, str)
            or isinstance(e, ast.BinOp) and (is_text(e.left)
                                             or is_text(e.right))
            or isinstance(e, ast.Call) and (
                isinstance(e.func, ast.Name) and e.func.id in ('str', 'repr')
                or isinstance(e.func, ast.Attribute)
                and e.func.attr in ('join', 'format') and is_text(
                    e.func.value)))


def set_annotation(a):
    if a is None:
        return False
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode='eval').body
        except SyntaxError:
            return False
    if isinstance(a, ast.Subscript):
        a = a.value
    name = a.attr if isinstance(a, ast.Attribute) else getattr(a, 'id', '')
    return name in SET_TYPES


def walk(node):
    """Nodes of the very function."""
    stack = list(ast.iter_child_nodes(node))
    while stack:
        x = stack.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef,
                              ast.Lambda, ast.ClassDef)):
            stack.extend(ast.iter_child_nodes(x))
