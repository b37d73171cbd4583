"""Predicated abstract interpreter building the value-flow graph.

There is no exploration of paths: every statement is interpreted once under
the condition of being reached (``alive``), assignments are gated by it.
Loops are summarised: the body is interpreted once for an arbitrary element,
values carried between iterations are solved in a closed form (accumulators,
flags, counters, the previous element) or become unknown.
"""
import ast

from . import program, val
from .program import (ClassInfo, DispatchInfo, FuncInfo, type_from_value)
from .val import (ABSENT, B, FALSE, FALSE_V, G, NONE, TRUE, TRUE_V, V, at,
                  attr, before, bool_v, c, call, concat, constrain, count_of,
                  cv, dist, dist_b, each, each_flat, elem, eq, exists, first_of,
                  fv, guard_part, in_, is_, is_c, isinst, iter_parts, last_of,
                  leaves, length, lt, mk, mkseq, open_, phi, ref, restrict,
                  seq, seq_kind, subst, subst_guard, truth, unk)


class Unsupported(Exception):
    pass


class Frame:
    def __init__(self, func, parent, module, entry, cls=None):
        self.func, self.parent, self.module = func, parent, module
        self.entry, self.cls = entry, cls
        self.vars = {}
        self.returns = []
        self.out = None
        self.resume = None      # what is done while a generator is suspended
        self.declared = set()
        self.nonlocals = set()

    def root(self):
        f = self
        while f.func == 'comp':
            f = f.parent
        return f


class Handler:
    def __init__(self, clauses):
        # list of lists of exception classes (None for anything)
        self.clauses = clauses
        self.events = []


class Loop:
    def __init__(self):
        self.breaks, self.continues = [], []


class Config:
    def __init__(self, opaque=(), may_raise=None, implicit=False,
                 max_depth=40, loading=False, recursion=0,
                 unroll=0):
        self.opaque = set(opaque)
        self.may_raise = dict(may_raise or {})
        self.implicit = implicit
        self.max_depth = max_depth
        self.loading = loading
        self.recursion = recursion    # nested calls of the same function
        self.snapshots = True         # equal nested calls are endless
        self.endless = False          # deeper recursion has no end
        self.unroll = unroll          # iterations of while loops
        self.results = {}             # assumed results of calls


class Interp:
    def __init__(self, modules):
        self.modules = modules
        self.config = Config()
        self.heap, self.alloc = {}, {}
        self.group_refs = {}
        self.alive = TRUE
        self.frame = None
        self.handlers, self.loops, self.escapes = [], [], []
        self.exc_stack = []
        self.stack = []
        self.received = []      # arguments of the calls in the stack
        self.loc_count = 0
        self.notes = []
        self.functions_analysed = set()
        self.lost = []          # changes of collections not followed
        self.effects = []
        self.calls_seen = {}
        self.exact = {}         # how to interpret modules themselves
        self.attributes = {}    # of external modules
        self.keywords = None    # those of the call the result is assumed for
        self.given = []         # keyword arguments of the last call
        self.known = {}         # assumed attributes of arbitrary objects
        self.loading = []
        from . import domain
        domain.install(self)

    # --- modules

    def module(self, name):
        m = self.modules.get(name)
        if m is None:
            return None
        if not m.ready:
            m.ready = True
            saved = (self.frame, self.alive, self.handlers, self.loops,
                     self.escapes, self.stack, self.config, self.exc_stack)
            self.handlers, self.loops, self.escapes = [], [], []
            self.exc_stack = []
            self.stack = []
            self.config = self.exact.get(name) or Config(loading=True)
            self.alive = TRUE
            self.frame = Frame(None, None, m, TRUE)
            self.frame.vars = m.vars
            m.vars['__name__'] = c(name)
            try:
                for s in m.tree.body:
                    try:
                        self.exec_stmt(s)
                    except Unsupported as error:
                        self.notes.append(f'{name}:{s.lineno}: {error}')
                        for n in assigned_names([s]):
                            m.vars[n] = unk(f'{error}')
                    if self.alive == FALSE:
                        self.alive = TRUE
            finally:
                m.escapes = self.escapes
                (self.frame, self.alive, self.handlers, self.loops,
                 self.escapes, self.stack, self.config,
                 self.exc_stack) = saved
        return m

    def global_(self, module_name, dotted):
        """Value of a (possibly nested) name of the module."""
        m = self.module(module_name)
        if m is None:
            return None
        head, *rest = dotted.split('.')
        v = m.vars.get(head)
        for part in rest:
            if v is None:
                return None
            if v.op == 'cls':
                v = v.args[0].lookup(part)
            else:
                v = self.getattr_(v, part)
        return v

    # --- state

    def new_loc(self, cell):
        self.loc_count += 1
        l = mk('loc', self.loc_count)
        self.heap[l] = cell
        self.alloc[l] = self.alive
        return l

    def deref(self, v):
        """Content of mutable objects (shallow)."""
        v = restrict(v, self.alive)
        if v.op == 'loc':
            return restrict(self.heap[v], self.alive)
        if v.op == 'phi' and any(x.op == 'loc' for _, x in leaves(v)):
            return phi([(g, restrict(self.heap[x], self.alive)
                         if x.op == 'loc' else x) for g, x in leaves(v)])
        return v

    def resolve(self, v, since=0):
        """Content of mutable objects (deep)."""
        for _ in range(30):
            locs = [l for l in fv(v)
                    if l.op == 'loc' and l.args[0] > since
                    and l in self.heap]
            if not locs:
                return v
            v = subst(v, {l: restrict(self.heap[l], self.alive)
                          for l in locs})
        return unk('cyclic structure')

    def resolve_guard(self, b, since=0):
        for _ in range(30):
            locs = [l for l in val._fv_guard(b)
                    if l.op == 'loc' and l.args[0] > since
                    and l in self.heap]
            if not locs:
                return b
            b = subst_guard(b, {l: self.heap[l] for l in locs})
        return b

    def gate(self, entry, new, old):
        if old is None or old is new:
            return new
        if B.and_(entry, B.not_(self.alive)) == FALSE:
            return new
        return phi([(self.alive, new), (B.not_(self.alive), old)])

    def write_cell(self, l, new):
        self.heap[l] = self.gate(self.alloc.get(l, TRUE), new, self.heap[l])

    def set_var(self, name, v, frame=None):
        f = frame or self.frame
        while f.func == 'comp' and frame is None and name not in f.vars:
            break
        if f.func not in (None, 'comp') or True:
            if name in f.nonlocals:
                g = f.parent
                while g is not None and name not in g.vars:
                    g = g.parent
                if g is not None:
                    f = g
            elif name in f.declared:
                m = f.module
                m.vars[name] = self.gate(TRUE, v, m.vars.get(name))
                return
        if f.func is None and f.parent is None and name in f.module.data:
            return
        f.vars[name] = self.gate(f.entry, v, f.vars.get(name))

    def get_var(self, name):
        f = self.frame
        while f is not None:
            if name in f.vars and name not in f.declared:
                return restrict(f.vars[name], self.alive)
            f = f.parent
        m = self.frame.module
        if name in m.vars:
            return m.vars[name]
        import builtins
        if hasattr(builtins, name):
            return ref('builtins.' + name)
        if getattr(m, 'closed', False):
            # all of the names of the namespace are known
            self.raise_(self.alive, ref('builtins.NameError'))
        return unk(f'undefined name {name}')

    # --- exceptions

    def raise_(self, guard, exc):
        """Records that the exception is raised under the condition."""
        if guard == FALSE:
            return
        for x_g, x in leaves(exc):
            g = B.and_(guard, x_g)
            if g == FALSE:
                continue
            for h in reversed(self.handlers):
                hit = False
                for i, types in enumerate(h.clauses):
                    m = (True if types is None else
                         any_match(x, types))
                    if m is None:
                        # might be caught
                        self.notes.append(f'uncertain handler for {x}')
                        h.events.append((g, mk('caught', i, x, 'maybe')))
                        hit = True
                        break
                    if m:
                        h.events.append((g, mk('caught', i, x, '')))
                        hit = True
                        break
                if hit:
                    break
            else:
                self.escapes.append((g, x))
        self.alive = B.and_(self.alive, B.not_(guard))

    def catches(self, exc):
        for h in self.handlers:
            for types in h.clauses:
                if types is None or any_match(exc, types):
                    return True
        return False

    def may_raise(self, exc, b):
        """Exception that is implied by an operation."""
        if b == FALSE or self.alive == FALSE:
            return
        x = ref('builtins.' + exc) if isinstance(exc, str) else exc
        guard = B.and_(self.alive, b)
        if guard == FALSE:
            return
        if self.catches(x):
            self.raise_(guard, x)
        elif (self.config.implicit
              or B.and_(self.alive, B.not_(b)) == FALSE):
            self.escapes.append((guard, x))
            self.alive = B.and_(self.alive, B.not_(guard))

    # --- statements

    def exec_block(self, stmts):
        for s in stmts:
            if self.alive == FALSE:
                return
            self.exec_stmt(s)

    def exec_stmt(self, s):
        method = getattr(self, 's_' + type(s).__name__, None)
        if method is None:
            raise Unsupported(f'statement {type(s).__name__}')
        method(s)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.frame.declared |= set(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals |= set(s.names)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value)

    def s_Assert(self, s):
        pass

    def s_Return(self, s):
        v = NONE if s.value is None else self.eval(s.value)
        f = self.frame.root()
        f.returns.append((self.alive, v))
        self.alive = FALSE

    def s_Raise(self, s):
        if s.exc is None:
            if self.exc_stack:
                self.raise_(self.alive, self.exc_stack[-1])
            else:
                self.raise_(self.alive, ref('builtins.RuntimeError'))
            self.alive = FALSE
            return
        exc = self.exception(s.exc)
        self.raise_(self.alive, exc)
        self.alive = FALSE

    def exception(self, node):
        """Class of the raised exception."""
        if isinstance(node, ast.Call):
            f = self.eval(node.func)
            k = exc_class(f)
            if k is not None:
                return k
        v = self.deref(self.eval(node))
        return dist(lambda x: exc_class(x) or (
            x if x.op == 'sym' else unk('raised object')), v)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.eval(t.value)
                if isinstance(t.slice, ast.Slice):
                    lo, hi = self.slice_bounds(t.slice)
                    new = self.del_slice(base, lo, hi)
                else:
                    key = self.eval(t.slice)
                    new = self.del_item(base, key)
                for g, l in leaves(base):
                    if l.op == 'loc':
                        saved = self.alive
                        self.alive = B.and_(saved, g)
                        self.write_cell(l, new)
                        self.alive = saved
                    else:
                        self.effect('del', base, key)
            elif isinstance(t, ast.Attribute):
                for g, l in leaves(self.eval(t.value)):
                    if l.op == 'loc':
                        raise Unsupported('deletion')
                    self.effect('delattr', l, t.attr)
            else:
                raise Unsupported('deletion')

    def del_slice(self, base, lo, hi):
        cell = self.deref(base)
        if lo is None and hi is not None:
            return val.slice_(cell, hi, None)
        if hi is None and lo is not None:
            return val.slice_(cell, None, lo)
        if hi is None and lo is None:
            return mkseq('list', [])
        return unk('deletion of a slice')

    def del_item(self, base, key):
        cell = self.deref(base)

        def leaf(x):
            if x.op == 'seq' and x.args[0] == 'list' and is_c(key):
                if cv(key) == 0:
                    return val.slice_(x, c(1), None)
                if cv(key) == -1:
                    return val.slice_(x, None, c(-1))
            if x.op == 'seq' and x.args[0] == 'dict':
                return dict_without(x, key)
            return unk('deletion of an item')

        return dist(leaf, cell)

    def effect(self, kind, target, *details):
        """Change of an object that existed before."""
        self.effects.append((self.alive, kind, target, details))
        if kind != 'mutate' or target.op == 'seq':
            self.lost.append(f'{kind} of {val.show(target, 3)[:80]}')

    def s_If(self, s):
        cond = self.cond(s.test)
        start = self.alive
        self.alive = B.and_(start, cond)
        if self.alive != FALSE:
            self.exec_block(s.body)
        end = self.alive
        self.alive = B.and_(start, B.not_(cond))
        if self.alive != FALSE:
            self.exec_block(s.orelse)
        self.alive = B.or_(end, self.alive)

    def cond(self, node):
        """Condition of an expression (may reduce reachability)."""
        if isinstance(node, ast.BoolOp):
            # short-circuit evaluation
            saved = self.alive
            dead = FALSE
            r = None
            acc = None
            is_and = isinstance(node.op, ast.And)
            for i, x in enumerate(node.values):
                b = self.cond(x)
                acc = b if acc is None else (B.and_(acc, b) if is_and
                                             else B.or_(acc, b))
                if i < len(node.values) - 1:
                    go = b if is_and else B.not_(b)
                    dead = B.or_(dead, B.and_(self.alive, B.not_(go)))
                    self.alive = B.and_(self.alive, go)
            self.alive = B.or_(self.alive, dead)
            return acc
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return B.not_(self.cond(node.operand))
        v = self.eval(node)
        return self.truth(v)

    def truth(self, v):
        v = self.deref(v)
        return dist_b(self._truth_leaf, v)

    def _truth_leaf(self, x):
        if x.op == 'new' and x.args[0].lookup('__bool__') is not None:
            r = self.call_value(x.args[0].lookup('__bool__'), [x], {})
            return truth(r)
        return truth(x)

    def s_FunctionDef(self, s):
        f = self.make_function(s, s.name)
        v = f
        for d in reversed(s.decorator_list):
            dv = self.eval(d)
            v = self.decorate(dv, v)
        if self.frame.func == 'class':
            self.frame.vars[s.name] = v
        else:
            self.set_var(s.name, v)

    s_AsyncFunctionDef = s_FunctionDef

    def qualname(self, name):
        f = self.frame
        parts = [name]
        while f is not None:
            if f.func == 'class':
                parts.append(f.cls.name)
            elif isinstance(f.func, FuncInfo):
                parts.append('<locals>')
                parts.append(f.func.name)
            f = f.parent if f.func not in (None,) else None
        return '.'.join(reversed(parts))

    def make_function(self, node, name):
        parent = self.frame
        cls = parent.cls if parent.func == 'class' else None
        closure = parent
        while closure is not None and closure.func == 'class':
            closure = closure.parent
        if closure is not None and closure.func is None:
            closure = None
        info = FuncInfo(node, self.frame.module, self.qualname(name), cls,
                        closure)
        a = node.args
        positional = a.posonlyargs + a.args
        for arg, d in zip(positional[len(positional) - len(a.defaults):],
                          a.defaults):
            info.defaults[arg.arg] = self.eval(d)
        for arg, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                info.defaults[arg.arg] = self.eval(d)
        return mk('func', info)

    def decorate(self, d, v):
        def leaf(x):
            if x.op == 'ref':
                last = x.args[0].rsplit('.', 1)[-1]
                if last == 'property' or last == 'cached_property':
                    return mk('property', v)
                if last == 'staticmethod':
                    return mk('static', v)
                if last == 'classmethod':
                    return mk('classm', v)
                if last == 'singledispatch':
                    return mk('dispatch', DispatchInfo(
                        v, self.qualname(v.args[0].name)))
                if last == 'overload':
                    return mk('overload', v)
                if last in ('abstractmethod', 'final', 'wraps', 'override',
                            'no_type_check'):
                    if v.op == 'cls' and last == 'final':
                        v.args[0].final = True
                    return v
                if last in ('lru_cache', 'cache', 'unique'):
                    return v
                if last == 'contextmanager':
                    return mk('manager', v)
                return call(x, (v,))
            if x.op == 'registrar':
                x.args[0].registry.append((x.args[1], v))
                return v
            if x.op == 'register':
                # the type is given by the annotation
                f = v.args[0]
                args = f.node.args
                first = (args.posonlyargs + args.args)[0]
                t = self.annotation(first.annotation, f.module)
                x.args[0].registry.append((t, v))
                return v
            if x.op in ('func', 'bm'):
                return self.call_value(x, [v], {})
            if x.op == 'call':
                last = (x.args[0].args[0].rsplit('.', 1)[-1]
                        if x.args[0].op == 'ref' else '')
                if last in ('wraps', 'lru_cache'):
                    return v
            return call(x, (v,))

        return dist(leaf, d)

    def s_ClassDef(self, s):
        info = ClassInfo(s.name, self.qualname(s.name), self.frame.module, s)
        info.bases = [self.eval(b) for b in s.bases
                      if not isinstance(b, ast.Starred)]
        for b in info.bases:
            if b.op == 'cls':
                b.args[0].subclasses.append(info)
        is_enum = any(b.op == 'ref' and b.args[0] in (
            'enum.Enum', 'enum.IntEnum', 'enum.Flag', 'enum.IntFlag')
                      for b in info.external_bases())
        saved = self.frame
        self.frame = Frame('class', saved, saved.module, self.alive, info)
        v = mk('cls', info)
        try:
            for x in s.body:
                if isinstance(x, ast.AnnAssign) and isinstance(
                        x.target, ast.Name):
                    info.annotations[x.target.id] = x.annotation
                    if x.value is None:
                        continue
                try:
                    self.exec_stmt(x)
                except Unsupported as error:
                    for n in assigned_names([x]):
                        self.frame.vars[n] = unk(str(error))
                # overloads are declarations only
                for n, y in list(self.frame.vars.items()):
                    if y.op == 'overload':
                        del self.frame.vars[n]
        finally:
            ns = self.frame.vars
            self.frame = saved
        info.ns = ns
        if is_enum:
            members = []
            last = 0
            for x in s.body:
                if isinstance(x, ast.Assign) and len(
                        x.targets) == 1 and isinstance(x.targets[0],
                                                       ast.Name):
                    name = x.targets[0].id
                    if name.startswith('_'):
                        continue
                    value = ns.get(name)
                    if is_c(value) and isinstance(cv(value), int):
                        last = cv(value)
                        key = last
                    elif value.op == 'call' and value.args[0].op == 'ref' and (
                            value.args[0].args[0] == 'enum.auto'):
                        last += 1
                        key = last
                    else:
                        key = cv(value) if is_c(value) else name
                    members.append(mk('member', info, name, key))
            for m in members:
                ns[m.args[1]] = m
            if members and all(isinstance(m.args[2], int) for m in members):
                members.sort(key=lambda m: m.args[2])
            info.members = tuple(members)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.eval(d), v)
        self.set_var(s.name, v)

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.set_var(a.asname, self.module_value(a.name))
            else:
                head = a.name.split('.')[0]
                self.set_var(head, self.module_value(head))

    def module_value(self, name):
        if name in self.modules:
            return mk('module', self.modules[name])
        return ref(name)

    def s_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            parts = self.frame.module.name.split('.')
            if not getattr(self.frame.module, 'is_package', False):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            name = '.'.join(parts + ([s.module] if s.module else []))
        for a in s.names:
            if a.name == '*':
                continue
            self.set_var(a.asname or a.name, self.import_from(name, a.name))

    def import_from(self, name, attribute):
        sub = f'{name}.{attribute}'
        if name in self.modules:
            m = self.module(name)
            if attribute in m.vars:
                return m.vars[attribute]
            if sub in self.modules:
                return mk('module', self.modules[sub])
            return unk(f'import of {sub}')
        return self.attributes.get(sub, canonical_ref(sub))

    def s_Assign(self, s):
        v = self.eval(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value))
        elif (self.frame.func is None and self.frame.parent is None
                and isinstance(s.target, ast.Name)
                and self.frame.module.name not in self.exact):
            # data computed once: known by its name and type only
            m = self.frame.module
            name = s.target.id
            m.vars[name] = val.sym(f'{m.name}.{name}',
                               self.annotation_type(s.annotation, m))
            m.data.add(name)

    def s_AugAssign(self, s):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.get_var(s.target.id)
        elif isinstance(s.target, ast.Attribute):
            old = self.getattr_(self.eval(s.target.value), s.target.attr)
        elif isinstance(s.target, ast.Subscript):
            old = self.getitem(self.eval(s.target.value),
                               self.eval(s.target.slice))
        else:
            raise Unsupported('augmented assignment')
        right = self.eval(s.value)
        # mutable collections are changed in place
        ls = leaves(restrict(old, self.alive))
        if all(x.op == 'loc' and self.heap[x].op in ('seq', 'phi')
               for _, x in ls):
            for g, l in ls:
                saved = self.alive
                self.alive = B.and_(saved, g)
                if self.alive != FALSE:
                    cell = self.deref(l)
                    kind = cell.args[0] if cell.op == 'seq' else None
                    if op == 'Add' and kind == 'list':
                        self.extend(l, right)
                    else:
                        self.write_cell(l, self.deref(
                            self.binop(op, cell, right)))
                self.alive = saved
            return
        self.assign(s.target, self.binop(op, old, right))

    def assign(self, target, v):
        if isinstance(target, ast.Name):
            if self.frame.func == 'class':
                self.frame.vars[target.id] = v
            else:
                self.set_var(target.id, v)
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.unpack(target.elts, v)
        elif isinstance(target, ast.Attribute):
            self.setattr_(self.eval(target.value), target.attr, v)
        elif isinstance(target, ast.Subscript):
            if isinstance(target.slice, ast.Slice):
                base = self.eval(target.value)
                part = target.slice
                whole = (part.lower is part.upper is part.step is None)
                for g, l in leaves(base):
                    if l.op == 'loc':
                        self.write_cell(
                            l, mkseq('list', list(self.iteration(v)))
                            if whole and l is base
                            and seq_kind(self.deref(l)) == 'list'
                            else unk('slice assignment'))
                return
            self.setitem(self.eval(target.value), self.eval(target.slice), v)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, v)
        else:
            raise Unsupported('target of an assignment')

    def unpack(self, targets, v):
        cell = self.deref(v)
        n = len(targets)
        stars = [i for i, t in enumerate(targets)
                 if isinstance(t, ast.Starred)]
        if cell.op == 'phi':
            statics = [val.static_items(x) for _, x in leaves(cell)]
            if all(x is not None for x in statics) and not stars and all(
                    len(x) == n for x in statics):
                for i, t in enumerate(targets):
                    self.assign(t, phi([
                        (g, x[i]) for (g, _), x in zip(leaves(cell),
                                                       statics)]))
                return
        items = val.static_items(cell)
        if items is None and cell.op == 'seq' and cell.args[0] not in (
                'dict', 'str'):
            pass
        if not stars:
            if items is not None and len(items) == n:
                for t, x in zip(targets, items):
                    self.assign(t, x)
                return
            if self.catches(ref('builtins.ValueError')) or (
                    cell.op == 'seq' and cell.args[0] != 'str'
                    and all(p[0] == 'i' for p in cell.args[1])):
                size = length(cell)
                self.may_raise('ValueError', B.not_(eq(size, c(n))))
            if cell.op == 'seq' and cell.args[0] in ('set', 'frozenset'):
                if n == 1:
                    self.assign(targets[0], self.only_item(cell))
                    return
            for i, t in enumerate(targets):
                self.assign(t, at(cell, c(i)) if cell.op in (
                    'seq', 'phi') else self.item_at(cell, i, n))
            return
        i = stars[0]
        after = n - i - 1
        if self.catches(ref('builtins.ValueError')):
            self.may_raise('ValueError', lt(length(cell), c(n - 1)))
        for j in range(i):
            self.assign(targets[j], at(cell, c(j)))
        kind_list = mkseq('list', iter_parts(val.slice_(
            cell if seq_kind(cell) else mkseq('list', iter_parts(cell)),
            c(i), c(-after) if after else None)))
        self.assign(targets[i].value, self.new_loc(kind_list))
        for j in range(after):
            self.assign(targets[i + 1 + j], at(cell, c(j - after)))

    def item_at(self, cell, i, n):
        return at(cell, c(i))

    def only_item(self, cell):
        if len(cell.args[1]) == 1:
            p = cell.args[1][0]
            if p[0] == 'i':
                return p[2]
            if p[0] == 'e':
                e, g, x = open_(*p[1:])
                return first_of(e, g.b, x)
        if all(p[0] == 'i' for p in cell.args[1]):
            cases, remaining = [], TRUE
            for p in cell.args[1]:
                cases.append((B.and_(remaining, p[1].b), p[2]))
                remaining = B.and_(remaining, B.not_(p[1].b))
            cases.append((remaining, unk('element of an empty set')))
            return phi([(g, x) for g, x in cases if g != FALSE])
        return mk('only', cell)

    # --- control flow

    def s_Try(self, s):
        clauses = []
        for h in s.handlers:
            if h.type is None:
                clauses.append(None)
            else:
                t = self.eval(h.type)
                items = val.static_items(t)
                clauses.append(items if items is not None else [t])
        entry = self.alive
        handler = Handler(clauses)
        self.handlers.append(handler)
        try:
            self.exec_block(s.body)
        finally:
            self.handlers.pop()
        if self.alive != FALSE:
            self.exec_block(s.orelse)
        end = self.alive
        for i, h in enumerate(s.handlers):
            events = [(g, x.args[1]) for g, x in handler.events
                      if x.args[0] == i]
            guard = FALSE
            for g, _ in events:
                guard = B.or_(guard, g)
            if guard == FALSE:
                continue
            exc = phi([(g, mk('exc', x)) for g, x in events])
            self.alive = guard
            if h.name:
                self.set_var(h.name, exc)
            self.exc_stack.append(phi([(g, x) for g, x in events]))
            self.exec_block(h.body)
            self.exc_stack.pop()
            end = B.or_(end, self.alive)
        self.alive = end
        if s.finalbody:
            self.alive = entry
            self.exec_block(s.finalbody)
            self.alive = B.and_(end, self.alive)

    def s_With(self, s):
        self.enter(s, 0)

    def enter(self, s, i):
        """Enters the rest of context managers and executes the body."""
        if i == len(s.items):
            return self.exec_block(s.body)
        item = s.items[i]
        v = self.eval(item.context_expr)

        def body(x):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, x)
            self.enter(s, i + 1)

        if (v.op == 'call' and v.args[0].op == 'ref'
                and v.args[0].args[0] == 'contextlib.suppress'):
            handler = Handler([list(v.args[1])])
            self.handlers.append(handler)
            body(NONE)
            self.handlers.pop()
            for g, _ in handler.events:
                self.alive = B.or_(self.alive, g)
            return
        if v.op == 'managed':
            return self.inline_manager(v, body)
        cell = self.deref(v)
        if cell.op == 'new' and cell.args[0].lookup('__exit__') is not None:
            x = self.call_value(self.getattr_(v, '__enter__'), [], {})
            entry = self.alive
            body(x)
            end, self.alive = self.alive, entry
            self.call_value(self.getattr_(v, '__exit__'),
                            [NONE, NONE, NONE], {})
            self.alive = B.and_(end, self.alive)
            return
        hook = self.config.results.get('with')
        if hook is not None:
            hook(self, [v, 'enter'], v)
        entry = self.alive
        body(mk('entered', v))
        if hook is not None:
            end, self.alive = self.alive, entry
            hook(self, [v, 'exit'], v)
            self.alive = B.and_(end, self.alive)

    def left(self):
        """Condition of leaving the current block normally, though not by
        reaching its end."""
        result = FALSE
        events = [g for g, _ in self.frame.root().returns]
        if self.loops:
            loop = self.loops[-1]
            events += [g for g, _ in loop.breaks + loop.continues]
        for g in events:
            result = B.or_(result, g)
        return result

    def inline_manager(self, v, body):
        """Generator is suspended while the body is executed."""
        f, args, kwargs = v.args
        info = f.args[0]
        outer = self.frame, self.loops
        frame = Frame(info, info.frame, info.module, self.alive)
        self.bind_parameters(info, frame, list(args), dict(kwargs), [])
        left = []

        def resume(x):
            inner = self.frame, self.loops
            self.frame, self.loops = outer
            before = self.left()
            body(x)
            after = B.and_(self.left(), B.not_(before))
            self.frame, self.loops = inner
            left.append(after)
            self.alive = B.or_(self.alive, after)

        frame.resume = resume
        self.functions_analysed.add(info.key())
        self.frame, self.loops = frame, []
        self.stack.append(info)
        try:
            self.exec_block(info.node.body)
            for g, _ in frame.returns:
                self.alive = B.or_(self.alive, g)
        finally:
            self.stack.pop()
            self.frame, self.loops = outer
        for g in left:
            self.alive = B.and_(self.alive, B.not_(g))

    def s_Break(self, s):
        self.loops[-1].breaks.append((self.alive, NONE))
        self.alive = FALSE

    def s_Continue(self, s):
        self.loops[-1].continues.append((self.alive, NONE))
        self.alive = FALSE

    def s_For(self, s):
        source = self.eval(s.iter)
        loop = Loop()
        self.loops.append(loop)
        try:
            self.iterate(self.iteration(source),
                         lambda v: self.assign(s.target, v),
                         lambda: self.exec_block(s.body), loop)
        finally:
            self.loops.pop()
        if s.orelse:
            self.exec_block(s.orelse)
        for g, _ in loop.breaks:
            self.alive = B.or_(self.alive, g)

    def iteration(self, source):
        v = self.deref(source)
        if v.op == 'cls' and v.args[0].members is not None:
            return [('i', G(TRUE), m) for m in v.args[0].members]
        return iter_parts(v)

    def s_While(self, s):
        # while index < length: ... index += 1
        simple = self.counting_loop(s)
        if simple is not None:
            return simple()
        if self.config.unroll and self.unroll(s):
            return
        self.poison(s, 'while loop')

    def unroll(self, s):
        """Iterates while it may go on, up to a limit."""
        loop = Loop()
        snap = self.snapshot()
        exits = [(l, len(l)) for l in self.exit_lists(loop)]
        self.loops.append(loop)
        done = FALSE
        try:
            for _ in range(self.config.unroll):
                start = self.alive
                b = self.cond(s.test)
                done = B.or_(done, B.and_(self.alive, B.not_(b)))
                self.alive = B.and_(self.alive, b)
                if self.alive == FALSE:
                    break
                self.exec_block(s.body)
                for g, _ in loop.continues:
                    self.alive = B.or_(self.alive, g)
                loop.continues.clear()
                if self.alive == FALSE:
                    break
            else:
                self.restore(snap)
                for l, n in exits:
                    del l[n:]
                return False
        finally:
            self.loops.pop()
        self.alive = done
        if s.orelse and self.alive != FALSE:
            self.exec_block(s.orelse)
        for g, _ in loop.breaks:
            self.alive = B.or_(self.alive, g)
        return True

    def poison(self, s, reason):
        if not self.config.loading:
            self.lost.append(reason)
        for n in assigned_names([s]):
            self.frame.vars[n] = unk(reason)
        for l in list(self.heap):
            pass
        bad = B.var(mk('@truth', unk(reason)))
        for x in ast.walk(s):
            if isinstance(x, ast.Return):
                self.frame.root().returns.append(
                    (B.and_(self.alive, bad), unk(reason)))
                self.alive = B.and_(self.alive, B.not_(bad))
                break
        for x in ast.walk(s):
            if isinstance(x, ast.Raise):
                self.raise_(B.and_(self.alive, bad), unk(reason))
                break
        # mutated objects
        names = {x.id for x in ast.walk(s) if isinstance(x, ast.Name)}
        for n in names:
            v = self.frame.vars.get(n)
            if v is not None:
                for _, l in leaves(v):
                    if l.op == 'loc':
                        self.heap[l] = unk(reason)

    def counting_loop(self, s):
        return None

    # --- summaries of loops

    def iterate(self, parts, bind, body, loop):
        for p in parts:
            if self.alive == FALSE:
                return
            if p[0] == 'i':
                start = self.alive
                g = p[1].b
                self.alive = B.and_(start, g)
                if self.alive != FALSE:
                    bind(p[2])
                    body()
                    for b, _ in loop.continues:
                        self.alive = B.or_(self.alive, b)
                    loop.continues.clear()
                self.alive = B.or_(self.alive, B.and_(start, B.not_(g)))
            else:
                self.iterate_each(p, bind, body, loop)

    def frames(self):
        result, f = [], self.frame
        while f is not None:
            result.append(f)
            f = f.parent
        return result

    def exit_lists(self, loop):
        return ([self.frame.root().returns]
                + [h.events for h in self.handlers]
                + [self.escapes, loop.breaks])

    def snapshot(self):
        return ([(f, dict(f.vars)) for f in self.frames()],
                dict(self.heap), self.alive, len(self.calls_seen))

    def restore(self, snap):
        for f, vs in snap[0]:
            f.vars.clear()
            f.vars.update(vs)
        self.heap.clear()
        self.heap.update(snap[1])
        self.alive = snap[2]

    def iterate_each(self, part, bind, body, loop):
        tag, src, h, g, x = part
        e, g, x = open_(src, h, g, x)
        g = g.b
        start = self.alive
        mark = self.loc_count
        base = self.snapshot()
        lists = self.exit_lists(loop)
        lengths = [len(l) for l in lists]
        placeholders = {}       # (frame index | None, name | loc) -> carry
        loop_id = val.uid()
        exited = mk('@exited', loop_id)
        for attempt in range(8):
            self.restore(base)
            for l, n in zip(lists, lengths):
                del l[n:]
            loop.continues.clear()
            frames = self.frames()
            for (i, name), k in placeholders.items():
                if i is None:
                    cell = self.heap[name]
                    self.heap[name] = carry_cell(cell, k)
                else:
                    frames[i].vars[name] = k
            self.alive = B.and_(start, g)
            running = B.not_(B.var(exited))
            self.alive = B.and_(self.alive, running)
            before_env = [dict(f.vars) for f in frames]
            before_heap = dict(self.heap)
            entries = [(f, f.entry) for f in frames]
            if tag == 'f':
                inner = iter_parts(x)
                self.iterate(inner, bind, body, loop)
            else:
                bind(x)
                body()
            for b, _ in loop.continues:
                self.alive = B.or_(self.alive, b)
            loop.continues.clear()
            changed = set()
            for i, (f, old) in enumerate(zip(frames, before_env)):
                for name, v in f.vars.items():
                    if name in old and v is not old[name]:
                        changed.add((i, name))
            for l, cell in self.heap.items():
                if l.args[0] <= mark and cell is not before_heap.get(l):
                    changed.add((None, l))
            missing = [k for k in changed if k not in placeholders]
            if not missing:
                break
            for key in missing:
                placeholders[key] = mk('carry', loop_id,
                                       key[1] if isinstance(key[1], str)
                                       else key[1].args[0])
        else:
            raise Unsupported('loop does not stabilise')
        end = self.alive
        frames = self.frames()
        # everything is relative to the loop being reached
        care = B.and_(start, g)

        def relative(b):
            b = constrain(self.resolve_guard(b, mark), care)
            return B.cofactor(b, exited, False) if exited in B.support(
                b) else b

        def relative_v(v):
            v = self.resolve(v, mark)
            v = restrict_all(v, care)
            v = drop_atom(v, exited)
            return v

        events = []
        for l, n in zip(lists, lengths):
            for b, v in l[n:]:
                events.append([l, relative(b), relative_v(v)])
            del l[n:]
        h = FALSE
        for _, b, _ in events:
            h = B.or_(h, b)
        has_breaks = any(l is loop.breaks for l, _, _ in events)
        caught = any(l is not loop.breaks and l is not lists[0]
                     and l is not self.escapes for l, _, _ in events)
        not_h = B.not_(h)
        updates = {}
        new_names = {}
        for i, (f, (old)) in enumerate(zip(frames, before_env)):
            for name, v in f.vars.items():
                if name not in old:
                    new_names[(i, name)] = v
        for (i, name), k in placeholders.items():
            v = self.heap[name] if i is None else frames[i].vars[name]
            updates[(i, name)] = relative_v(v)
        new_values = {key: relative_v(v) for key, v in new_names.items()}
        # values before the loop
        self.restore(base)
        inits = {}
        for (i, name), k in placeholders.items():
            inits[(i, name)] = (self.heap[name] if i is None
                                else frames[i].vars[name])
        solved, finals = {}, {}
        pending = dict(placeholders)
        # conditions under which the following iteration takes place
        pend_updates = {key: restrict_all(v, not_h) if h != FALSE else v
                        for key, v in updates.items()}
        full_updates = updates if (has_breaks or caught) else pend_updates
        progress = True
        carries = set(placeholders.values())
        while pending and progress:
            progress = False
            for key, k in list(pending.items()):
                m = {kk: s for kk, s in solved.items()}
                u = subst(pend_updates[key], m)
                if any(f_ in carries and f_ is not k for f_ in fv(u)):
                    continue
                init = restrict(inits[key], start)
                inloop = self.solve(k, init, u, e, g, False)
                if inloop is None:
                    continue
                solved[k] = inloop
                del pending[key]
                progress = True
        for key, k in pending.items():
            solved[k] = unk('value carried by a loop')
            if key[0] is None:
                solved[k] = unk('collection changed by a loop')
        m = solved
        events = [[l, subst_guard(b, m), subst(v, m)] for l, b, v in events]
        h = subst_guard(h, m)
        earlier_h = FALSE
        if h != FALSE:
            e2 = elem(src)
            earlier_h = exists(e2, B.and_(
                before(e2, e), subst_guard(B.and_(g, h), {e: e2})))
        for key, k in placeholders.items():
            u = full_updates[key]
            others = {kk: s for kk, s in solved.items() if kk is not k}
            u = subst(u, others)
            gg = g
            if (has_breaks or caught) and h != FALSE:
                gg = B.and_(g, B.not_(earlier_h))
            init = restrict(inits[key], start)
            if solved[k].op == 'unk' and key in pending:
                finals[key] = solved[k]
            else:
                r = self.solve(k, init, u, e, gg, True)
                finals[key] = (r if r is not None
                               else unk('value computed by a loop'))
        for (i, name), v in finals.items():
            self.alive = start
            if i is None:
                self.write_cell(name, v)
            else:
                f = frames[i]
                f.vars[name] = self.gate(f.entry, v, f.vars.get(name))
        for (i, name), v in new_values.items():
            v = subst(v, m)
            frames[i].vars[name] = (last_of(e, g, v) if e in fv(v) else v)
        # exits
        total = exists(e, B.and_(g, h)) if h != FALSE else FALSE
        for l, b, v in events:
            cond = B.and_(g, b)
            if b != h:
                rest = B.and_(cond, B.not_(earlier_h))
            else:
                rest = cond
            outer = B.and_(start, exists(e, rest))
            if outer == FALSE:
                continue
            l.append((outer, first_of(e, rest, v) if e in fv(v) else v))
        self.alive = B.and_(start, B.not_(total))

    def solve(self, k, init, u, e, g, final):
        """Value carried by a loop: at an iteration or after the loop."""
        src = e.args[0]

        def over(guard):
            """Whether there is an (earlier) element for the condition."""
            if final:
                return exists(e, B.and_(g, guard))
            e2 = elem(src)
            return exists(e2, B.and_(before(e2, e), subst_guard(
                B.and_(g, guard), {e: e2})))

        if u is k or u is carry_cell(init, k):
            return init
        if init.op == 'new' and u.op == 'new':
            # fields of an object
            fields = []
            uf = dict(u.args[1])
            for n, x in init.args[1]:
                y = uf.get(n, ABSENT)
                kk = attr(k, n)
                if k not in fv(y):
                    r = self.solve(kk, x, y, e, g, final)
                    if r is None:
                        return None
                elif y is x:
                    r = x
                else:
                    return None
                fields.append((n, r))
            return mk('new', init.args[0], tuple(fields))
        ls = leaves(u)
        if any(x.op == 'seq' and k in fv(x) for _, x in ls):
            kind = next(x.args[0] for _, x in ls
                        if x.op == 'seq' and k in fv(x))
            u2 = phi([(b, carry_cell(mkseq(kind, []), k) if x is k else x)
                      for b, x in ls]) if len(ls) > 1 else u
            if u2.op == 'seq':
                return self.solve_seq(k, init, u2, e, g, final)
            return None
        if u.op == 'group':
            return self.solve_group(k, init, u, e, g, final)
        if all(is_c(x) and isinstance(cv(x), bool) or x is k
               for _, x in ls) and is_c(init) and isinstance(cv(init), bool):
            a = mk('@truth', k)
            f = truth(u)
            if a in B.support(f):
                f1, f0 = B.cofactor(f, a, True), B.cofactor(f, a, False)
            else:
                f1 = f0 = f
            if any(k in fv(t) for b in (f1, f0) for t in B.support(b)):
                return None
            start = TRUE if cv(init) else FALSE
            if f1 == TRUE:
                return bool_v(B.or_(start, over(f0)))
            if f0 == FALSE:
                return bool_v(B.and_(start, B.not_(over(B.not_(f1)))))
            # overwritten on every iteration
        if all(val.to_lin(x)[1].get(k) == 1 and is_c(
                val.add(x, k, -1)) for _, x in ls):
            if any(k in val._fv_guard(b) for b, _ in ls):
                return None
            r = init
            for b, x in ls:
                n = cv(val.add(x, k, -1))
                if not n:
                    continue
                if final:
                    r = val.add(r, count_of(e, B.and_(g, b)), n)
                else:
                    e2 = elem(src)
                    r = val.add(r, val.rank_of(e, e2, subst_guard(
                        B.and_(g, b), {e: e2})), n)
            return r
        others = [(b, x) for b, x in ls if x is not k]
        if any(k in fv(x) or k in val._fv_guard(b) for b, x in others):
            return None
        keep = FALSE
        for b, x in ls:
            if x is k:
                keep = b
        written = B.not_(keep)
        if not any(e in fv(x) for _, x in others):
            if len(others) == 1:
                cond = over(written)
                return phi([(cond, others[0][1]), (B.not_(cond), init)])
        v = phi([(constrain(b, written), x) for b, x in others])
        if final:
            cond = exists(e, B.and_(g, written))
            return phi([(cond, last_of(e, B.and_(g, written), v)
                         if e in fv(v) else v),
                        (B.not_(cond), init)])
        if written == TRUE:
            p = val.prev(e)
            if g == TRUE:
                first = val.lt0(-1, {val.index_of(e): 1})
                return phi([(first, init),
                            (B.not_(first), subst(v, {e: p}))])
            rest = B.not_(val.lt0(-1, {val.index_of(e): 1}))
            if g == rest:
                v0 = subst(v, {e: at(src, c(0))})
                if v0 is init:
                    return subst(v, {e: p})
                first = val.lt0(-2, {val.index_of(e): 1})
                return phi([(first, init),
                            (B.not_(first), subst(v, {e: p}))])
        return unk('value of an earlier iteration')

    def solve_seq(self, k, init, u, e, g, final):
        kind, parts = u.args
        src = e.args[0]
        own = [i for i, p in enumerate(parts) if is_carry_part(p, k, kind)]
        if len(own) != 1:
            return None
        i = own[0]
        rest = parts[:i] + parts[i + 1:]
        if any(k in fv(p) for p in rest):
            return None
        prefix, suffix = parts[:i], parts[i + 1:]
        if prefix and kind not in ('set', 'frozenset'):
            return None
        new = tuple(prefix) + tuple(suffix)
        if kind == 'str':
            inner = mkseq('str', list(new))
            body = each(e, g, inner)
        elif len(new) == 1 and new[0][0] == 'i':
            body = self.over_parts(e, B.and_(g, new[0][1].b), new[0][2],
                                   final)
        else:
            body = self.over_flat(e, g, mkseq('list' if kind != 'dict'
                                              else 'list', list(new)), final)
        start = iter_parts(init) if kind != 'dict' else (
            list(init.args[1]) if init.op == 'seq' else None)
        if start is None:
            return None
        return mkseq(kind, list(start) + list(body))

    def over_parts(self, e, b, v, final):
        if final:
            return each(e, b, v)
        e2 = elem(e.args[0])
        return each(e2, B.and_(before(e2, e), subst_guard(b, {e: e2})),
                    subst(v, {e: e2}))

    def over_flat(self, e, b, inner, final):
        if final:
            return each_flat(e, b, inner)
        e2 = elem(e.args[0])
        return each_flat(e2, B.and_(before(e2, e),
                                    subst_guard(b, {e: e2})),
                         subst(inner, {e: e2}))

    def solve_group(self, k, init, u, e, g, final):
        parts = u.args[0]
        own = [i for i, p in enumerate(parts)
               if p[0] == 'e' and p[1] is k]
        if own != [0] or init.op != 'group':
            return None
        new = parts[1:]
        if any(k in fv(p) for p in new):
            return None
        body = []
        if len(new) == 1 and new[0][0] == 'i':
            body = self.over_parts(e, B.and_(g, new[0][1].b), new[0][2],
                                   final)
        else:
            body = self.over_flat(e, g, mkseq('list', list(new)), final)
        return mk('group', tuple(init.args[0]) + tuple(body))


def is_carry_part(p, k, kind):
    if kind == 'str':
        return p[0] == 'i' and p[2] is k and p[1].b == TRUE
    return (p[0] == 'e' and p[1] is k and p[3].b == TRUE
            and p[4].op == 'bv')


def carry_cell(cell, k):
    """Content of the collection at the beginning of an iteration."""
    if cell.op == 'seq':
        kind = cell.args[0]
        if kind == 'str':
            return mk('seq', 'str', (('i', G(TRUE), k),))
        return mk('seq', kind, (('e', k, val.H(1), G(TRUE),
                                 mk('bv', 1)),))
    if cell.op == 'group':
        return mk('group', (('e', k, val.H(1), G(TRUE), mk('bv', 1)),))
    if cell.op == 'new':
        return mk('new', cell.args[0],
                  tuple([(n, attr(k, n)) for n, _ in cell.args[1]]))
    return k


def restrict_all(v, care):
    """Simplifies guards of the outermost structure."""
    v = restrict(v, care)
    if v.op == 'group':
        return mk('group', tuple([restrict_part(p, care)
                                  for p in v.args[0]]))
    if v.op == 'new':
        return mk('new', v.args[0], tuple([(n, restrict_all(x, care))
                                           for n, x in v.args[1]]))
    return v


def restrict_part(p, care):
    if p[0] == 'i':
        return ('i', G(constrain(p[1].b, care)), p[2])
    return val.with_guard(p, constrain(p[3].b, care))


def drop_atom(v, atom):
    """Assumes that the iteration is reached."""
    if atom not in val.nodes_in(v):
        return v
    memo = {}

    def go(x):
        if isinstance(x, V):
            if x.op not in ('phi', 'seq', 'new', 'group', 'call'):
                if not any(isinstance(a, (tuple, G)) or isinstance(a, V)
                           for a in x.args):
                    return x
            r = memo.get(x)
            if r is None:
                args = [go(a) for a in x.args]
                r = val.REBUILD.get(x.op, val._raw_rebuild(x.op))(*args)
                memo[x] = r
            return r
        if isinstance(x, G):
            return G(B.cofactor(x.b, atom, False)
                     if atom in B.atom_index else x.b)
        if isinstance(x, tuple):
            return tuple([go(a) for a in x])
        return x

    return go(v)


def dict_without(d, key):
    parts = []
    for p in d.args[1]:
        if p[0] == 'i':
            k, _ = val.pair_of(p[2])
            parts.append(('i', G(B.and_(p[1].b, B.not_(eq(k, key)))), p[2]))
        else:
            tag, src, h, g, x = p
            e, g, x = open_(src, h, g, x)
            if tag == 'f':
                return unk('deletion from a mapping')
            parts.extend(each(e, B.and_(g.b, B.not_(
                eq(val.pair_of(x)[0], key))), x))
    return mkseq('dict', parts)


def assigned_names(stmts):
    result = []
    for s in stmts:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                result.append(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                result.append(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                result.extend((a.asname or a.name).split('.')[0]
                              for a in x.names)
    return result


ALIASES = {
    'typing_extensions.Any': 'typing.Any',
    'typing_extensions.Union': 'typing.Union',
    'typing_extensions.Type': 'typing.Type',
    'typing_extensions.TypeVar': 'typing.TypeVar',
    'typing_extensions.Literal': 'typing.Literal',
    'typing_extensions.ParamSpec': 'typing.ParamSpec',
    'typing_extensions.ParamSpecArgs': 'typing.ParamSpecArgs',
    'typing_extensions.ParamSpecKwargs': 'typing.ParamSpecKwargs',
    'typing_extensions.Self': 'typing.Self',
    'typing_extensions.Final': 'typing.Final',
    'typing_extensions.final': 'typing.final',
    'typing_extensions.NewType': 'typing.NewType',
    'inspect._empty': 'inspect.Parameter.empty',
    'inspect.Signature.empty': 'inspect.Parameter.empty',
    'types.BuiltinMethodType': 'types.BuiltinFunctionType',
    'types.LambdaType': 'types.FunctionType',
    'collections.abc.Sequence': 'collections.abc.Sequence',
    'types.EllipsisType': 'types.EllipsisType',
}


def canonical_ref(dotted):
    return ref(ALIASES.get(dotted, dotted))


def exc_class(v):
    if v.op == 'cls' and v.args[0].is_exception():
        return v
    if v.op == 'ref' and program.is_builtin_exception(v.args[0]):
        return v
    if v.op == 'ref' and v.args[0].rsplit('.', 1)[-1].endswith(
            ('Error', 'Exception', 'Exit')):
        return v
    if v.op == 'exc':
        return v.args[0]
    if v.op == 'new' and v.args[0].is_exception():
        return mk('cls', v.args[0])
    if v.op == 'call':
        return exc_class(v.args[0])
    return None


def any_match(exc, types):
    results = [exc_match(exc, t) for t in types]
    if any(r is True for r in results):
        return True
    if any(r is None for r in results):
        return None
    return False


def exc_match(exc, t):
    """Whether the exception is caught by the handler of the type."""
    import builtins
    if exc is t:
        return True
    if exc.op == 'unk' or t.op == 'unk':
        return None
    if t is ref('builtins.BaseException'):
        return True
    if t is ref('builtins.Exception'):
        if exc.op == 'ref' and exc.args[0].startswith('builtins.'):
            k = getattr(builtins, exc.args[0][len('builtins.'):], None)
            return not isinstance(k, type) or issubclass(k, Exception)
        return True
    if exc.op == 'sym':
        return None
    if exc.op == 'cls':
        if t.op == 'cls':
            return exc.args[0].subclass_of(t.args[0])
        bases = exc.args[0].external_bases()
        return any_match_refs(bases, t)
    if exc.op == 'ref' and t.op == 'ref':
        return any_match_refs([exc], t)
    return False


def any_match_refs(refs, t):
    import builtins
    if t.op != 'ref' or not t.args[0].startswith('builtins.'):
        return t in refs
    k = getattr(builtins, t.args[0][9:], None)
    for r in refs:
        if r.op == 'ref' and r.args[0].startswith('builtins.'):
            x = getattr(builtins, r.args[0][9:], None)
            if isinstance(x, type) and isinstance(k, type) and issubclass(
                    x, k):
                return True
    return False
