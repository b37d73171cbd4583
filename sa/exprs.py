"""Expressions and calls of the abstract interpreter."""
import ast

from . import files, program, val
from .program import FuncInfo, type_from_value
from .val import (ABSENT, B, FALSE, FALSE_V, G, NONE, TRUE, TRUE_V, at, attr,
                  bool_v, c, call, concat, cv, dist, dist_b, each, elem, eq,
                  exists, first_of, fv, in_, is_, is_c, isinst, iter_parts,
                  last_of, leaves, length, lt, mk, mkseq, open_, phi, ref,
                  restrict, seq, seq_kind, subst, subst_guard, truth, typ, unk)
from .interp import (Frame, Interp, Loop, Unsupported, canonical_ref,
                     exc_class, dict_without)


def method(f):
    setattr(Interp, f.__name__, f)
    return f


@method
def eval(self, node):
    m = getattr(self, 'e_' + type(node).__name__, None)
    if m is None:
        raise Unsupported(f'expression {type(node).__name__}')
    return m(node)


@method
def annotation(self, node, module):
    """Value of an annotation."""
    if node is None:
        return None
    if isinstance(node, ast.Constant) and isinstance(node.value, str):
        try:
            node = ast.parse(node.value, mode='eval').body
        except SyntaxError:
            return None
    saved = self.frame, self.alive
    self.frame = Frame(None, None, module, TRUE)
    self.frame.vars = module.vars
    self.alive = TRUE
    try:
        return self.eval(node)
    except Unsupported:
        return None
    finally:
        self.frame, self.alive = saved


@method
def annotation_type(self, node, module):
    key = (id(node), module.name)
    cache = self.__dict__.setdefault('_annotation_types', {})
    if key not in cache:
        cache[key] = None
        v = self.annotation(node, module)
        cache[key] = type_from_value(v) if v is not None else None
    return cache[key]


@method
def e_Constant(self, n):
    return c(n.value)


@method
def e_Name(self, n):
    return self.get_var(n.id)


@method
def e_NamedExpr(self, n):
    v = self.eval(n.value)
    f = self.frame
    while f.func == 'comp':
        f = f.parent
    f.vars[n.target.id] = self.gate(f.entry, v, f.vars.get(n.target.id))
    return v


@method
def e_Tuple(self, n):
    return mkseq('tuple', self.display_parts(n.elts))


@method
def display_parts(self, elts):
    parts = []
    for x in elts:
        if isinstance(x, ast.Starred):
            parts.extend(self.iteration(self.eval(x.value)))
        else:
            parts.append(('i', G(TRUE), self.eval(x)))
    return parts


@method
def e_List(self, n):
    return self.new_loc(mk_cell('list', self.display_parts(n.elts)))


@method
def e_Set(self, n):
    return self.new_loc(mk_cell('set', self.display_parts(n.elts)))


def mk_cell(kind, parts):
    return mkseq(kind, parts)


@method
def e_Dict(self, n):
    parts = []
    for k, v in zip(n.keys, n.values):
        if k is None:
            parts.extend(self.dict_parts(self.eval(v)))
        else:
            kv = self.eval(k)
            parts.append(('i', G(TRUE), val.pair(kv, self.eval(v))))
    return self.new_loc(mkseq('dict', parts))


@method
def dict_parts(self, v):
    """Pairs of keys and values of a mapping."""
    v = self.deref(v)
    if v.op == 'phi':
        parts = []
        for g, x in leaves(v):
            parts.extend(val.guard_part(p, g) for p in self.dict_parts(x))
        return parts
    if v.op == 'seq' and v.args[0] == 'dict':
        return list(v.args[1])
    if v.op == 'seq':
        # sequence of pairs
        return list(v.args[1])
    if v.op == 'unk':
        return [('i', G(TRUE), v)]
    e = elem(v)
    return each(e, TRUE, val.pair(e, val.getitem(v, e)))


@method
def e_JoinedStr(self, n):
    parts = []
    for x in n.values:
        if isinstance(x, ast.Constant):
            parts.append(('i', G(TRUE), c(x.value)))
        else:
            v = self.eval(x.value)
            if x.format_spec is not None:
                spec = self.eval(x.format_spec)
                v = call(ref('builtins.format'), (self.resolve(v), spec))
            elif x.conversion == ord('r'):
                v = self.call_value(ref('builtins.repr'), [v], {})
            else:
                v = self.call_value(ref('builtins.str'), [v], {})
            parts.append(('i', G(TRUE), v))
    return mkseq('str', parts)


@method
def e_FormattedValue(self, n):
    return self.e_JoinedStr(ast.JoinedStr([n]))


@method
def e_IfExp(self, n):
    cond = self.cond(n.test)
    start = self.alive
    self.alive = B.and_(start, cond)
    a = self.eval(n.body) if self.alive != FALSE else None
    end = self.alive
    self.alive = B.and_(start, B.not_(cond))
    b = self.eval(n.orelse) if self.alive != FALSE else None
    self.alive = B.or_(end, self.alive)
    if a is None:
        return b if b is not None else unk('unreachable')
    if b is None:
        return a
    return phi([(cond, a), (B.not_(cond), b)])


@method
def e_BoolOp(self, n):
    is_and = isinstance(n.op, ast.And)
    start = self.alive
    dead = FALSE
    cases = []
    reach = TRUE
    for i, x in enumerate(n.values):
        v = self.eval(x)
        if i == len(n.values) - 1:
            cases.append((reach, v))
            break
        t = self.truth(v)
        stop = B.not_(t) if is_and else t
        cases.append((B.and_(reach, stop), v))
        reach = B.and_(reach, B.not_(stop))
        dead = B.or_(dead, B.and_(self.alive, stop))
        self.alive = B.and_(self.alive, B.not_(stop))
        if self.alive == FALSE:
            break
    self.alive = B.or_(self.alive, dead)
    # truth of the stopping operands is known
    r = []
    for i, (g, v) in enumerate(cases):
        if i < len(n.values) - 1:
            v = self.narrow_truth(v, not is_and)
        r.append((g, v))
    return phi(r)


@method
def narrow_truth(self, v, value):
    """Operand that is known to be true (or false)."""
    t = typ(v)
    if v.op == 'phi':
        kept = []
        for g, x in leaves(v):
            tx = val.truth(x) if x.op != 'loc' else None
            if tx == (FALSE if value else TRUE):
                continue
            kept.append((g, x))
        if kept:
            return phi(kept)
    return v


@method
def e_UnaryOp(self, n):
    if isinstance(n.op, ast.Not):
        return bool_v(B.not_(self.truth(self.eval(n.operand))))
    v = self.eval(n.operand)
    if isinstance(n.op, ast.USub):
        return val.add(c(0), v, -1)
    return mk('unop', type(n.op).__name__, v)


@method
def e_BinOp(self, n):
    left = self.eval(n.left)
    right = self.eval(n.right)
    return self.binop(type(n.op).__name__, left, right)


@method
def binop(self, op, left, right):
    l, r = self.deref(left), self.deref(right)
    v = dist(lambda a, b: self._binop(op, a, b), l, r)
    # results of operations on mutable collections are mutable
    return self.allocate_collections(v)


@method
def allocate_collections(self, v):
    if v.op == 'seq' and v.args[0] in ('list', 'set', 'dict'):
        return self.new_loc(v)
    return v


@method
def _binop(self, op, a, b):
    if a.op == 'unk':
        return a
    if b.op == 'unk':
        return b
    if op == 'Div':
        r = files.divide(a, b)
        if r is not None:
            return r
    if op == 'Add':
        ka, kb = seq_kind(a), seq_kind(b)
        if ka or kb:
            return val._concat(a, b)
        return val.add(a, b)
    if op == 'Sub':
        ka, kb = set_kind(a), set_kind(b)
        if ka or kb:
            return set_difference(a, b)
        if is_number(a) or is_number(b):
            return val.add(a, b, -1)
    if op in ('BitOr', 'BitAnd'):
        if (a.op == 'ref' or a.op == 'cls') and (b.op in ('ref', 'cls')):
            return mk('binop', op, a, b)
        if (seq_kind(a) == 'dict' or seq_kind(b) == 'dict') and (
                op == 'BitOr'):
            return mkseq('dict', self.dict_parts(a) + self.dict_parts(b))
        if set_kind(a) or set_kind(b):
            if op == 'BitOr':
                return mkseq('set', iter_parts(a) + iter_parts(b))
            return filter_by(a, lambda x: in_(x, b))
        if is_bool(a) and is_bool(b):
            f = B.or_ if op == 'BitOr' else B.and_
            return bool_v(f(truth(a), truth(b)))
    if op == 'BitXor' and is_bool(a) and is_bool(b):
        return bool_v(B.not_(B.iff(truth(a), truth(b))))
    if op == 'Mult':
        for x, y in ((a, b), (b, a)):
            if is_c(y) and isinstance(cv(y), (int, bool)):
                n = int(cv(y))
                if is_c(x):
                    return c(cv(x) * n)
                if x.op == 'seq':
                    return mkseq(x.args[0], list(x.args[1]) * max(n, 0))
                if is_number(x):
                    k, ts = val.to_lin(x)
                    return val.from_lin(k * n, {t: m * n
                                                for t, m in ts.items()})
    if is_c(a) and is_c(b):
        import operator
        f = {'Mult': operator.mul, 'Mod': operator.mod,
             'FloorDiv': operator.floordiv, 'Pow': operator.pow,
             'Div': operator.truediv, 'BitOr': operator.or_,
             'BitAnd': operator.and_}.get(op)
        if f is not None:
            try:
                return c(f(cv(a), cv(b)))
            except Exception:
                return unk(op)
    return mk('binop', op, a, b)


def is_bool(v):
    return (is_c(v) and isinstance(cv(v), bool)) or typ(v) == ('ext', 'bool')


def is_number(v):
    return val.is_int(v) or typ(v) == ('ext', 'int')


def set_kind(v):
    if v.op == 'seq' and v.args[0] in ('set', 'frozenset'):
        return 'set'
    if v.op == 'keys':
        return 'set'
    t = typ(v)
    if t is not None and t[0] == 'set':
        return 'set'
    return None


def set_difference(a, b):
    return filter_by(a, lambda x: B.not_(in_(x, b)))


def filter_by(a, cond, kind='set'):
    parts = []
    for p in iter_parts(a):
        if p[0] == 'i':
            parts.append(('i', G(B.and_(p[1].b, cond(p[2]))), p[2]))
        else:
            tag, src, h, g, x = p
            e, g, x = open_(src, h, g, x)
            if tag == 'f':
                return unk('filtering of a flattened collection')
            parts.extend(each(e, B.and_(g.b, cond(x)), x))
    return mkseq(kind, parts)


@method
def e_Compare(self, n):
    left = self.eval(n.left)
    r = TRUE
    saved = self.alive
    dead = FALSE
    for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
        right = self.eval(x)
        b = self.compare(type(op).__name__, left, right)
        r = B.and_(r, b)
        left = right
        if i < len(n.ops) - 1:
            dead = B.or_(dead, B.and_(self.alive, B.not_(b)))
            self.alive = B.and_(self.alive, b)
    self.alive = B.or_(self.alive, dead)
    return bool_v(r)


@method
def compare(self, op, left, right):
    if op in ('Is', 'IsNot'):
        l, r = restrict(left, self.alive), restrict(right, self.alive)
        b = dist_b(self._is_leaf, l, r)
        return b if op == 'Is' else B.not_(b)
    l, r = self.deref(left), self.deref(right)
    if op in ('Eq', 'NotEq'):
        b = dist_b(self._eq_leaf, l, r)
        return b if op == 'Eq' else B.not_(b)
    if op in ('In', 'NotIn'):
        b = dist_b(self._in_leaf, l, r)
        return b if op == 'In' else B.not_(b)
    if set_kind(l) or set_kind(r):
        if op in ('LtE', 'GtE'):
            a, b = (l, r) if op == 'LtE' else (r, l)
            return B.not_(val.seq_nonempty(set_difference(a, b)))
    if op == 'Lt':
        return lt(l, r)
    if op == 'Gt':
        return lt(r, l)
    if op == 'LtE':
        return B.not_(lt(r, l))
    if op == 'GtE':
        return B.not_(lt(l, r))
    raise Unsupported(f'comparison {op}')


@method
def _is_leaf(self, a, b):
    if a.op == 'loc' or b.op == 'loc':
        if a is b:
            return TRUE
        if a.op == 'loc' and b.op == 'loc':
            return FALSE
        other = b if a.op == 'loc' else a
        return FALSE
    return is_(a, b)


@method
def _eq_leaf(self, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == 'keys' or y.op == 'keys':
            break
        if x.op == 'new':
            f = x.args[0].lookup('__eq__')
            if f is not None and f.op == 'func':
                r = self.call_value(f, [x, y], {})
                return self.truth(r)
    a, b = self.resolve(a), self.resolve(b)
    if (set_kind(a) and set_kind(b) and a.op == 'seq' and b.op == 'seq'
            and not val.static_items(a)):
        pass
    return eq(a, b)


@method
def _in_leaf(self, x, coll):
    x = self.resolve(x)
    whole, coll = coll, self.resolve(coll)
    if (coll.op == 'unk' and whole.op == 'seq'
            and all(p[0] == 'i' for p in whole.args[1])):
        # of something cyclic, what is looked for may be not
        result = FALSE
        for p in whole.args[1]:
            y = p[2] if whole.args[0] != 'dict' else val.pair_of(p[2])[0]
            result = B.or_(result, B.and_(p[1].b, self._eq_leaf(x, y)))
        return result
    if coll.op == 'ref' or coll.op == 'cls':
        return B.var(mk('@in', x, coll))
    if coll.op == 'new':
        f = coll.args[0].lookup('__contains__')
        if f is not None:
            return self.truth(self.call_value(f, [coll, x], {}))
    if coll.op == 'keys':
        return in_(x, coll.args[0])
    return in_(x, coll)


@method
def e_Attribute(self, n):
    return self.getattr_(self.eval(n.value), n.attr)


@method
def getattr_(self, v, name):
    v = restrict(v, self.alive)
    return dist(lambda x: self._getattr_leaf(x, name), v)


def is_module(dotted):
    """Whether it is a module of the standard library."""
    import importlib.util
    import sys
    if dotted.partition('.')[0] not in sys.stdlib_module_names:
        return False
    try:
        return importlib.util.find_spec(dotted) is not None
    except (ImportError, AttributeError, ValueError):
        return False


@method
def _getattr_leaf(self, x, name):
    if x.op == 'unk':
        return x
    if (x, name) in self.known:
        return self.known[x, name]
    if x.op == 'module':
        m = x.args[0]
        if not m.ready:
            self.module(m.name)
        if name in m.vars:
            return m.vars[name]
        sub = f'{m.name}.{name}'
        if sub in self.modules:
            return mk('module', self.modules[sub])
        if name == '__name__':
            return c(m.name)
        return unk(f'{m.name}.{name}')
    if x.op == 'ref':
        if x.args[0].startswith('builtins.') and name in (
                '__name__', '__qualname__'):
            return c(x.args[0].rsplit('.', 1)[-1])
        parts = x.args[0].split('.')
        if f'{x.args[0]}.{name}' in self.attributes:
            return self.attributes[f'{x.args[0]}.{name}']
        if (x.args[0] == 'sys.implementation' and name == 'name'):
            return c('cpython')
        if name == '__name__' and is_module(x.args[0]):
            return c(x.args[0])
        if (name == 'name' and parts[-1] == '__spec__'
                and is_module(x.args[0][:-len('.__spec__')])):
            return c(x.args[0][:-len('.__spec__')])
        if name in ('__name__', '__qualname__') and len(parts) > 1:
            import inspect
            return c('.'.join(parts[2:]) if parts[0] == 'builtins'
                     and False else parts[-1]) if name == '__name__' else c(
                '.'.join(p for p in parts[1:]))
        return canonical_ref(f'{x.args[0]}.{name}')
    if x.op == 'super':
        k, receiver = x.args
        f = k.lookup(name, after=k)
        if f is None:
            return mk('objectm', name, receiver)
        return self.bind_method(f, receiver, k)
    if x.op == 'cls':
        k = x.args[0]
        f = k.lookup(name)
        if f is not None:
            if f.op == 'static':
                return f.args[0]
            if f.op == 'classm':
                return mk('bm', f.args[0], x)
            return f
        if name in ('__name__',):
            return c(k.name)
        if name == '__qualname__':
            return c(k.qualname)
        if name == '__module__':
            return c(k.module.name)
        return mk('attr', x, name)
    if x.op == 'func':
        info = x.args[0]
        if name == '__name__':
            return c(info.name)
        if name == '__qualname__':
            return c(info.qualname)
        return mk('attr', x, name)
    if x.op == 'dispatch' and name in ('register', 'dispatch', 'registry'):
        return mk('dispatchm', x, name)
    if x.op == 'member':
        if name in ('name', '_name_'):
            return c(x.args[1])
        if name in ('value', '_value_'):
            return c(x.args[2])
    if x.op == 'loc':
        cell = self.deref(x)
        if cell.op == 'new' or cell.op == 'phi':
            return dist(lambda y: self.object_attr(y, name, x), cell)
        return mk('bmethod', x, name)
    if x.op == 'new':
        return self.object_attr(x, name, x)
    if name == '__class__':
        return self.type_of(x)
    r = files.attribute(x, name)
    if r is not None:
        return r
    if x.op == 'seq' and name in VERSION and len(x.args[1]) == len(VERSION):
        return x.args[1][VERSION.index(name)][2]
    t = typ(x)
    if t is not None and t[0] in ('cls', 'enum'):
        r = self.class_attr(t[1], name, x)
        if r is not None:
            return r
    if t is not None and t[0] == 'union':
        return self.union_attr(t[1], name, x)
    if t is not None and t[0] in ('seq', 'map', 'set') or (
            t == ('ext', 'str')) or x.op in ('seq', 'group', 'keys') or (
            is_c(x) and isinstance(cv(x), (str, bytes))):
        return mk('bmethod', x, name)
    return attr(x, name)


# fields of `sys.version_info`
VERSION = ['major', 'minor', 'micro', 'releaselevel', 'serial']


@method
def union_attr(self, classes, name, x):
    cases = []
    for k in classes:
        r = self.class_attr(k, name, x)
        g = isinst(x, mk('cls', k))
        if r is None:
            _, a = k.field_annotation(name)
            if a is None:
                continue
            r = mk('attr', x, name)
        cases.append((g, r))
    if not cases:
        return mk('attr', x, name)
    if len({r for _, r in cases}) == 1:
        return cases[0][1]
    return phi(cases)


@method
def class_attr(self, k, name, x):
    """Attribute found on the class of the object."""
    f = k.lookup(name)
    if f is None:
        return None
    if f.op == 'property':
        return self.call_value(f.args[0], [x], {})
    return self.bind_method(f, x, k)


@method
def bind_method(self, f, receiver, k):
    if f.op == 'func' or f.op == 'dispatch':
        return mk('bm', f, receiver)
    if f.op == 'static':
        return f.args[0]
    if f.op == 'classm':
        return mk('bm', f.args[0], mk('cls', k))
    if f.op == 'property':
        return self.call_value(f.args[0], [receiver], {})
    return f


@method
def object_attr(self, y, name, receiver):
    if y.op != 'new':
        return mk('bmethod', receiver, name)
    for n, v in y.args[1]:
        if n == name:
            return v
    k = y.args[0]
    if name == '__class__':
        return mk('cls', k)
    r = self.class_attr(k, name, receiver)
    if r is not None:
        return r
    return mk('absent_attr', y, name)


@method
def setattr_(self, base, name, v):
    base = restrict(base, self.alive)
    for g, l in leaves(base):
        saved = self.alive
        self.alive = B.and_(saved, g)
        if self.alive != FALSE:
            if l.op == 'loc':
                cell = self.deref(l)
                if cell.op == 'new':
                    fields = dict(cell.args[1])
                    fields[name] = v
                    self.write_cell(l, mk('new', cell.args[0], tuple(
                        sorted(fields.items()))))
                else:
                    self.write_cell(l, unk('attribute assignment'))
            else:
                self.effect('setattr', l, name, v)
        self.alive = saved


@method
def e_Subscript(self, n):
    base = self.eval(n.value)
    if isinstance(n.slice, ast.Slice):
        lo, hi = self.slice_bounds(n.slice)
        cell = self.deref(base)
        if n.slice.step is not None:
            step = self.eval(n.slice.step)
            if step is c(-1) and lo is None and hi is None:
                return self.reversed_(cell)
            return unk('slice with a step')
        return self.allocate_collections(val.slice_(cell, lo, hi))
    return self.getitem(base, self.eval(n.slice))


@method
def slice_bounds(self, s):
    return (None if s.lower is None else self.eval(s.lower),
            None if s.upper is None else self.eval(s.upper))


@method
def reversed_(self, cell):
    def leaf(x):
        items = val.static_items(x)
        if items is not None:
            return seq(x.args[0], items[::-1])
        if x.op == 'seq' and all(p[0] == 'i' for p in x.args[1]):
            return mkseq(x.args[0], x.args[1][::-1])
        if x.op == 'reversed':
            return x.args[0]
        return mk('reversed', x)

    return dist(leaf, cell)


@method
def getitem(self, base, key):
    base = restrict(base, self.alive)
    key = self.resolve(restrict(key, self.alive))

    def leaf(x):
        if x.op == 'loc':
            cell = self.deref(x)
            return dist(lambda y: self._getitem_leaf(y, key, x), cell)
        return self._getitem_leaf(x, key, None)

    cases = []
    saved = self.alive
    end = FALSE
    ls = leaves(base)
    if len(ls) == 1:
        return leaf(base)
    for g, x in ls:
        self.alive = B.and_(saved, g)
        if self.alive == FALSE:
            continue
        cases.append((g, leaf(x)))
        end = B.or_(end, self.alive)
    self.alive = end
    return phi(cases)


@method
def _getitem_leaf(self, x, key, loc):
    if x.op in ('ref', 'cls') or x.op == 'getitem' and x.args[0].op == 'ref':
        return self._subscribed(mk('getitem', x, key))
    if x.op == 'group':
        return self.group_member(x, key, loc)
    if x.op == 'seq' and x.args[0] == 'dict':
        self.may_raise('KeyError', B.not_(in_(key, x)))
        return val.dict_get(x, key, None)
    if x.op == 'enumns':
        return mk('getitem', x, key)
    if x.op == 'new':
        f = x.args[0].lookup('__getitem__')
        if f is not None:
            return self.call_value(f, [x, key], {})
    t = typ(x)
    kind = seq_kind(x)
    if kind is not None:
        if self.catches(ref('builtins.IndexError')):
            n = length(x)
            if is_c(key) and isinstance(cv(key), int):
                k = cv(key)
                self.may_raise('IndexError', lt(
                    n, c(k + 1 if k >= 0 else -k)))
            else:
                self.may_raise('IndexError', B.not_(lt(key, n)))
        elif is_c(key) and isinstance(cv(key), int) and x.op == 'seq':
            n, k = length(x), cv(key)
            if is_c(n) and not -cv(n) <= k < cv(n):
                self.may_raise('IndexError', TRUE)
        return dist(lambda k: at(x, k), key)
    if x.op == 'unk':
        return x
    if t is None or t[0] in ('map', 'obj', 'ext'):
        if self.catches(ref('builtins.KeyError')):
            self.may_raise('KeyError', dist_b(
                lambda k: B.not_(in_(k, x)), key))
    return self._subscribed(val.getitem(x, key))


@method
def _subscribed(self, r):
    """Items of arbitrary objects might be assumed to be missing."""
    for exc in self.config.may_raise.get('[]', ()):
        b = dist_b(lambda x: B.var(mk('@raises', exc, x)), r)
        self.raise_(B.and_(self.alive, b), exc)
    return r


@method
def group_member(self, x, key, loc):
    """Collection of the values with the given key."""
    member = self.new_loc(val.group_get(x, key))
    if loc is not None:
        self.group_refs[member] = (loc, key)
    return member


@method
def setitem(self, base, key, v):
    base = restrict(base, self.alive)
    key = self.resolve(restrict(key, self.alive))
    for g, l in leaves(base):
        saved = self.alive
        self.alive = B.and_(saved, g)
        if self.alive != FALSE:
            if l.op == 'loc':
                cell = self.deref(l)
                if cell.op == 'seq' and cell.args[0] == 'dict':
                    self.append_part(l, val.pair(key, v))
                elif cell.op == 'seq' and cell.args[0] == 'list' and is_c(
                        key):
                    self.write_cell(l, self.list_set(cell, cv(key), v))
                else:
                    self.write_cell(l, unk('item assignment'))
            elif l.op == 'groupref':
                pass
            else:
                self.effect('setitem', l, key, v)
        self.alive = saved


@method
def list_set(self, cell, i, v):
    parts = list(cell.args[1])
    if isinstance(i, int) and 0 <= i < len(parts) and all(
            p[0] == 'i' and p[1].b == TRUE for p in parts[:i + 1]):
        parts[i] = ('i', G(TRUE), v)
        return mkseq('list', parts)
    if isinstance(i, int) and i == 0:
        rest = val.slice_(cell, c(1), None)
        return mkseq('list', [('i', G(TRUE), v)] + iter_parts(rest))
    return unk('item assignment')


@method
def append_part(self, l, v, guard=TRUE):
    """Adds an element to the collection."""
    cell = self.deref(l)
    g = val.constrain(self.alive, self.alloc.get(l, TRUE))
    g = B.and_(g, guard)
    full = self.heap[l]
    owner = self.group_refs.get(l)
    if owner is not None:
        group, key = owner
        self.append_group(group, [('i', G(guard), val.pair(key, v))])
    if full.op == 'seq':
        self.heap[l] = mkseq(full.args[0],
                             list(full.args[1]) + [('i', G(g), v)])
    else:
        self.write_cell(l, dist(
            lambda x: (mkseq(x.args[0], list(x.args[1])
                             + [('i', G(TRUE), v)])
                       if x.op == 'seq' else unk('change of a collection')),
            cell))


@method
def append_group(self, l, parts):
    full = self.heap[l]
    if full.op != 'group':
        self.heap[l] = unk('change of grouped values')
        return
    g = val.constrain(self.alive, self.alloc.get(l, TRUE))
    self.heap[l] = mk('group', full.args[0] + tuple([
        val.guard_part(p, g) for p in parts]))


@method
def extend(self, l, other):
    g = val.constrain(self.alive, self.alloc.get(l, TRUE))
    full = self.heap[l]
    parts = self.iteration(other)
    owner = self.group_refs.get(l)
    if owner is not None:
        group, key = owner
        paired = []
        for p in parts:
            if p[0] == 'i':
                paired.append(('i', p[1], val.pair(key, p[2])))
            elif p[0] == 'e':
                e, gg, x = val.open_(*p[1:])
                paired.extend(val.each(e, gg.b, val.pair(key, x)))
            else:
                paired.append(('i', G(TRUE), unk('flattened group')))
        self.append_group(group, paired)
    if full.op == 'seq':
        self.heap[l] = mkseq(full.args[0], list(full.args[1])
                             + [val.guard_part(p, g) for p in parts])
    else:
        self.write_cell(l, dist(
            lambda x: (mkseq(x.args[0], list(x.args[1]) + list(parts))
                       if x.op == 'seq' else unk('change of a collection')),
            self.deref(l)))


@method
def e_Lambda(self, n):
    return self.make_function(n, '<lambda>')


@method
def e_Starred(self, n):
    return mk('splat', self.eval(n.value))


@method
def e_Await(self, n):
    return self.eval(n.value)


@method
def e_Yield(self, n):
    f = self.frame.root()
    v = NONE if n.value is None else self.eval(n.value)
    if f.resume is not None:
        f.resume(v)
        return NONE
    if f.out is None:
        raise Unsupported('suspended function')
    self.append_part(f.out, v)
    return NONE


@method
def e_YieldFrom(self, n):
    f = self.frame.root()
    self.extend(f.out, self.eval(n.value))
    return NONE


# --- comprehensions

@method
def comprehension(self, kind, generators, emit):
    out = self.new_loc(mkseq(kind, []))
    saved = self.frame
    first = self.eval(generators[0].iter)
    self.frame = Frame('comp', saved, saved.module, self.alive, saved.cls)
    start = self.alive
    try:
        def level(i):
            if i == len(generators):
                self.append_part(out, emit())
                return
            gen = generators[i]
            source = first if i == 0 else self.eval(gen.iter)
            loop = Loop()
            self.loops.append(loop)

            def body():
                skipped = FALSE
                for cond in gen.ifs:
                    b = self.cond(cond)
                    skipped = B.or_(skipped, B.and_(self.alive, B.not_(b)))
                    self.alive = B.and_(self.alive, b)
                if self.alive != FALSE:
                    level(i + 1)
                self.alive = B.or_(self.alive, skipped)

            try:
                self.iterate(self.iteration(source),
                             lambda v: self.assign(gen.target, v), body,
                             loop)
            finally:
                self.loops.pop()

        level(0)
    finally:
        self.frame = saved
    return out


@method
def e_ListComp(self, n):
    return self.comprehension('list', n.generators,
                              lambda: self.eval(n.elt))


@method
def e_GeneratorExp(self, n):
    return self.comprehension('list', n.generators,
                              lambda: self.eval(n.elt))


@method
def e_SetComp(self, n):
    return self.comprehension('set', n.generators, lambda: self.eval(n.elt))


@method
def e_DictComp(self, n):
    def emit():
        k = self.eval(n.key)
        return val.pair(k, self.eval(n.value))

    return self.comprehension('dict', n.generators, emit)
