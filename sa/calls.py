"""Calls of functions of the program, builtins and methods of collections."""
import ast

from . import files, program, val
from .program import DispatchInfo, FuncInfo, type_from_value
from .val import (ABSENT, B, FALSE, FALSE_V, G, NONE, TRUE, TRUE_V, at, attr,
                  bool_v, c, call, concat, cv, dist, dist_b, each, elem, eq,
                  exists, first_of, fv, in_, is_, is_c, isinst, iter_parts,
                  last_of, leaves, length, lt, mk, mkseq, open_, phi, ref,
                  restrict, seq, seq_kind, subst, subst_guard, truth, typ, unk)
from .interp import (Frame, Interp, Loop, Unsupported, canonical_ref,
                     dict_without, exc_class)
from .exprs import filter_by, method, set_difference, set_kind


@method
def e_Call(self, n):
    if (isinstance(n.func, ast.Name) and n.func.id == 'super'
            and not n.args):
        return self.super_value()
    if isinstance(n.func, ast.Attribute):
        base = self.eval(n.func.value)
        f = self.getattr_(base, n.func.attr)
    else:
        f = self.eval(n.func)
    if ((f is ref('builtins.locals') or f is ref('builtins.globals'))
            and f.args[0] not in self.config.results):
        return unk('namespace')
    args, kwargs, kwstars = [], {}, []
    for x in n.args:
        if isinstance(x, ast.Starred):
            args.append(mk('splat', self.eval(x.value)))
        else:
            args.append(self.eval(x))
    for k in n.keywords:
        v = self.eval(k.value)
        if k.arg is None:
            kwstars.append(v)
        else:
            kwargs[k.arg] = v
    self.given = [(k.arg, kwargs.get(k.arg)) for k in n.keywords]
    return self.call_value(f, args, kwargs, kwstars, n)


@method
def keywords_order(self, kwargs, kwstars):
    """Keyword arguments in the order they are given, if it is definite."""
    if [name for name, _ in self.given if name is not None] != list(kwargs):
        return None
    stars, result = list(kwstars), []
    for name, v in self.given:
        if name is not None:
            result.append((name, v))
            continue
        if not stars:
            return None
        for p in self.dict_parts(stars.pop(0)):
            if p[0] != 'i' or p[1].b != TRUE:
                return None
            k, x = val.pair_of(p[2])
            if not is_c(k):
                return None
            result.append((cv(k), x))
    return None if stars else result


@method
def super_value(self):
    f = self.frame
    while f is not None and not (isinstance(f.func, FuncInfo)
                                 and f.func.cls is not None):
        f = f.parent
    if f is None:
        return unk('super')
    node = f.func.node
    first = (node.args.posonlyargs + node.args.args)[0].arg
    return mk('super', f.func.cls, f.vars[first])


@method
def call_value(self, f, args, kwargs, kwstars=(), node=None):
    f = restrict(f, self.alive)
    ls = leaves(f)
    if len(ls) == 1:
        return self._call_leaf(ls[0][1], args, kwargs, kwstars, node)
    cases, end = [], FALSE
    saved = self.alive
    for g, x in ls:
        self.alive = B.and_(saved, g)
        if self.alive == FALSE:
            continue
        cases.append((g, self._call_leaf(x, list(args), dict(kwargs),
                                         kwstars, node)))
        end = B.or_(end, self.alive)
    self.alive = end
    return phi(cases)


@method
def _call_leaf(self, f, args, kwargs, kwstars, node):
    op = f.op
    if op == 'unk':
        return f
    if op == 'func':
        return self.call_function(f, args, kwargs, kwstars)
    if op == 'bm':
        return self.call_value(f.args[0], [f.args[1]] + args, kwargs,
                               kwstars, node)
    if op in ('static', 'overload'):
        return self.call_value(f.args[0], args, kwargs, kwstars, node)
    if op == 'cls':
        return self.construct(f, args, kwargs, kwstars)
    if op == 'bmethod':
        return self.call_method(f.args[0], f.args[1], args, kwargs, kwstars)
    if op == 'objectm':
        return self.call_object_method(f, args, kwargs)
    if op == 'dispatchm':
        return self.call_dispatch_method(f, args, kwargs)
    if op == 'registrar':
        f.args[0].registry.append((f.args[1], args[0]))
        return args[0]
    if op == 'dispatch':
        return self.call_dispatch(f, args, kwargs, kwstars)
    if op == 'partialv':
        inner, pargs, pkw = f.args
        kw = dict(pkw)
        kw.update(kwargs)
        return self.call_value(inner, list(pargs) + args, kw, kwstars, node)
    if op == 'ref':
        return self.call_ref(f, args, kwargs, kwstars)
    if op == 'manager' and not kwstars:
        return mk('managed', f.args[0], tuple(args),
                  tuple(sorted(kwargs.items())))
    if op == 'attrgetter' and len(args) == 1 and args[0].op != 'splat':
        found = [self.getattr_(args[0], name) for name in f.args]
        return found[0] if len(found) == 1 else seq('tuple', found)
    if op == 'itemgetter' and len(args) == 1 and args[0].op != 'splat':
        found = [self.getitem(args[0], key) for key in f.args]
        return found[0] if len(found) == 1 else seq('tuple', found)
    if op == 'attr':
        return self.call_attr(f, args, kwargs, kwstars)
    if op == 'absent_attr' or op == 'new':
        k = f.args[0] if op == 'new' else None
        if k is not None:
            m = k.lookup('__call__')
            if m is not None:
                return self.call_value(m, [f] + args, kwargs, kwstars)
    return self.opaque_call(f, args, kwargs, kwstars)


@method
def flat_args(self, args):
    """Parts of positional arguments."""
    parts = []
    for a in args:
        if a.op == 'splat':
            parts.extend(self.iteration(a.args[0]))
        else:
            parts.append(('i', G(TRUE), a))
    return parts


@method
def opaque_call(self, f, args, kwargs, kwstars=()):
    """Call of something without known body: uninterpreted function."""
    parts = [self.resolve_part(p) for p in self.flat_args(args)]
    if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
        vs = tuple([p[2] for p in parts])
    else:
        vs = (mk('splat', collapse(mkseq('tuple', parts))),)
    kw = {k: self.resolve(v) for k, v in kwargs.items()}
    rest = []
    for m in kwstars:
        for p in self.dict_parts(m):
            p = self.resolve_part(p)
            if p[0] == 'i' and p[1].b == TRUE:
                k, x = val.pair_of(p[2])
                if is_c(k):
                    kw[cv(k)] = x
                    continue
            rest.append(p)
    items = sorted(kw.items())
    if rest:
        items.append(('**', collapse_dict(mkseq('dict', rest))))
    fv_ = self.resolve(f)
    r = call(fv_, vs, tuple(items))
    return r


@method
def resolve_part(self, p):
    if p[0] == 'i':
        return ('i', p[1], self.resolve(p[2]))
    return p[:4] + (self.resolve(p[4]),)


def collapse(v):
    """Sequence that only repeats another one."""
    if v.op == 'seq' and len(v.args[1]) == 1:
        p, = v.args[1]
        if p[0] == 'e' and p[3].b == TRUE and p[4].op == 'bv':
            return p[1]
    return v


def collapse_dict(v):
    if v.op == 'seq' and len(v.args[1]) == 1:
        p, = v.args[1]
        if p[0] == 'e' and p[3].b == TRUE:
            k, x = val.pair_of(p[4])
            if k.op == 'bv' and x.op == 'getitem' and x.args == (p[1], k):
                return p[1]
    return v


# --- functions of the program

@method
def call_function(self, f, args, kwargs, kwstars):
    info = f.args[0]
    key = info.key()
    if key in self.config.opaque or info.name in self.config.opaque:
        return self.opaque_function(f, args, kwargs, kwstars)
    depth = sum(x is info for x in self.stack)
    received = None if not self.config.snapshots else (
        info, self.resolve(mkseq('tuple', self.flat_args(args))), {
            k: self.resolve(v) for k, v in kwargs.items()
        })
    if (depth and self.config.recursion and not kwstars
            and received is not None and received in self.received):
        # nothing has changed, so the recursion never ends
        self.raise_(self.alive, ref('builtins.RecursionError'))
        return unk('endless recursion')
    if depth > self.config.recursion:
        if self.config.endless:
            self.raise_(self.alive, ref('builtins.RecursionError'))
            return unk('endless recursion')
        if self.config.recursion:
            return unk(f'too deep recursion of {info.name}')
        return self.opaque_function(f, args, kwargs, kwstars)
    if self.config.loading and has_loop(info):
        return self.opaque_function(f, args, kwargs, kwstars)
    if len(self.stack) > self.config.max_depth:
        return unk('too deep calls')
    self.functions_analysed.add(key)
    frame = Frame(info, info.frame, info.module, self.alive)
    self.bind_parameters(info, frame, args, kwargs, kwstars)
    saved = self.frame, self.loops
    self.loops = []
    entry = self.alive
    self.frame = frame
    self.stack.append(info)
    self.received.append(received)
    try:
        if isinstance(info.node, ast.Lambda):
            v = self.eval(info.node.body)
            return v
        if info.is_generator:
            frame.out = self.new_loc(mkseq('list', []))
        self.exec_block(info.node.body)
        if self.alive != FALSE:
            frame.returns.append((self.alive, NONE))
        end = FALSE
        for g, _ in frame.returns:
            end = B.or_(end, g)
        self.alive = end
        if info.is_generator:
            return frame.out
        if not frame.returns:
            return unk('function never returns')
        return phi([(val.constrain(g, end) if end != FALSE else g, v)
                    for g, v in frame.returns])
    finally:
        self.stack.pop()
        self.received.pop()
        self.frame, self.loops = saved


def has_loop(info):
    if info.loops is None:
        info.loops = any(isinstance(n, (ast.For, ast.While, ast.Try,
                                        ast.ListComp, ast.DictComp,
                                        ast.SetComp, ast.GeneratorExp))
                         for n in ast.walk(info.node))
    return info.loops


@method
def opaque_function(self, f, args, kwargs, kwstars):
    info = f.args[0]
    # arguments are put in the order of parameters, defaults included
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    keywords = [x.arg for x in a.kwonlyargs]
    parts = self.flat_args(args)
    kw = dict(kwargs)
    simple, vs = a.kwarg is None, args
    for m in kwstars:
        for p in self.dict_parts(m):
            if p[0] == 'i' and is_c(val.pair_of(p[2])[0]):
                k, x = val.pair_of(p[2])
                k = cv(k)
                default = info.defaults.get(k, ABSENT)
                kw[k] = phi([(p[1].b, x),
                             (B.not_(p[1].b), kw.get(k, default))])
            else:
                simple = False
    leading = []
    for p in parts:
        if p[0] != 'i' or p[1].b != TRUE:
            break
        leading.append(p[2])
    if simple and (len(leading) == len(parts)
                   or len(leading) >= len(names)):
        vs = leading[:len(names)]
        for name in names[len(vs):]:
            if name in kw:
                vs.append(kw.pop(name))
            elif name in info.defaults:
                vs.append(info.defaults[name])
            else:
                vs.append(ABSENT)
        rest = parts[len(names):]
        if rest:
            vs.append(mk('splat', mkseq('tuple', rest)))
        for name in keywords:
            if name not in kw and name in info.defaults:
                kw[name] = info.defaults[name]
        r = self.opaque_call(f, vs, kw, ())
    else:
        r = self.opaque_call(f, args, kwargs, kwstars)
    assumed = self.config.results.get(
        info.key(), self.config.results.get(info.name))
    if assumed is not None:
        base = r
        self.keywords = self.keywords_order(kwargs, kwstars)
        r = assumed(self, vs if simple else args, r)
    else:
        base = r
    for exc in self.config.may_raise.get(
            info.key(), self.config.may_raise.get(info.name, ())):
        b = dist_b(lambda x: B.var(mk('@raises', exc, x)), base)
        guard = B.and_(self.alive, b)
        self.raise_(guard, exc)
    return r


@method
def bind_parameters(self, info, frame, args, kwargs, kwstars):
    a = info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    posonly = {x.arg for x in a.posonlyargs}
    parts = self.flat_args(args)
    values = {}
    i = 0
    for name in names:
        if i < len(parts):
            p = parts[i]
            if p[0] == 'i' and p[1].b == TRUE:
                values[name] = p[2]
                i += 1
                continue
            rest = mkseq('tuple', parts[i:])
            # unknown number of arguments
            k = names.index(name)
            remaining = [n for n in names[k:] if n not in kwargs]
            for j, n in enumerate(remaining):
                values[n] = at(rest, c(j))
            parts = parts[:i]
            if a.vararg is not None:
                parts = iter_parts(val.slice_(rest, c(len(remaining)),
                                              None))
                i = 0
            break
    if a.vararg is not None:
        v = mkseq('tuple', parts[i:])
        v2 = collapse(v)
        if v2 is not v and seq_kind(v2) == 'tuple':
            v = v2
        frame.vars[a.vararg.arg] = v
    elif i < len(parts):
        frame.vars['*surplus'] = unk('surplus arguments')
    accepted = [n for n in names if n not in posonly] + [
        x.arg for x in a.kwonlyargs]
    extra = []
    for k, v in kwargs.items():
        if k in accepted and k not in values:
            values[k] = v
        else:
            extra.append(('i', G(TRUE), val.pair(c(k), v)))
    optional = {}
    for m in kwstars:
        for p in self.dict_parts(m):
            if p[0] == 'i':
                k, x = val.pair_of(p[2])
                if is_c(k) and cv(k) in accepted and cv(k) not in values:
                    optional.setdefault(cv(k), []).append((p[1].b, x))
                    continue
            extra.append(p)
    for k, cases in optional.items():
        cover = FALSE
        for g, _ in cases:
            cover = B.or_(cover, g)
        cover = cover if self.alive == FALSE else cover
        if B.and_(self.alive, B.not_(cover)) != FALSE:
            d = info.defaults.get(k)
            if d is not None:
                cases = cases + [(B.not_(cover), d)]
        values[k] = phi(cases)
    if a.kwarg is not None:
        v = mkseq('dict', extra)
        v2 = collapse_dict(v)
        if v2 is not v:
            v = v2
        else:
            v = self.new_loc(v)
        frame.vars[a.kwarg.arg] = v
    for name in names + [x.arg for x in a.kwonlyargs]:
        if name not in values:
            if name in info.defaults:
                values[name] = info.defaults[name]
            elif extra and a.kwarg is None:
                values[name] = unk(f'argument {name}')
            else:
                values[name] = unk(f'missing argument {name}')
    frame.vars.update(values)


# --- classes

@method
def construct(self, f, args, kwargs, kwstars):
    k = f.args[0]
    if k.is_exception():
        return mk('exc', f)
    if k.members is not None:
        return self.enum_member(k, args)
    new = k.lookup('__new__')
    if new is not None:
        target = new.args[0] if new.op == 'static' else new
        return self.call_value(target, [f] + args, kwargs, kwstars)
    init = k.lookup('__init__')
    l = self.new_loc(mk('new', k, ()))
    if init is not None:
        self.call_value(init, [l] + args, kwargs, kwstars)
    elif any(b.op == 'ref' and b.args[0] in ('typing.NamedTuple',)
             for b in k.external_bases()):
        names = list(k.annotations)
        fields = {}
        for n, a in zip(names, args):
            fields[n] = a
        fields.update(kwargs)
        self.heap[l] = mk('new', k, tuple(sorted(fields.items())))
    elif args or kwargs:
        return self.opaque_call(f, args, kwargs, kwstars)
    return l


@method
def enum_member(self, k, args):
    """Member with the given value."""
    if len(args) != 1:
        return unk('enumeration call')
    v = restrict(args[0], self.alive)

    def leaf(x):
        if x.op == 'member' and x.args[0] is k:
            return x
        for m in k.members:
            if is_c(x) and m.args[2] == cv(x):
                return m
        if typ(x) == ('enum', k):
            return x
        return mk('enumcall', k, x)

    return dist(leaf, v)


@method
def call_object_method(self, f, args, kwargs):
    name, receiver = f.args
    if name == '__new__':
        cls = args[0] if args else receiver
        cls = restrict(cls, self.alive)
        if cls.op == 'cls':
            return self.new_loc(mk('new', cls.args[0], ()))
        return unk('allocation')
    if name == '__init__':
        return NONE
    if name == '__setattr__' and len(args) == 2 and is_c(args[0]):
        self.setattr_(receiver, cv(args[0]), args[1])
        return NONE
    if name == '__setattr__' and len(args) == 3 and is_c(args[1]):
        self.setattr_(args[0], cv(args[1]), args[2])
        return NONE
    return self.opaque_call(mk('attr', ref('builtins.object'), name),
                            [receiver] + args, kwargs)


@method
def type_of(self, v):
    def leaf(x):
        if x.op == 'loc':
            return dist(leaf, self.deref(x))
        if x.op == 'new':
            return mk('cls', x.args[0])
        if x.op == 'member':
            return mk('cls', x.args[0])
        if x.op == 'seq':
            return ref('builtins.' + x.args[0])
        if is_c(x):
            return ref('builtins.' + type(cv(x)).__name__)
        if x == ref('builtins.Ellipsis'):
            return ref('builtins.ellipsis')
        if x == ref('builtins.NotImplemented'):
            return ref('builtins.NotImplementedType')
        t = typ(x)
        if t is not None and t[0] == 'cls' and not t[1].subclasses:
            return mk('cls', t[1])
        if t is not None and t[0] == 'enum' and t[1].members:
            # classes of enumerations with members are not subclassed
            return mk('cls', t[1])
        if t is not None and t[0] == 'union' and all(
                not k.subclasses for k in t[1]):
            return phi([(isinst(x, mk('cls', k)), mk('cls', k))
                        for k in t[1]])
        return call(ref('builtins.type'), (x,))

    return dist(leaf, restrict(v, self.alive))


# --- single dispatch

@method
def call_dispatch_method(self, f, args, kwargs):
    d, name = f.args
    info = d.args[0]
    if name == 'register':
        if len(args) == 1 and not kwargs:
            if args[0].op == 'func':
                # type is taken from the annotation
                return self.decorate(mk('register', info), args[0])
            return mk('registrar', info, args[0])
        if len(args) == 2:
            info.registry.append((args[0], args[1]))
            return args[1]
        if len(args) == 1 and 'func' in kwargs:
            info.registry.append((args[0], kwargs['func']))
            return kwargs['func']
    if name == 'dispatch' and len(args) == 1:
        r = info.get(args[0])
        return r if r is not None else info.func
    return unk(f'single dispatch {name}')


@method
def call_dispatch(self, f, args, kwargs, kwstars):
    info = f.args[0]
    key = f'{info.func.args[0].module.name}:{info.name}'
    if key in self.config.opaque or info.name in self.config.opaque:
        return self.dispatch_opaque(f, info, args, kwargs, kwstars)
    if args and args[0].op != 'splat':
        x = restrict(args[0], self.alive)
        if x.op == 'loc':
            x = self.deref(x)
        t = typ(x)
        k = None
        if t is not None and t[0] == 'obj':
            k = t[1]
        elif t is not None and t[0] == 'cls':
            k = mk('cls', t[1])
        elif x.op == 'seq':
            k = ref('builtins.' + x.args[0])
        elif is_c(x):
            k = ref('builtins.' + type(cv(x)).__name__)
        elif t is not None and t[0] == 'ext':
            handler = ext_handler(info, t[1])
            if handler is not None:
                return self.call_value(handler, args, kwargs, kwstars)
        if k is not None:
            handler = info.get(k)
            if handler is None and k.op == 'cls' and (x.op == 'new'
                                                      or x.op == 'member'):
                handler = class_handler(info, k.args[0])
            elif handler is None and (is_c(x) or x.op == 'seq'):
                handler = ext_handler(info, k.args[0])
                if handler is None and all(t.op == 'cls'
                                           for t, _ in info.registry):
                    handler = info.func
            if handler is not None:
                return self.call_value(handler, args, kwargs, kwstars)
    return self.dispatch_opaque(f, info, args, kwargs, kwstars)


def class_handler(info, k):
    """Implementation for direct objects of the class of the program."""
    for base in k.mro():
        handler = info.get(mk('cls', base))
        if handler is not None:
            return handler
    if any(t.op != 'cls' for t, _ in info.registry):
        # might be an external superclass
        bases = [b.args[0] for b in k.external_bases() if b.op == 'ref']
        for b in bases or ['builtins.object']:
            handler = ext_handler(info, b)
            if handler is not info.func:
                return handler
    return info.func


def ext_class(dotted):
    """Class of the standard library."""
    import importlib
    import sys
    module, _, name = dotted.rpartition('.')
    if module.partition('.')[0] not in sys.stdlib_module_names:
        return None
    try:
        r = getattr(importlib.import_module(module), name)
    except (ImportError, AttributeError):
        return None
    return r if isinstance(r, type) else None


def ext_handler(info, dotted):
    """Implementation for objects of the external class."""
    from functools import singledispatch
    k = object if dotted == 'builtins.object' else ext_class(dotted)
    if k is None:
        return None
    g = singledispatch(None)
    for t, f in info.registry:
        registered = ext_object(t)
        if isinstance(registered, type):
            g.register(registered, f)
    return g.dispatch(k) or info.func


def ext_object(v):
    """Object of the standard library the value denotes."""
    import builtins
    import typing
    if v.op == 'ref':
        found = ext_class(v.args[0])
        if found is not None:
            return found
        module, _, name = v.args[0].rpartition('.')
        if module == 'typing':
            return getattr(typing, name, None)
    elif is_c(v):
        return cv(v)
    elif v.op == 'seq' and v.args[0] == 'tuple':
        items = val.static_items(v)
        if items is not None:
            items = [ext_object(x) if x is not NONE else None for x in items]
            return tuple(items)
    elif v.op == 'getitem':
        base, item = map(ext_object, v.args)
        if base is not None and item is not None:
            try:
                return base[item]
            except TypeError:
                return None
    elif v.op == 'call' and not v.args[2]:
        f = v.args[0]
        arguments = [ext_object(x) for x in v.args[1]]
        if any(x is None for x in arguments):
            return None
        if f is ref('builtins.type') and len(arguments) == 1:
            return builtins.type(arguments[0])
        if f is ref('typing.TypeVar'):
            return typing.TypeVar(*arguments)
    return None


@method
def dispatch_opaque(self, f, info, args, kwargs, kwstars):
    r = base = self.opaque_call(f, args, kwargs, kwstars)
    assumed = self.config.results.get(info.name)
    if assumed is not None:
        args = [self.resolve(x) for x in args]
        r = dist(lambda x: assumed(self, [x] + args[1:], r), args[0])
    for exc in self.config.may_raise.get(info.name, ()):
        b = dist_b(lambda x: B.var(mk('@raises', exc, x)), base)
        self.raise_(B.and_(self.alive, b), exc)
    return r


# --- external functions

@method
def call_ref(self, f, args, kwargs, kwstars):
    name = f.args[0]
    if not kwstars and not any(a.op == 'splat' and name not in SPLAT_OK
                               for a in args):
        h = BUILTINS.get(name)
        if h is not None:
            r = h(self, args, kwargs)
            if r is not None:
                return r
    elif name in BUILTINS and not kwstars:
        parts = self.flat_args(args)
        if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
            r = BUILTINS[name](self, [p[2] for p in parts], kwargs)
            if r is not None:
                return r
    if program.is_builtin_exception(name):
        return mk('exc', f)
    r = base = self.opaque_call(f, args, kwargs, kwstars)
    assumed = self.config.results.get(name)
    if assumed is not None:
        self.keywords = self.keywords_order(kwargs, kwstars)
        r = assumed(self, args, r)
    for exc in self.config.may_raise.get(name, ()):
        b = dist_b(lambda x: B.var(mk('@raises', exc, x)), base)
        self.raise_(B.and_(self.alive, b), exc)
    return r


BUILTINS = {}
_later = []


def cmethod_later(name):
    def decorate(f):
        _later.append((name, f))
        return f

    return decorate


SPLAT_OK = {'itertools.chain', 'builtins.zip'}


def builtin(*names):
    def decorator(g):
        for n in names:
            BUILTINS[n] = g
        return g

    return decorator


@builtin('builtins.len')
def _(self, args, kwargs):
    x = self.resolve(self.deref(args[0]))

    def leaf(y):
        if y.op == 'keys':
            return length(y.args[0])
        if y.op == 'new':
            m = y.args[0].lookup('__len__')
            if m is not None:
                return self.call_value(m, [y], {})
        return val._length(y)

    return dist(leaf, x)


@builtin('builtins.bool')
def _(self, args, kwargs):
    if not args:
        return FALSE_V
    return bool_v(self.truth(args[0]))


@builtin('operator.not_')
def _(self, args, kwargs):
    return bool_v(B.not_(self.truth(args[0])))


@builtin('operator.truth')
def _(self, args, kwargs):
    return bool_v(self.truth(args[0]))


for _name, _op in [('is_', 'Is'), ('is_not', 'IsNot'), ('eq', 'Eq'),
                   ('ne', 'NotEq'), ('lt', 'Lt'), ('le', 'LtE'),
                   ('gt', 'Gt'), ('ge', 'GtE')]:
    def _make(op):
        return lambda self, args, kwargs: bool_v(
            self.compare(op, args[0], args[1]))

    BUILTINS['operator.' + _name] = _make(_op)


@builtin('operator.contains')
def _(self, args, kwargs):
    return bool_v(self.compare('In', args[1], args[0]))


@builtin('operator.add')
def _(self, args, kwargs):
    return self.binop('Add', args[0], args[1])


@builtin('operator.getitem')
def _(self, args, kwargs):
    return self.getitem(args[0], args[1])


@builtin('operator.itemgetter')
def _(self, args, kwargs):
    if args and not kwargs and all(is_c(x) for x in args):
        return mk('itemgetter', *args)
    return None


for _name, _op in [('sub', 'Sub'), ('mul', 'Mult'), ('truediv', 'Div'),
                   ('or_', 'BitOr'), ('and_', 'BitAnd')]:
    def _make(op):
        return lambda self, args, kwargs: (
            self.binop(op, *args) if len(args) == 2 and not kwargs else None)

    BUILTINS['operator.' + _name] = _make(_op)


@builtin('operator.attrgetter')
def _(self, args, kwargs):
    if args and not kwargs and all(is_c(x) and '.' not in cv(x)
                                   for x in args):
        return mk('attrgetter', *[cv(x) for x in args])
    return None


@builtin('builtins.isinstance')
def _(self, args, kwargs):
    v = restrict(args[0], self.alive)
    k = self.resolve(self.deref(args[1]))

    def leaf(x):
        if x.op == 'loc':
            return dist_b(lambda y: isinst(y, k), self.deref(x))
        return isinst(x, k)

    return bool_v(dist_b(leaf, v))


@builtin('builtins.issubclass')
def _(self, args, kwargs):
    a, b = args
    if a.op == 'cls' and b.op == 'cls':
        return bool_v(TRUE if a.args[0].subclass_of(b.args[0]) else FALSE)
    b = self.resolve(b)
    if (a.op == 'cls' and b.op == 'seq' and b.args[0] == 'tuple'
            and all(p[0] == 'i' and p[1].b == TRUE and p[2].op == 'cls'
                    for p in b.args[1])):
        return bool_v(TRUE if any(a.args[0].subclass_of(p[2].args[0])
                                  for p in b.args[1]) else FALSE)
    return None


@builtin('builtins.type')
def _(self, args, kwargs):
    if len(args) != 1:
        return None
    return self.type_of(args[0])


@method
def has_attribute(self, v, name):
    return TRUE if (v, name) in self.known else val.hasattr_(v, name)


@builtin('builtins.getattr')
def _(self, args, kwargs):
    v = args[0]
    name = restrict(args[1], self.alive)
    if len(args) == 3:
        default = args[2]
    else:
        default = None
    if is_c(name):
        name = cv(name)
        x = restrict(v, self.alive)
        has = dist_b(lambda y: self.has_attribute(y, name), self.deref(x))
        if default is None:
            self.may_raise('AttributeError', B.not_(has))
            return self.getattr_(v, name)
        return phi([(has, self.getattr_(v, name)),
                    (B.not_(has), default)])
    x, name = self.resolve(restrict(v, self.alive)), self.resolve(name)
    has = dist_b(lambda a, b: B.var(mk('@hasattr', a, b)), x, name)
    r = dist(lambda a, b: mk('getattr', a, b), x, name)
    if default is None:
        self.may_raise('AttributeError', B.not_(has))
        return r
    return phi([(has, r), (B.not_(has), default)])


@builtin('builtins.hasattr')
def _(self, args, kwargs):
    x, name = restrict(args[0], self.alive), restrict(args[1], self.alive)
    if is_c(name):
        return bool_v(dist_b(lambda y: self.has_attribute(y, cv(name)),
                             self.deref(x)))
    return bool_v(dist_b(lambda a, b: B.var(mk('@hasattr', a, b)),
                         self.resolve(x), self.resolve(name)))


@builtin('builtins.setattr')
def _(self, args, kwargs):
    if is_c(args[1]):
        self.setattr_(args[0], cv(args[1]), args[2])
        return NONE
    return None


@builtin('builtins.callable')
def _(self, args, kwargs):
    return None


@builtin('builtins.list', 'builtins.tuple', 'builtins.set',
         'builtins.frozenset', 'builtins.iter', 'collections.deque')
def _(self, args, kwargs):
    return None


def _converter(kind):
    def convert(self, args, kwargs):
        if not args:
            v = mkseq(kind, [])
        else:
            x = self.resolve_shallow(args[0])
            if kind == 'tuple' and x.op != 'phi' and seq_kind(x) == 'tuple':
                return x
            v = mkseq(kind, self.iteration(args[0]))
            if kind == 'tuple':
                x = collapse(v)
                if x is not v and seq_kind(x) == 'tuple':
                    return x
        if kind in ('tuple', 'frozenset'):
            return v
        return self.new_loc(v)

    return convert


for _k in ('list', 'tuple', 'set', 'frozenset'):
    BUILTINS['builtins.' + _k] = _converter(_k)
BUILTINS['collections.deque'] = _converter('list')


@method
def resolve_shallow(self, v):
    return self.deref(v)


@builtin('builtins.iter')
def _(self, args, kwargs):
    if len(args) != 1:
        return None
    return mkseq('list', self.iteration(args[0]))


@builtin('builtins.dict', 'collections.OrderedDict')
def _(self, args, kwargs):
    parts = []
    if args:
        parts = self.dict_parts(args[0])
    for k, v in kwargs.items():
        parts.append(('i', G(TRUE), val.pair(c(k), v)))
    return self.new_loc(mkseq('dict', parts))


@builtin('builtins.dict.fromkeys')
def _(self, args, kwargs):
    value = args[1] if len(args) > 1 else NONE
    parts = []
    for p in self.iteration(args[0]):
        if p[0] == 'i':
            parts.append(('i', p[1], val.pair(p[2], value)))
        else:
            e, g, x = open_(*p[1:])
            if p[0] == 'f':
                return None
            parts.extend(each(e, g.b, val.pair(x, value)))
    return self.new_loc(mkseq('dict', parts))


@builtin('collections.defaultdict')
def _(self, args, kwargs):
    if args and args[0] is ref('builtins.list') and len(args) == 1:
        return self.new_loc(mk('group', ()))
    if args and args[0] is ref('builtins.set') and len(args) == 1:
        return None
    return None


def is_plain(v):
    try:
        val.plain(v)
    except ValueError:
        return False
    return True


@cmethod_later('setdefault')
def _(self, r, cell, args, kwargs):
    """Grouping of values: ``d.setdefault(key, []).append(value)``."""
    if r.op != 'loc' or len(args) != 2 or kwargs:
        return None
    full = self.heap[r]
    default = self.deref(args[1])
    key = self.resolve(restrict(args[0], self.alive))
    if full.op == 'seq' and all(
            p[0] == 'i' and is_plain(val.pair_of(p[2])[0])
            for p in full.args[1]) and all(
                is_plain(x) for _, x in constants(key)):
        cases, saved = [], self.alive
        for g, x in constants(key):
            self.alive = B.and_(saved, g)
            if self.alive != FALSE:
                cases.append((g, self.set_default(r, x, args[1])))
        self.alive = saved
        return phi(cases)
    if default is not mkseq('list', []):
        return None
    if full.op == 'seq' and full.args == ('dict', ()):
        self.heap[r] = full = mk('group', ())
    if full.op != 'group':
        return None
    return self.group_member(self.deref(r), self.resolve(args[0]), r)


@method
def set_default(self, r, key, default):
    cell = self.deref(r)
    present = val.in_(key, cell)
    existing = restrict(val.dict_get(cell, key, NONE),
                        B.and_(self.alive, present))
    saved = self.alive
    self.alive = B.and_(saved, B.not_(present))
    if self.alive != FALSE:
        self.setitem(r, key, default)
    self.alive = saved
    return phi([(present, existing), (B.not_(present), default)])


@builtin('builtins.str')
def _(self, args, kwargs):
    if not args:
        return c('')
    return self.to_text(args[0], '__str__', 'str')


@builtin('builtins.repr')
def _(self, args, kwargs):
    return self.to_text(args[0], '__repr__', 'repr')


@method
def to_text(self, v, magic, kind):
    v = restrict(v, self.alive)

    def leaf(x):
        cell = self.deref(x) if x.op == 'loc' else x
        if cell.op == 'phi':
            return dist(leaf, cell)
        if cell.op == 'new':
            m = cell.args[0].lookup(magic)
            if m is None and magic == '__str__':
                m = cell.args[0].lookup('__repr__')
            if m is not None and m.op == 'func':
                return self.call_value(m, [x], {})
        if cell.op == 'unk':
            return cell
        if kind == 'str':
            if is_c(cell) and isinstance(cv(cell), str):
                return cell
            if files.known(cell):
                return c(str(cv(cell)))
            if seq_kind(cell) == 'str' or typ(cell) == ('ext', 'str'):
                return cell
            if is_c(cell) and isinstance(cv(cell), int):
                return c(str(cv(cell)))
        elif is_c(cell):
            return c(repr(cv(cell)))
        elif cell in (ref('builtins.Ellipsis'),
                      ref('builtins.NotImplemented')):
            return c(cell.args[0].rpartition('.')[2])
        return call(ref('builtins.' + kind), (self.resolve(cell),))

    return dist(leaf, v)


@builtin('builtins.NoneType')
def _(self, args, kwargs):
    return None if args or kwargs else NONE


@builtin('builtins.NotImplementedType')
def _(self, args, kwargs):
    return None if args or kwargs else ref('builtins.NotImplemented')


@builtin('builtins.ellipsis')
def _(self, args, kwargs):
    return None if args or kwargs else ref('builtins.Ellipsis')


@builtin('builtins.hash')
def _(self, args, kwargs):
    x = self.resolve(restrict(args[0], self.alive))

    def leaf(y):
        if y.op == 'new':
            m = y.args[0].lookup('__hash__')
            if m is not None and m.op == 'func':
                return self.call_value(m, [y], {})
        return mk('call', ref('builtins.hash'), (y,), ())

    return dist(leaf, x)


@builtin('builtins.any')
def _(self, args, kwargs):
    return bool_v(self.any_(args[0], lambda x: self.truth(x)))


@builtin('builtins.all')
def _(self, args, kwargs):
    return bool_v(B.not_(self.any_(args[0],
                                   lambda x: B.not_(self.truth(x)))))


@method
def any_(self, v, cond):
    r = FALSE
    for p in self.iteration(v):
        if p[0] == 'i':
            r = B.or_(r, B.and_(p[1].b, cond(p[2])))
        else:
            e, g, x = open_(*p[1:])
            b = cond(x) if p[0] == 'e' else self.any_(x, cond)
            b = self.resolve_guard(b)
            r = B.or_(r, exists(e, B.and_(g.b, b)))
    return r


@builtin('builtins.next')
def _(self, args, kwargs):
    parts = self.iteration(args[0])
    v = mkseq('list', parts)
    found = val.seq_nonempty(v)
    if len(args) == 1:
        self.may_raise('StopIteration', B.not_(found))
        return self.next_value(v)
    if found == FALSE:
        return args[1]
    return phi([(found, self.next_value(v)), (B.not_(found), args[1])])


@method
def next_value(self, v):
    r = at(v, c(0))
    return r


@builtin('builtins.sum')
def _(self, args, kwargs):
    v = mkseq('list', self.iteration(args[0]))
    if len(args) > 1:
        start = self.deref(args[1])
        if start.op == 'seq':
            parts = list(iter_parts(start))
            for p in v.args[1]:
                if p[0] == 'i':
                    parts.extend(val.guard_part(q, p[1].b)
                                 for q in iter_parts(self.deref(p[2])))
                else:
                    e, g, x = open_(*p[1:])
                    if p[0] == 'f':
                        return None
                    parts.extend(val.each_flat(e, g.b, self.resolve(x)))
            return self.allocate_collections(
                mkseq(start.args[0], parts))
        return None
    r = c(0)
    for p in v.args[1]:
        if p[0] == 'i':
            x = p[2]
            for g, y in leaves(x):
                b = B.and_(p[1].b, g)
                if is_c(y) and isinstance(cv(y), (int, bool)):
                    r = val.add(r, phi([(b, c(int(cv(y)))),
                                        (B.not_(b), c(0))]))
                else:
                    return None
        elif p[0] == 'e':
            e, g, x = open_(*p[1:])
            for g2, y in leaves(x):
                if is_c(y) and isinstance(cv(y), (int, bool)):
                    n = int(cv(y))
                    if n:
                        r = val.add(r, val.count_of(e, B.and_(g.b, g2)), n)
                else:
                    return None
        else:
            return None
    return r


@builtin('builtins.map')
def _(self, args, kwargs):
    f = args[0]
    if len(args) == 2:
        return self.map_over(args[1], lambda x: self.apply(f, [x]))
    zipped = self.zip_([a for a in args[1:]])
    if zipped is None:
        return None
    n = len(args) - 1
    return self.map_over(zipped, lambda x: self.apply(
        f, val.static_items(x) or [at(x, c(i)) for i in range(n)]))


@method
def apply(self, f, args):
    return self.call_value(f, args, {})


@method
def map_over(self, source, f):
    """Sequence of results of the function."""
    out = self.new_loc(mkseq('list', []))
    current = []
    loop = Loop()
    self.loops.append(loop)
    try:
        self.iterate(self.iteration(source), lambda v: current.append(v),
                     lambda: self.append_part(out, f(current[-1])), loop)
    finally:
        self.loops.pop()
    return out


@builtin('builtins.filter')
def _(self, args, kwargs):
    f, source = args
    out = self.new_loc(mkseq('list', []))
    current = []
    loop = Loop()
    self.loops.append(loop)

    def body():
        x = current[-1]
        b = self.truth(x if f is NONE else self.apply(f, [x]))
        s = self.alive
        self.alive = B.and_(s, b)
        if self.alive != FALSE:
            self.append_part(out, x)
        self.alive = s

    try:
        self.iterate(self.iteration(source), lambda v: current.append(v),
                     body, loop)
    finally:
        self.loops.pop()
    return out


@builtin('itertools.filterfalse')
def _(self, args, kwargs):
    f, source = args
    return BUILTINS['builtins.filter'](
        self, [mk('negation', f), source], kwargs)


@builtin('itertools.takewhile')
def _(self, args, kwargs):
    f, source = args
    out = self.new_loc(mkseq('list', []))
    current = []
    loop = Loop()
    self.loops.append(loop)

    def body():
        x = current[-1]
        b = self.truth(self.apply(f, [x]))
        loop.breaks.append((B.and_(self.alive, B.not_(b)), NONE))
        self.alive = B.and_(self.alive, b)
        if self.alive != FALSE:
            self.append_part(out, x)

    try:
        self.iterate(self.iteration(source), lambda v: current.append(v),
                     body, loop)
    finally:
        self.loops.pop()
    for g, _ in loop.breaks:
        self.alive = B.or_(self.alive, g)
    return out


@builtin('itertools.dropwhile')
def _(self, args, kwargs):
    return None


@builtin('itertools.chain')
def _(self, args, kwargs):
    if any(a.op == 'splat' for a in args):
        if len(args) == 1:
            return BUILTINS['itertools.chain.from_iterable'](
                self, [args[0].args[0]], kwargs)
        return None
    parts = []
    for a in args:
        parts.extend(self.iteration(a))
    return mkseq('list', parts)


@builtin('itertools.chain.from_iterable')
def _(self, args, kwargs):
    out = self.new_loc(mkseq('list', []))
    current = []
    loop = Loop()
    self.loops.append(loop)
    try:
        self.iterate(self.iteration(args[0]),
                     lambda v: current.append(v),
                     lambda: self.extend(out, current[-1]), loop)
    finally:
        self.loops.pop()
    return out


@builtin('builtins.reversed')
def _(self, args, kwargs):
    return self.reversed_(self.deref(args[0]))


@builtin('builtins.sorted')
def _(self, args, kwargs):
    v = mkseq('list', [self.resolve_part(p)
                       for p in self.iteration(args[0])])
    if not kwargs:
        definite = definite_order(v) if v.op == 'seq' else None
        if definite is not None:
            return self.new_loc(definite)
        return self.new_loc(mkseq('list', iter_parts(
            call(ref('builtins.sorted'), (as_set(v),)))))
    return None


def definite_order(v):
    """Sorted list of known constants."""
    try:
        items = [(constant(p[2]), p[2]) for p in v.args[1]
                 if p[0] == 'i' and p[1].b == TRUE or constant(None)]
        items.sort(key=lambda x: x[0])
    except (TypeError, ValueError):
        return None
    return mkseq('list', [('i', G(TRUE), x) for _, x in items])


def constant(v):
    """Value of the constant, ValueError if it is not."""
    if v is not None and is_c(v):
        return cv(v)
    if v is not None and v.op == 'seq' and v.args[0] == 'tuple':
        return tuple([constant(p[2] if p[0] == 'i' and p[1].b == TRUE
                               else None) for p in v.args[1]])
    raise ValueError(v)


def as_set(v):
    """Order of elements is irrelevant."""
    return mkseq('bag', v.args[1]) if v.op == 'seq' else v


@builtin('builtins.enumerate')
def _(self, args, kwargs):
    start = args[1] if len(args) > 1 else kwargs.get('start', c(0))
    parts, base = [], start
    for p in self.iteration(args[0]):
        if p[0] == 'i':
            parts.append(('i', p[1], mkseq('tuple', [
                ('i', G(TRUE), base), ('i', G(TRUE), p[2])])))
            base = val.add(base, phi([(p[1].b, c(1)),
                                      (B.not_(p[1].b), c(0))]))
        elif p[0] == 'e':
            e, g, x = open_(*p[1:])
            e2 = elem(e.args[0])
            rank = val.rank_of(e, e2, subst_guard(g.b, {e: e2}))
            parts.extend(each(e, g.b, seq('tuple', [val.add(base, rank),
                                                    x])))
            base = val.add(base, val.count_of(e, g.b))
        else:
            return None
    return mkseq('list', parts)


@builtin('builtins.range')
def _(self, args, kwargs):
    if len(args) == 1:
        # range(len(xs))
        n = restrict(args[0], self.alive)
        if n.op == 'count' and n.args[2].b == TRUE:
            e = elem(n.args[0])
            return mkseq('list', each(e, TRUE, val.index_of(e)))
        if is_c(n) and isinstance(cv(n), int) and cv(n) < 8:
            return seq('list', [c(i) for i in range(cv(n))])
        return mk('rangev', c(0), self.resolve(n), c(1))
    if all(is_c(a) for a in args):
        r = range(*[cv(a) for a in args])
        if len(r) < 8:
            return seq('list', [c(i) for i in r])
    args = [self.resolve(a) for a in args]
    if len(args) == 2:
        if args[1].op == 'count' and args[1].args[2].b == TRUE and is_c(
                args[0]):
            e = elem(args[1].args[0])
            i = val.index_of(e)
            return mkseq('list', each(e, B.not_(lt(i, args[0])), i))
        return mk('rangev', args[0], args[1], c(1))
    return mk('rangev', *args)


@builtin('builtins.zip')
def _(self, args, kwargs):
    if any(a.op == 'splat' for a in args):
        return None
    return self.zip_(args)


@method
def zip_(self, sources):
    """Tuples of elements at the same positions."""
    constant = [repeated(a) for a in sources]
    if any(x is not None for x in constant):
        if all(x is not None for x in constant):
            return None
        zipped = self.zip_([a for a, x in zip(sources, constant)
                            if x is None])

        def placed(x):
            found = iter(val.static_items(x)
                         or [at(x, c(i)) for i in range(
                             len(sources))])
            return seq('tuple', [next(found) if k is None else k
                                 for k in constant])

        return zipped and self.map_over(zipped, placed)
    seqs = [mkseq('list', self.iteration(a)) for a in sources]
    if all(val.static_items(s) is not None for s in seqs):
        return mkseq('list', [('i', G(TRUE), seq('tuple', list(xs)))
                              for xs in zip(*[val.static_items(s)
                                              for s in seqs])])
    known = [val.static_items(s) for s in seqs]
    if any(x is not None for x in known):
        n = min(len(x) for x in known if x is not None)
        lengths = [val.length(s) for s, x in zip(seqs, known) if x is None]
        parts = []
        for i in range(n):
            g = TRUE
            for k in lengths:
                g = B.and_(g, lt(c(i), k))
            parts.append(('i', G(g), seq('tuple', [
                at(s, c(i)) if x is None else x[i]
                for s, x in zip(seqs, known)])))
        return mkseq('list', parts)
    parts = [s.args[1] for s in seqs]
    if all(len(p) == 1 and p[0][0] == 'e' for p in parts):
        first = parts[0][0]
        e, g, x = open_(*first[1:])
        src = e.args[0]
        xs, guard = [x], g.b
        for p in parts[1:]:
            q = p[0]
            if q[1] is src:
                e2, g2, x2 = open_(*q[1:])
                if subst_guard(g2.b, {e2: e}) == g.b:
                    xs.append(subst(x2, {e2: e}))
                    continue
            other = mkseq('list', [q])
            e3 = elem(src)
            rank = val.rank_of(e, e3, subst_guard(g.b, {e: e3}))
            guard = B.and_(guard, lt(rank, length(other)))
            xs.append(at(collapse(other) if seq_kind(collapse(other))
                         else other, rank))
        return mkseq('list', each(e, guard, seq('tuple', xs)))
    return call(ref('builtins.zip'),
                tuple([self.resolve(s) for s in seqs]))


def repeated(v):
    """What is repeated endlessly."""
    if v.op == 'call' and v.args[0] is ref('itertools.repeat') and len(
            v.args[1]) == 1 and not v.args[2]:
        return v.args[1][0]
    return None


@builtin('itertools.repeat')
def _(self, args, kwargs):
    if kwargs or len(args) != 2 or not is_c(args[1]):
        return None
    return seq('list', [args[0]] * max(cv(args[1]), 0))


@builtin('itertools.starmap')
def _(self, args, kwargs):
    f, source = args

    def call_with(x):
        items = val.static_items(self.deref(x))
        return (self.call_value(f, [mk('splat', x)], {}) if items is None
                else self.call_value(f, items, {}))

    return self.map_over(source, call_with)


@builtin('functools.partial')
def _(self, args, kwargs):
    if args[0].op in ('func', 'dispatch', 'bm', 'ref', 'cls'):
        return mk('partialv', args[0], tuple(args[1:]),
                  tuple(sorted(kwargs.items())))
    return None


@builtin('functools.reduce')
def _(self, args, kwargs):
    f, source = args[0], args[1]
    if len(args) < 3:
        return None
    acc_name = '%acc'
    saved = self.frame
    self.frame = Frame('comp', saved, saved.module, self.alive, saved.cls)
    self.frame.vars[acc_name] = args[2]
    current = []
    loop = Loop()
    self.loops.append(loop)
    try:
        def body():
            r = self.apply(f, [self.frame.vars[acc_name], current[-1]])
            self.frame.vars[acc_name] = self.gate(
                self.frame.entry, r, self.frame.vars[acc_name])

        self.iterate(self.iteration(source), lambda v: current.append(v),
                     body, loop)
        return self.frame.vars[acc_name]
    finally:
        self.loops.pop()
        self.frame = saved


@builtin('functools.singledispatch')
def _(self, args, kwargs):
    return self.decorate(ref('functools.singledispatch'), args[0])


@builtin('typing.cast')
def _(self, args, kwargs):
    return args[1]


@builtin('builtins.max')
def _(self, args, kwargs):
    return extreme(self, args, kwargs, -1)


@builtin('builtins.min')
def _(self, args, kwargs):
    return extreme(self, args, kwargs, 1)


def constants(v):
    """Alternatives of a value, those of its items included."""
    result = []
    for g, x in leaves(v):
        items = (val.static_items(x)
                 if x.op == 'seq' and x.args[0] == 'tuple' else None)
        cases = [(g, ())] if items is not None else [(g, x)]
        for item in items or ():
            cases = [(B.and_(g1, g2), (*done, y))
                     for g1, done in cases for g2, y in constants(item)
                     if B.and_(g1, g2) != FALSE]
        result.extend((g1, seq('tuple', list(y)) if items is not None else y)
                      for g1, y in cases)
    return result


def extreme(self, args, kwargs, sign):
    """Greatest or least of constants that may be present."""
    if set(kwargs) - {'default'}:
        return None
    parts = (self.iteration(args[0]) if len(args) == 1
             else [('i', G(TRUE), self.resolve(a)) for a in args])
    choices = []
    for p in parts:
        if p[0] != 'i':
            return None
        for g, x in constants(p[2]):
            g = B.and_(p[1].b, g)
            if g != FALSE:
                choices.append((g, x))
    try:
        choices.sort(key=lambda p: val.plain(p[1]), reverse=sign < 0)
    except (TypeError, ValueError):
        return None
    rest = TRUE
    result = []
    for g, x in choices:
        result.append((B.and_(rest, g), x))
        rest = B.and_(rest, B.not_(g))
    if rest != FALSE:
        if 'default' not in kwargs:
            self.may_raise('ValueError', rest)
        else:
            result.append((rest, kwargs['default']))
    return phi(result)


@builtin('itertools.zip_longest')
def _(self, args, kwargs):
    items = [val.static_items(mkseq('list', self.iteration(a)))
             for a in args]
    if any(x is None for x in items) or set(kwargs) - {'fillvalue'}:
        return None
    from itertools import zip_longest
    return mkseq('list', [('i', G(TRUE), seq('tuple', list(xs)))
                          for xs in zip_longest(*items,
                                                fillvalue=kwargs.get(
                                                    'fillvalue', NONE))])


@builtin('builtins.vars')
def _(self, args, kwargs):
    return None


@builtin('typing.NewType')
def _(self, args, kwargs):
    return ref('sa.identity')


@builtin('sa.identity')
def _(self, args, kwargs):
    return args[0]


@builtin('builtins.print')
def _(self, args, kwargs):
    return NONE


@builtin('sys.version_info')
def _(self, args, kwargs):
    return None


# --- methods of collections and strings

@method
def call_method(self, receiver, name, args, kwargs, kwstars):
    h = METHODS.get(name)
    if receiver.op == 'loc':
        cell = self.deref(receiver)
        if cell.op == 'phi':
            cell = next((x for _, x in leaves(cell) if x.op == 'seq'),
                        cell)
    else:
        cell = receiver
    if h is not None and not kwstars and not any(a.op == 'splat'
                                                 for a in args):
        self.method_name = name
        r = h(self, receiver, cell, args, kwargs)
        if r is not None:
            return r
    if receiver.op == 'loc' and name not in PURE:
        self.write_cell(receiver, unk(f'method {name} of a collection'))
        return unk(f'method {name} of a collection')
    if name in MUTATING and not (
            receiver.op == 'seq'
            and receiver.args[0] not in ('list', 'dict', 'set')):
        # the identity of the collection has been lost
        self.effect('mutate', receiver, name)
    return self.opaque_call(mk('attr', self.resolve(receiver), name), args,
                            kwargs, kwstars)


MUTATING = {'append', 'extend', 'insert', 'add', 'update', 'discard', 'remove',
            'pop', 'popleft', 'appendleft', 'clear', 'sort', 'reverse',
            'setdefault', 'popitem', 'difference_update',
            'intersection_update', 'symmetric_difference_update', '__setitem__',
            '__delitem__'}
PURE = {'copy', 'keys', 'values', 'items', 'get', 'index', 'count',
        'isdisjoint', 'issubset', 'issuperset', 'union', 'difference',
        'intersection'}
METHODS = {}


def cmethod(*names):
    def decorator(g):
        for n in names:
            METHODS[n] = g
        return g

    return decorator


def is_map(cell):
    if cell.op == 'seq':
        return cell.args[0] == 'dict'
    t = typ(cell)
    return t is not None and t[0] == 'map' or cell.op == 'group'


@cmethod('append', 'appendleft')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc':
        return None
    self.append_part(r, args[0])
    return NONE


METHODS.pop('appendleft')


@cmethod('add')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq' or cell.args[0] != 'set':
        return None
    self.append_part(r, args[0])
    return NONE


@cmethod('extend')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc':
        return None
    self.extend(r, args[0])
    return NONE


@cmethod('insert')
def _(self, r, cell, args, kwargs):
    if r.op == 'loc' and cell.op == 'seq' and args[0] is c(0):
        self.write_cell(r, mkseq('list', [('i', G(TRUE), args[1])]
                                 + list(cell.args[1])))
        return NONE
    return None


@cmethod('update')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq':
        return None
    if cell.args[0] == 'dict':
        g = val.constrain(self.alive, self.alloc.get(r, TRUE))
        parts = []
        for a in args:
            parts.extend(self.dict_parts(a))
        for k, v in kwargs.items():
            parts.append(('i', G(TRUE), val.pair(c(k), v)))
        full = self.heap[r]
        if full.op == 'seq':
            self.heap[r] = mkseq('dict', list(full.args[1]) + [
                val.guard_part(p, g) for p in parts])
            return NONE
        return None
    for a in args:
        self.extend(r, a)
    return NONE


@cmethod('discard', 'remove')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq':
        return None
    if cell.args[0] == 'list':
        return None
    x = self.resolve(args[0])
    self.write_cell(r, filter_by(cell, lambda y: B.not_(eq(x, y))))
    return NONE


def _remove(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq' or cell.args[0] == 'list':
        return None
    self.may_raise('KeyError', B.not_(in_(self.resolve(args[0]), cell)))
    return METHODS['discard'](self, r, cell, args, kwargs)


METHODS['remove'] = _remove


@cmethod('difference_update')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or set_kind(cell) is None:
        return None
    new = cell
    for a in args:
        other = self.resolve(self.deref(a))
        new = set_difference(new, unkeys(other))
    self.write_cell(r, new)
    return NONE


@cmethod('intersection_update')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or set_kind(cell) is None:
        return None
    other = unkeys(self.resolve(self.deref(args[0])))
    self.write_cell(r, filter_by(cell, lambda x: in_(x, other)))
    return NONE


def unkeys(v):
    return v.args[0] if v.op == 'keys' else v


@cmethod('difference', 'intersection', 'union', 'isdisjoint', 'issubset',
         'issuperset', 'copy')
def _(self, r, cell, args, kwargs):
    return None


def _setop(f):
    def go(self, r, cell, args, kwargs):
        if set_kind(cell) is None:
            return None
        others = [unkeys(self.resolve(self.deref(a))) for a in args]
        return f(self, self.resolve(unkeys(cell) if cell.op == 'keys'
                                    else cell), others)

    return go


def _fold(self, a, others, f):
    for o in others:
        a = f(a, o)
    return self.new_loc(a)


METHODS['difference'] = _setop(
    lambda self, a, os: _fold(self, a, os, set_difference))
METHODS['intersection'] = _setop(
    lambda self, a, os: _fold(self, a, os, lambda x, o: filter_by(
        x, lambda y: in_(y, o))))
METHODS['union'] = _setop(
    lambda self, a, os: self.new_loc(mkseq('set', sum(
        [list(iter_parts(o)) for o in os], list(iter_parts(a))))))
METHODS['isdisjoint'] = _setop(
    lambda self, a, os: bool_v(B.not_(val.seq_nonempty(filter_by(
        a, lambda y: in_(y, os[0]))))))
METHODS['issubset'] = _setop(
    lambda self, a, os: bool_v(B.not_(val.seq_nonempty(
        set_difference(a, os[0])))))
METHODS['issuperset'] = _setop(
    lambda self, a, os: bool_v(B.not_(val.seq_nonempty(
        set_difference(os[0], a)))))


@cmethod('copy')
def _(self, r, cell, args, kwargs):
    if cell.op == 'seq':
        return self.new_loc(cell)
    if is_map(cell):
        return self.new_loc(mkseq('dict', self.dict_parts(cell)))
    return None


@cmethod('clear')
def _(self, r, cell, args, kwargs):
    if r.op == 'loc' and cell.op == 'seq':
        self.write_cell(r, mkseq(cell.args[0], []))
        return NONE
    return None


@cmethod('pop')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq':
        return None
    if cell.args[0] == 'dict' and args:
        key = self.resolve(args[0])
        present = in_(key, cell)
        if len(args) == 1:
            self.may_raise('KeyError', B.not_(present))
            v = val.dict_get(cell, key, None)
        else:
            v = val.dict_get(cell, key, args[1])
        self.write_cell(r, dict_without(cell, key))
        return v
    if cell.args[0] == 'list':
        i = args[0] if args else c(-1)
        if i is c(-1):
            v = at(cell, c(-1))
            self.write_cell(r, val.slice_(cell, None, c(-1)))
            return v
        if i is c(0):
            v = at(cell, c(0))
            self.write_cell(r, val.slice_(cell, c(1), None))
            return v
    if cell.args[0] == 'set' and not args:
        n = val.length(cell)
        if B.and_(self.alive, B.not_(eq(n, c(1)))) == FALSE:
            self.write_cell(r, mkseq('set', []))
            return self.only_item(cell)
    return None


@cmethod('popleft')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq' or cell.args[0] != 'list':
        return None
    v = at(cell, c(0))
    self.write_cell(r, val.slice_(cell, c(1), None))
    return v


@cmethod('appendleft')
def _(self, r, cell, args, kwargs):
    if r.op != 'loc' or cell.op != 'seq' or cell.args[0] != 'list':
        return None
    self.write_cell(r, mkseq('list', [('i', G(TRUE), args[0])]
                             + list(cell.args[1])))
    return NONE


@cmethod('sort', 'reverse')
def _(self, r, cell, args, kwargs):
    if (r.op != 'loc' or cell.op != 'seq' or cell.args[0] != 'list'
            or args or kwargs):
        return None
    if self.method_name == 'reverse':
        v = self.reversed_(cell)
    else:
        v = self.deref(self.call_value(ref('builtins.sorted'), [cell], {},
                                       []))
    self.write_cell(r, mkseq('list', iter_parts(v)))
    return NONE


@cmethod('get')
def _(self, r, cell, args, kwargs):
    key = self.resolve(restrict(args[0], self.alive))
    default = args[1] if len(args) > 1 else NONE
    if cell.op == 'seq' and cell.args[0] == 'dict':
        return val.dict_get(cell, key, default)
    if is_map(cell):
        return dist(lambda x, k: phi([
            (in_(k, x), val.getitem(x, k)),
            (B.not_(in_(k, x)), default)]), cell, key)
    return None


@cmethod('setdefault')
def _(self, r, cell, args, kwargs):
    return None


@cmethod('keys')
def _(self, r, cell, args, kwargs):
    cell = self.resolve(cell)
    if cell.op == 'seq' and cell.args[0] == 'dict':
        return mkseq('set', iter_parts(cell)) if False else mk_keys(cell)
    if is_map(cell):
        return mk_keys(cell)
    return None


def mk_keys(cell):
    """Keys are a set-like collection in the order of insertion."""
    return mkseq('frozenset', iter_parts(cell))


@cmethod('values')
def _(self, r, cell, args, kwargs):
    if not is_map(cell) or cell.op == 'group':
        return None
    return mkseq('list', [map_part(p, lambda kv: kv[1])
                          for p in self.dict_parts(cell)])


@cmethod('items')
def _(self, r, cell, args, kwargs):
    if not is_map(cell) or cell.op == 'group':
        return None
    return mkseq('list', self.dict_parts(cell))


def map_part(p, f):
    if p[0] == 'i':
        return ('i', p[1], f(val.pair_of(p[2])))
    e, g, x = open_(*p[1:])
    if p[0] == 'f':
        return ('i', G(TRUE), unk('items of a flattened mapping'))
    r = each(e, g.b, f(val.pair_of(x)))
    return r[0] if len(r) == 1 else ('i', G(TRUE), unk('mapping'))


@cmethod('index', 'count')
def _(self, r, cell, args, kwargs):
    return None


@cmethod('join')
def _(self, r, cell, args, kwargs):
    if not (is_c(cell) and isinstance(cv(cell), str)):
        if seq_kind(cell) != 'str':
            return None
    v = mkseq('list', [self.resolve_part(p)
                       for p in self.iteration(args[0])])
    return join(cell, v)


def join(sep, v):
    parts = v.args[1]
    if is_c(sep) and cv(sep) == '' and all(p[0] == 'i' for p in parts):
        return mkseq('str', parts)
    if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
        r = []
        for i, p in enumerate(parts):
            if i:
                r.append(('i', G(TRUE), sep))
            r.append(p)
        return mkseq('str', r)
    return mkseq('str', [('i', G(TRUE), mk('join', sep, v))])


@val.rebuilder('join')
def _(sep, v):
    if v.op != 'seq':
        return mk('join', sep, v)
    r = join(sep, v)
    return r


@cmethod('lower', 'upper', 'strip', 'title', 'replace', 'startswith',
         'endswith', 'isidentifier', 'split', 'rsplit', 'partition',
         'rpartition', 'isupper', 'islower', 'lstrip', 'rstrip',
         'removeprefix', 'removesuffix')
def _(self, r, cell, args, kwargs):
    if is_c(cell) and isinstance(cv(cell), str):
        name = self.method_name
        try:
            x = getattr(cv(cell), name)(
                *[val.plain(self.resolve(a)) for a in args],
                **{k: val.plain(self.resolve(a)) for k, a in kwargs.items()})
        except Exception:
            return None
        if isinstance(x, list):
            return self.new_loc(seq('list', [c(y) for y in x]))
        if isinstance(x, tuple):
            return seq('tuple', [c(y) for y in x])
        return c(x)
    return None


@cmethod('format')
def _(self, r, cell, args, kwargs):
    if not is_c(cell):
        return None
    import string
    parts = []
    auto = 0
    for text, field, spec, conv in string.Formatter().parse(cv(cell)):
        if text:
            parts.append(('i', G(TRUE), c(text)))
        if field is None:
            continue
        if spec or any(ch in field for ch in '.['):
            return None
        if field == '':
            x = args[auto]
            auto += 1
        elif field.isdigit():
            x = args[int(field)]
        elif field in kwargs:
            x = kwargs[field]
        else:
            return None
        x = self.to_text(x, '__repr__' if conv == 'r' else '__str__',
                         'repr' if conv == 'r' else 'str')
        parts.append(('i', G(TRUE), x))
    return mkseq('str', parts)


@method
def call_attr(self, f, args, kwargs, kwstars):
    """Call of an attribute of something opaque."""
    base, name = f.args
    if base.op == 'ref' or base.op == 'cls':
        return self.opaque_call(f, args, kwargs, kwstars)
    if not kwstars:
        r = files.method(base, name, [self.resolve(x) for x in args], kwargs)
        if r is not None:
            return r
    r = made = self.opaque_call(f, args, kwargs, kwstars)
    assumed = self.config.results.get('.' + name)
    if assumed is not None:
        r = assumed(self, [base, *args], r)
    for exc in self.config.may_raise.get('.' + name, ()):
        b = dist_b(lambda x: B.var(mk('@raises', exc, x)), made)
        self.raise_(B.and_(self.alive, b), exc)
    return r


files.install(BUILTINS)
METHODS.update(_later)
