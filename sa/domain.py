"""Types of values and theories of the collections of the program."""
from . import val
from .val import (ABSENT, B, FALSE, G, NONE, TRUE, V, c, cv, dist, dist_b,
                  elem, eq, exists, fv, hooks, in_, is_, is_c, isinst, leaves,
                  mk, open_, phi, ref, subst, subst_guard, typ, unk)

INTERP = None
PARAMETERS = None       # theory of parameters of plain signatures


def install(interp):
    global INTERP, PARAMETERS
    INTERP = interp
    PARAMETERS = None
    hooks.typ = typ_
    hooks.attr = attr_
    hooks.isinstance_ = isinstance_
    hooks.theory = theory
    hooks.always_true = always_true
    hooks.same_refs = same_refs
    hooks.is_rule = is_rule
    hooks.eq_rule = eq_rule
    hooks.hasattr_ = hasattr_
    hooks.fin_rule = fin_rule
    _types.clear()


# --- types

_types = {}

CALL_TYPES = {
    'builtins.len': ('ext', 'int'), 'builtins.id': ('ext', 'int'),
    'builtins.hash': ('ext', 'int'),
    'builtins.str': ('ext', 'str'), 'builtins.repr': ('ext', 'str'),
    'builtins.isinstance': ('ext', 'bool'),
    'builtins.tuple': ('seq', None, 'tuple'),
    'builtins.list': ('seq', None, 'list'),
    'builtins.dir': ('seq', ('ext', 'str'), 'list'),
    'builtins.set': ('set', None),
    'ast.unparse': ('ext', 'str'),
    'builtins.vars': ('map', ('ext', 'str'), None),
}


def typ_(v):
    if v in _types:
        return _types[v]
    _types[v] = None
    t = _typ(v)
    if v.op != 'loc':
        _types[v] = t
    else:
        del _types[v]
    return t


def element_type(t):
    if t is None:
        return None
    if t[0] == 'seq':
        return t[1]
    if t[0] in ('set', 'map'):
        return t[1]
    return None


def _typ(v):
    op, args = v.op, v.args
    if op == 'sym':
        return args[1]
    if op in ('elem', 'sel', 'lastsel'):
        return element_type(typ_(args[0]))
    if op == 'prev':
        return typ_(args[0])
    if op == 'at':
        return element_type(typ_(args[0]))
    if op == 'getitem':
        t = typ_(args[0])
        if t is not None and t[0] == 'map':
            return t[2]
        return element_type(t) if t is not None and t[0] == 'seq' else None
    if op == 'slice':
        return typ_(args[0])
    if op == 'attr':
        return attribute_type(typ_(args[0]), args[1])
    if op == 'member':
        return ('enum', args[0])
    if op == 'new':
        return ('cls', args[0])
    if op == 'c':
        if args[0] in ('str', 'int', 'bool', 'bytes'):
            return ('ext', args[0])
        return None
    if op == 'lin':
        return ('ext', 'int')
    if op == 'seq':
        kind, parts = args
        if kind == 'str':
            return ('ext', 'str')
        if kind == 'dict':
            return ('map', None, None)
        ts = set()
        for p in parts:
            if p[0] == 'f':
                ts.add(None)
            elif p[0] == 'e' and p[4].op == 'bv':
                ts.add(element_type(typ_(p[1])))
            else:
                ts.add(typ_(p[2] if p[0] == 'i' else p[4]))
        t = ts.pop() if len(ts) == 1 else None
        if kind in ('set', 'frozenset'):
            return ('set', t)
        return ('seq', t, kind)
    if op == 'phi':
        ts = {typ_(x) for _, x in leaves(v)}
        return ts.pop() if len(ts) == 1 else None
    if op == 'call':
        f = args[0]
        if f.op == 'ref':
            return CALL_TYPES.get(f.args[0])
        if f.op in ('func', 'dispatch'):
            return result_type(f)
        if f.op == 'cls':
            return ('cls', f.args[0])
        if f.op == 'attr' and typ_(f.args[0]) == ('ext', 'str'):
            return STR_METHODS.get(f.args[1])
        if f.op == 'bmethod' and typ_(f.args[0]) == ('ext', 'str'):
            return STR_METHODS.get(f.args[1])
        if f.op == 'bm':
            return result_type(f.args[0])
    return None


STR_METHODS = {
    'split': ('seq', ('ext', 'str'), 'list'),
    'rsplit': ('seq', ('ext', 'str'), 'list'),
    'partition': ('seq', ('ext', 'str'), 'tuple'),
    'rpartition': ('seq', ('ext', 'str'), 'tuple'),
    'join': ('ext', 'str'), 'strip': ('ext', 'str'),
    'replace': ('ext', 'str'), 'lower': ('ext', 'str'),
    'startswith': ('ext', 'bool'), 'endswith': ('ext', 'bool'),
    'isidentifier': ('ext', 'bool'),
}


def result_type(f):
    info = f.args[0].func.args[0] if f.op == 'dispatch' else f.args[0]
    returns = getattr(info.node, 'returns', None)
    if returns is None:
        return None
    t = INTERP.annotation_type(returns, info.module)
    return t


def attribute_type(t, name):
    if t is None:
        return None
    if t[0] == 'cls':
        ks = (t[1],)
    elif t[0] == 'union':
        ks = t[1]
    elif t[0] == 'object':
        return dict(t[1]).get(name)
    else:
        return None
    ts = []
    for k in ks:
        owner, a = k.field_annotation(name)
        if a is not None:
            ts.append(INTERP.annotation_type(a, owner.module))
    if ts and all(x == ts[0] for x in ts):
        return ts[0]
    return None


def always_true(t):
    ks = t[1] if t[0] == 'union' else (t[1],)
    for k in ks:
        if k.lookup('__bool__') is not None or k.lookup(
                '__len__') is not None:
            return False
        for b in k.external_bases():
            if b.op == 'ref' and b.args[0] not in (
                    'abc.ABC', 'typing.Protocol', 'typing.Generic'):
                return False
    return True


def attr_(v, name):
    """Attribute of a rebuilt node, properties being resolved."""
    t = typ_(v)
    if t is None or t[0] not in ('cls', 'union'):
        return None
    ks = t[1] if t[0] == 'union' else (t[1],)
    if any(k.lookup(name) is not None and k.lookup(name).op == 'property'
           for k in ks):
        saved = INTERP.alive
        INTERP.alive = TRUE
        try:
            return INTERP.getattr_(v, name)
        finally:
            INTERP.alive = saved
    return None


# --- instances

def leaf_classes(k):
    """Concrete classes of the (closed) hierarchy."""
    if not k.subclasses:
        return [k]
    result = []
    for s in k.subclasses:
        result.extend(x for x in leaf_classes(s) if x not in result)
    if not is_abstract(k):
        result.insert(0, k)
    return result


def is_abstract(k):
    for x in k.mro():
        for f in x.ns.values():
            pass
    import ast
    for s in ast.walk(k.node):
        if isinstance(s, ast.Name) and s.id == 'abstractmethod':
            return True
        if isinstance(s, ast.Attribute) and s.attr == 'abstractmethod':
            return True
    return False


def root_class(k):
    while True:
        bases = [b.args[0] for b in k.bases if b.op == 'cls']
        if len(bases) != 1:
            return k
        k = bases[0]


def isinstance_(v, cls):
    if cls.op == 'ref':
        return isinstance_ref(v, cls)
    if cls.op != 'cls':
        return None
    k = cls.args[0]
    if v.op == 'new':
        return TRUE if v.args[0].subclass_of(k) else FALSE
    if v.op == 'member':
        return TRUE if v.args[0].subclass_of(k) else FALSE
    if v.op in ('c', 'seq', 'func', 'cls', 'lin'):
        return FALSE
    if v.op == 'ref' and v.args[0].startswith('builtins.'):
        return FALSE
    t = typ_(v)
    if t is not None:
        if t[0] == 'enum':
            return TRUE if t[1].subclass_of(k) else FALSE
        if t[0] in ('seq', 'map', 'set', 'ext'):
            return FALSE
    family = leaf_classes(root_class(k))
    wanted = [x for x in family if x.subclass_of(k)]
    if t is not None and t[0] in ('cls', 'union'):
        possible = []
        for x in (t[1] if t[0] == 'union' else (t[1],)):
            for y in leaf_classes(x):
                if y not in possible:
                    possible.append(y)
        total = True
        if any(p not in family for p in possible):
            outside = [p for p in possible if p not in family]
            if not any(p in wanted for p in possible):
                return FALSE
            if outside:
                return None
    else:
        possible, total = family, False
    if k.members is not None or len(family) > 12:
        return None
    wanted = [x for x in wanted if x in possible]
    if not wanted:
        return FALSE
    if total and all(p in wanted for p in possible):
        return TRUE
    possible = sorted(possible, key=lambda x: x.qualname)
    # chain encoding over the classes of the hierarchy
    result, rest = FALSE, TRUE
    for i, x in enumerate(possible):
        if total and i == len(possible) - 1:
            b = rest
        else:
            a = B.var(mk('@isinst', v, mk('cls', x)))
            b = B.and_(rest, a)
            rest = B.and_(rest, B.not_(a))
        if x in wanted:
            result = B.or_(result, b)
    return result


PY_TYPES = {'builtins.' + n for n in ('str', 'int', 'bool', 'tuple', 'list',
                                      'dict', 'set', 'type', 'bytes')}


def isinstance_ref(v, cls):
    name = cls.args[0]
    if name == 'builtins.object':
        return TRUE
    if is_c(v) and name in PY_TYPES:
        import builtins
        return TRUE if isinstance(cv(v), getattr(
            builtins, name[9:])) else FALSE
    if v.op == 'ref' and v.args[0].startswith('builtins.'):
        # things everyone knows
        import builtins
        from .calls import ext_class
        known = getattr(builtins, v.args[0][9:], None)
        class_ = ext_class(name)
        if known is not None and class_ is not None:
            return TRUE if isinstance(known, class_) else FALSE
    t = typ_(v)
    if t is not None and t[0] == 'ext' and 'builtins.' + t[1] == name:
        return TRUE
    if t is not None and t[0] == 'ext' and t[1] == name:
        return TRUE
    if t is not None and t[0] == 'ext' and '.' not in t[1] and (
            name in PY_TYPES and (t[1], name) != ('bool', 'builtins.int')):
        return FALSE
    if t is not None and t[0] in ('cls', 'union') and name in PY_TYPES and (
            t[0] == 'union' or not t[1].external_bases()):
        return FALSE
    if v.op in ('cls',) and name == 'builtins.type':
        return TRUE
    if v.op == 'seq' and name in PY_TYPES:
        return TRUE if name == 'builtins.' + v.args[0] else FALSE
    if v.op == 'new' and name in PY_TYPES and not v.args[0].external_bases():
        return FALSE
    return None


def same_refs(a, b):
    return TRUE if a is b else FALSE


def is_rule(a, b):
    for x, y in ((a, b), (b, a)):
        # class of an object
        if (x.op == 'cls' and y.op == 'call' and y.args[0] is ref(
                'builtins.type') and len(y.args[1]) == 1):
            k = x.args[0]
            if not k.subclasses:
                return isinst(y.args[1][0], x)
    for x, y in ((a, b), (b, a)):
        if is_c(x) and isinstance(cv(x), bool) and typ_(y) == ('ext', 'bool'):
            t = val.truth(y)
            return t if cv(x) else B.not_(t)
    if typ_(a) == ('ext', 'bool') and typ_(b) == ('ext', 'bool'):
        return B.iff(val.truth(a), val.truth(b))
    r = eq_members(a, b)
    if r is not None:
        return r
    ta, tb = typ_(a), typ_(b)
    if disjoint(ta, tb):
        return FALSE
    for x, t in ((a, tb), (b, ta)):
        if x is val.NONE and t is not None and t[0] == 'ext':
            from .calls import ext_class
            class_ = ext_class(t[1])
            if class_ is not None and not isinstance(None, class_):
                return FALSE
    return None


def disjoint(ta, tb):
    if ta is None or tb is None:
        return False
    if ta[0] == 'cls' and tb[0] == 'cls':
        return not (ta[1].subclass_of(tb[1]) or tb[1].subclass_of(ta[1]))
    for t, u in ((ta, tb), (tb, ta)):
        # objects from the outside are not members of private enumerations
        if t == ('ext', 'value') and u[0] == 'enum':
            return True
    return False


def eq_members(a, b):
    """Identity of elements of collections of distinct objects."""
    if a.op in ('elem', 'sel', 'lastsel') and b.op in ('elem', 'sel',
                                                       'lastsel'):
        if a.args[0] is b.args[0]:
            th = theory(a.args[0])
            if th is not None and th.objects:
                return val.same(a, b)
    return None


def eq_rule(a, b):
    for x, y in ((a, b), (b, a)):
        if is_c(x) and isinstance(cv(x), bool) and typ_(y) == ('ext', 'bool'):
            t = val.truth(y)
            return t if cv(x) else B.not_(t)
    if typ_(a) == ('ext', 'bool') and typ_(b) == ('ext', 'bool'):
        return B.iff(val.truth(a), val.truth(b))
    # names are unique
    if a.op == 'attr' and b.op == 'attr' and a.args[1] == b.args[1]:
        x, y = a.args[0], b.args[0]
        if x.op in ('elem', 'sel', 'lastsel') and y.op in (
                'elem', 'sel', 'lastsel') and x.args[0] is y.args[0]:
            th = theory(x.args[0])
            if th is not None and th.key == a.args[1]:
                return val.same(x, y)
    r = eq_members(a, b)
    if r is not None:
        return r
    if denotes_class(a) or denotes_class(b):
        return val.is_(a, b)
    return None


def denotes_class(v):
    """Whether it is equal to itself only."""
    if v.op == 'cls':
        return True
    if v.op == 'call':
        return v.args[0] is ref('builtins.type') and len(v.args[1]) == 1
    if v.op != 'ref':
        return False
    if v.args[0].startswith('typing.') or v.args[0] in (
            'builtins.NoneType', 'builtins.NotImplementedType',
            'builtins.ellipsis'):
        return True
    from .calls import ext_class
    return ext_class(v.args[0]) is not None


def hasattr_(v, name):
    if v.op == 'new':
        return TRUE if (any(n == name for n, _ in v.args[1])
                        or v.args[0].lookup(name) is not None) else FALSE
    t = typ_(v)
    if t is not None and t[0] == 'cls' and t[1].lookup(name) is not None:
        return TRUE
    if v.op == 'cls' and v.args[0].lookup(name) is not None:
        return TRUE
    return None


def fin_rule(x, i):
    """Kinds of required parameters are never variadic."""
    return None


# --- theories

class Theory:
    objects = False
    key = None

    def exists(self, e, g):
        return None

    def in_(self, x, coll):
        return None

    def merge(self, p, q):
        return None

    def rank_lt_count(self, a, b):
        return None

    def rank(self, e, e2, g):
        return None

    def distinct(self, e, key):
        return False

    def labels(self, x, d, tests):
        return []

    def element_axioms(self, x):
        return TRUE


def theory(src):
    th = PARAMETERS
    if th is not None:
        if th.owns(src):
            return th
        if src.op == 'sym' and src.args[1] is not None and src.args[1][
                0] == 'map':
            return MAPPING
    return None


class Parameters(Theory):
    """Parameters of a well-formed plain signature.

    They are sorted by kind, have unique names; required ones precede
    optional ones among positionals; there is at most one parameter of each
    of variadic kinds; variadic ones are optional and have no default.
    """
    objects = True

    def __init__(self, signature, field, kind, name, has_default, optional,
                 required):
        self.signature, self.field = signature, field
        self.kind, self.key, self.has_default = kind, name, has_default
        self.optional, self.required = optional, required

    def owns(self, src):
        return (src.op == 'attr' and src.args[1] == self.field
                and typ_(src.args[0]) == ('cls', self.signature))

    def kinds(self):
        return self.kind_class.members

    @property
    def kind_class(self):
        return attribute_type(('cls', self.optional), self.kind)[1]

    def is_kind(self, e, i):
        ms = self.kinds()
        return val.finite_is(val.attr(e, self.kind), ms[i], ms)

    def possible_kinds(self, e, g):
        return [i for i in range(len(self.kinds()))
                if B.and_(g, self.is_kind(e, i)) != FALSE]

    def exists(self, e, g):
        # elements that precede another one are of the same or lower kind
        before = [a for a in B.support(g)
                  if a.op == '@before' and a.args[0] is e
                  and a.args[1].op == 'elem' and a.args[1].args[0]
                  is e.args[0]]
        if len(before) == 1:
            a, = before
            rest = B.cofactor(g, a, False)
            g = B.cofactor(g, a, True)
            other = a.args[1]
            r = exists(e, rest) if rest != FALSE else FALSE
            for i in range(len(self.kinds())):
                own = self.is_kind(other, i)
                lower = FALSE
                for j in range(i):
                    lower = B.or_(lower, self.is_kind(e, j))
                lower = B.and_(lower, g)
                same = B.and_(self.is_kind(e, i), g)
                hit = exists(e, lower) if lower != FALSE else FALSE
                if same != FALSE:
                    if val.has_fv_guard(same, e):
                        same = B.and_(same, B.var(a))
                    h, gc = val.close(e, G(same))
                    hit = B.or_(hit, B.var(mk('@E', e.args[0], h, gc)))
                r = B.or_(r, B.and_(own, hit))
            return r
        return None

    def prefix_closed(self, e, g):
        """Index of the first kind not satisfying the condition."""
        n = len(self.kinds())
        for i in range(n + 1):
            f = FALSE
            for j in range(i):
                f = B.or_(f, self.is_kind(e, j))
            if f == g:
                return i
        return None

    def rank(self, e, e2, g):
        i = self.prefix_closed(e2, g)
        if i is None or i == len(self.kinds()):
            return None
        if e.op != 'elem':
            return None
        own = subst_guard(g, {e2: e})
        index = mk('rank', e2.args[0], e, val.H(1), G(TRUE))
        if own == TRUE:
            return index
        return phi([(own, index), (B.not_(own), val.count_of(e2, g))])

    def rank_lt_count(self, a, b):
        if a.args[3].b != TRUE:
            return None
        e, g = open_(b.args[0], b.args[1], b.args[2])
        if self.prefix_closed(e, g.b) is None:
            return None
        return subst_guard(g.b, {e: a.args[1]})

    def merge(self, p, q):
        if p[0] != 'e':
            return None
        e, g1, v1 = open_(p[1], p[2], p[3], p[4])
        m = {mk('bv', int(q[2])): e}
        g2, v2 = val.subst((q[3], q[4]), m)
        k1 = self.possible_kinds(e, g1.b)
        k2 = self.possible_kinds(e, g2.b)
        if k1 and k2 and max(k1) >= min(k2):
            return None
        g = B.or_(g1.b, g2.b)
        v = val.restrict(phi([(g1.b, v1), (g2.b, v2)]), g)
        r = val.each(e, g, v)
        return r[0] if len(r) == 1 else None

    def distinct(self, e, key):
        return (key is e or key.op == 'attr' and key.args[0] is e
                and key.args[1] == self.key)


    # --- facts used by comparisons

    def is_optional(self, e):
        return isinst(e, mk('cls', self.optional))

    def element_axioms(self, e):
        variadic = B.or_(self.is_kind(e, 2), self.is_kind(e, 4))
        default = val.truth(val.attr(e, self.has_default))
        return B.or_(B.not_(variadic),
                     B.and_(self.is_optional(e), B.not_(default)))

    def labels(self, x, d, tests):
        result = [(('kind', i), self.is_kind(x, i))
                  for i in range(len(self.kinds()))]
        result.append((('opt',), self.is_optional(x)))
        atoms = set(B.support(d))
        for b in tests:
            atoms |= B.support(b)
        thresholds, mappings = set(), set()
        for a in atoms:
            bound = index_bound(a)
            if bound is not None and bound[0] is x.args[0]:
                thresholds.add(bound[2])
            if a.op == '@in' and a.args[0].op == 'attr' and a.args[0].args[
                    1] == self.key and a.args[1].op == 'sym':
                mappings.add(a.args[1])
        for t in sorted(thresholds, key=lambda v: v.id):
            result.append((('below', t), val.lt(val.index_of(x), t)))
        for m in sorted(mappings, key=lambda v: v.id):
            result.append((('in', m), in_(val.attr(x, self.key), m)))
        return result

    def conflicts(self, p):
        """Classes that exclude each other, classes that may precede."""
        n = len(p.classes)
        rows = [{k: bool(c_[j]) for k, j in p.labels.items()}
                for c_ in p.classes]
        kinds = [next(i for i in range(len(self.kinds()))
                      if r['kind', i]) for r in rows]
        thresholds = [k for k in p.labels if k[0] == 'below']

        def may_precede(a, b):
            """Whether an element of one class may come earlier."""
            if kinds[a] > kinds[b]:
                return False
            if kinds[a] == kinds[b] and kinds[a] in (2, 4):
                return False
            if kinds[b] < 2 and rows[a]['opt',] and not rows[b]['opt',]:
                return False
            return all(rows[a][t] or not rows[b][t] for t in thresholds)

        conflicts, precedes = [0] * n, [0] * n
        for a in range(n):
            for b in range(n):
                if may_precede(a, b):
                    precedes[b] |= 1 << a
        for a in range(n):
            for b in range(n):
                if a != b and not (precedes[b] >> a & 1
                                   or precedes[a] >> b & 1):
                    conflicts[a] |= 1 << b
        return conflicts, precedes

    def rules(self, p, d):
        """Facts relating elements to numbers and keys of arguments."""
        from .compare import evaluate
        result = []
        n = len(p.classes)
        kinds = [next(i for i in range(len(self.kinds()))
                      if c_[p.labels['kind', i]]) for c_ in p.classes]
        for key in p.labels:
            if key[0] == 'below':
                t = key[1]
                below = p.mask(key)
                positive = val.lt(c(0), t)
                links = []
                for a in B.support(d):
                    link = count_bound(a)
                    if link is None or link[0] is not p.src:
                        continue
                    limit = self.prefix_closed(link[1], link[2])
                    if limit is None:
                        continue
                    inner = sum(1 << i for i in range(n)
                                if kinds[i] < limit)
                    if link[3] is t or link[3] is val.add(t, c(1)):
                        links.append((a, link[4], inner, link[3] is t))
                        UNDERSTOOD.add(a)
                result.append(self.bound_rule(p, below, positive, links,
                                              evaluate))
            elif key[0] == 'in':
                m = key[1]
                named = p.mask(key)
                e = elem(m)
                h, gc = val.close(e, G(TRUE))
                some_key = mk('@E', m, h, gc)
                e = elem(m)
                h, gc = val.close(e, G(B.not_(B.var(foreign_key(p.src,
                                                                e)))))
                foreign = mk('@E', m, h, gc)
                result.append(self.keys_rule(named, some_key, foreign))
        return result

    def bound_rule(self, p, below, positive, links, evaluate):
        def rule(model):
            options = []
            v = evaluate(positive, model)
            for pos in ((True, False) if v is None else (v,)):
                forbidden, required = 0, []
                if not pos:
                    forbidden |= below
                for a, sign, inner, exact in links:
                    value = model.get(a)
                    if value is None:
                        continue
                    less = value is sign
                    if exact:       # count < t
                        if less:
                            if not pos:
                                break
                            forbidden |= inner & ~below
                        else:
                            forbidden |= ~inner & below
                            if pos:
                                required.append(inner & below)
                    elif less:      # count < t + 1
                        forbidden |= inner & ~below
                    else:
                        required.append(inner & ~below)
                else:
                    options.append((forbidden, required))
            return options

        return rule

    def keys_rule(self, named, some_key, foreign):
        def rule(model):
            s, f = model.get(some_key), model.get(foreign)
            if s is False:
                return [] if f is True else [(named, [])]
            if s is True and f is False:
                return [(0, [named])]
            return [(0, [])]

        return rule

    def describe(self, row):
        kind = next(m.args[1] for i, m in enumerate(self.kinds())
                    if row['kind', i])
        words = ['optional' if row['opt',] else 'required',
                 kind.lower().replace('_', ' ')]
        for k, v in row.items():
            if k[0] == 'below':
                words.append(('index < ' if v else 'index >= ')
                             + val.show(k[1], 3))
            elif k[0] == 'in':
                words.append(('named' if v else 'not named')
                             + f' in {val.show(k[1])}')
        return ', '.join(words)


UNDERSTOOD = set()


def index_bound(a):
    """Source, element and bound of ``index < bound`` atoms."""
    if a.op != '@lt0':
        return None
    const, terms = a.args
    rank = [(t, k) for t, k in terms if t.op == 'rank'
            and t.args[3].b == TRUE]
    if len(rank) != 1 or abs(rank[0][1]) != 1:
        return None
    (r, k), = rank
    rest = {t: n for t, n in terms if t is not r}
    if k == 1:
        bound = val.from_lin(-const, {t: -n for t, n in rest.items()})
    else:
        bound = val.from_lin(const + 1, rest)
    UNDERSTOOD.add(a)
    return r.args[0], r.args[1], bound


def count_bound(a):
    """Parts of ``count < bound`` (or ``bound <= count``) atoms."""
    if a.op != '@lt0':
        return None
    const, terms = a.args
    for r, k in terms:
        if r.op == 'count' and abs(k) == 1 and PARAMETERS is not None and (
                PARAMETERS.owns(r.args[0])):
            rest = {t: n for t, n in terms if t is not r}
            e, g = open_(r.args[0], r.args[1], r.args[2])
            if k == 1:
                bound = val.from_lin(-const, {t: -n
                                              for t, n in rest.items()})
                return r.args[0], e, g.b, bound, True
            bound = val.from_lin(const + 1, rest)
            return r.args[0], e, g.b, bound, False
    return None


class Mapping(Theory):
    """Keyword arguments."""

    def exists(self, e, g):
        th = PARAMETERS
        sources = []
        for a in B.support(g):
            if a.op == '@E' and th.owns(a.args[0]):
                if a.args[0] not in sources:
                    sources.append(a.args[0])
        if len(sources) != 1:
            return None
        src, = sources
        # keys that name no parameter
        atoms = [a for a in B.support(g)
                 if a.op == '@E' and a.args[0] is src and e in fv(a)]

        foreign_atom = foreign_key(src, e)
        foreign = g
        for a in atoms:
            if a is foreign_atom:
                foreign = B.cofactor(foreign, a, False)
                continue
            x, h = open_(*a.args)
            named = [t for t in B.support(h.b) if t.op == '@eq'
                     and e in t.args and val.attr(x, th.key) in t.args]
            if len(named) != 1 or B.cofactor(
                    h.b, named[0], False) != FALSE:
                return None
            foreign = B.cofactor(foreign, a, False)
        if foreign == g:
            return None
        r = FALSE
        if foreign != FALSE:
            f = B.and_(foreign, B.not_(B.var(foreign_atom)))
            h, gc = val.close(e, G(f))
            r = B.var(mk('@E', e.args[0], h, gc))
        p = elem(src)
        name = val.attr(p, th.key)
        own = subst_guard(g, {e: name})
        return B.or_(r, exists(p, B.and_(own, in_(name, e.args[0]))))


def foreign_key(src, e):
    p = elem(src)
    cond = B.var(mk('@eq', *sorted((e, val.attr(p, PARAMETERS.key)),
                                   key=lambda v: v.id)))
    h, gc = val.close(p, G(cond))
    return mk('@E', src, h, gc)


MAPPING = Mapping()


def enable_parameters(interp):
    """Activates the theory, fields being found by public properties."""
    global PARAMETERS
    models = 'paradigm._core.models'
    interp.module(models)
    signature = interp.global_(models, 'PlainSignature').args[0]
    optional = interp.global_(models, 'OptionalParameter').args[0]
    required = interp.global_(models, 'RequiredParameter').args[0]

    def field(k, name):
        v = interp.getattr_(val.sym('probe', ('cls', k)), name)
        if v.op == 'attr':
            return v.args[1]
        raise LookupError(f'{k.qualname}.{name} is not a plain field')

    PARAMETERS = Parameters(signature, field(signature, 'parameters'),
                            field(optional, 'kind'),
                            field(optional, 'name'),
                            field(optional, 'has_default'),
                            optional, required)
    if field(required, 'kind') != PARAMETERS.kind or field(
            required, 'name') != PARAMETERS.key:
        PARAMETERS = None
        raise LookupError('parameters keep kinds and names differently')
    _types.clear()
    return PARAMETERS


def disable_parameters():
    global PARAMETERS
    PARAMETERS = None
