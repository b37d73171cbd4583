"""Hash-consed value-flow graph.

Values are immutable nodes; conditions are BDD nodes over atoms (which are
value nodes themselves).  Every node is built by a smart constructor which
normalises it, so that different ways of writing the same computation lead to
the same node whenever the normalisation is complete enough.
"""
import sys
from .bdd import Bdd

sys.setrecursionlimit(20000)

B = Bdd()
FALSE, TRUE = 0, 1


class G:
    """Guard (interned wrapper of a BDD node)."""
    __slots__ = 'b',
    table = {}

    def __new__(cls, b):
        self = cls.table.get(b)
        if self is None:
            self = object.__new__(cls)
            self.b = b
            cls.table[b] = self
        return self

    def __repr__(self):
        return show_guard(self.b)


class H(int):
    """Height of a binder."""


class V:
    __slots__ = 'op', 'args', 'id', '_fv', '_ht', '_unk'
    table = {}

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op, args)
    v = V.table.get(key)
    if v is None:
        v = object.__new__(V)
        v.op, v.args, v.id = op, args, len(V.table)
        v._fv = v._ht = v._unk = None
        V.table[key] = v
    return v


_uids = [0]


def uid():
    _uids[0] += 1
    return _uids[0]


# --- traversal

EMPTY = frozenset()
FREE_OPS = {'elem', 'bv', 'carry', 'loc'}


def fv(x):
    """Variables a node depends upon."""
    if isinstance(x, V):
        if x._fv is None:
            r = EMPTY
            for a in x.args:
                r = r | fv(a)
            if x.op in FREE_OPS:
                r = r | {x}
            x._fv = r
        return x._fv
    if isinstance(x, G):
        return _fv_guard(x.b)
    if isinstance(x, tuple):
        r = EMPTY
        for a in x:
            r = r | fv(a)
        return r
    return EMPTY


_fvg = {0: EMPTY, 1: EMPTY}


def _fv_guard(b):
    r = _fvg.get(b)
    if r is None:
        r = EMPTY
        for a in B.support(b):
            r = r | fv(a)
        _fvg[b] = r
    return r


def ht(x):
    """Greatest height of a binder inside."""
    if isinstance(x, V):
        if x._ht is None:
            r = max([ht(a) for a in x.args], default=0)
            if x.op == 'bv':
                r = max(r, 0)
            x._ht = r
        return x._ht
    if isinstance(x, H):
        return int(x)
    if isinstance(x, G):
        return max([ht(a) for a in B.support(x.b)], default=0)
    if isinstance(x, tuple):
        return max([ht(a) for a in x], default=0)
    return 0


def has_fv_guard(b, e):
    return e in _fv_guard(b)


def has_unk(x, _seen=None):
    """Reason of an imprecision inside of a node, if any."""
    if isinstance(x, V):
        if x._unk is None:
            r = x.args[0] if x.op == 'unk' else ''
            if not r:
                for a in x.args:
                    r = has_unk(a)
                    if r:
                        break
            x._unk = r
        return x._unk
    if isinstance(x, G):
        for a in B.support(x.b):
            r = has_unk(a)
            if r:
                return r
        return ''
    if isinstance(x, tuple):
        for a in x:
            r = has_unk(a)
            if r:
                return r
    return ''


def nodes_in(x, acc=None):
    """All nodes inside (including atoms of guards)."""
    acc = set() if acc is None else acc
    if isinstance(x, V):
        if x in acc:
            return acc
        acc.add(x)
        for a in x.args:
            nodes_in(a, acc)
    elif isinstance(x, G):
        for a in B.support(x.b):
            nodes_in(a, acc)
    elif isinstance(x, tuple):
        for a in x:
            nodes_in(a, acc)
    return acc


def subst(x, m, memo=None):
    if not m:
        return x
    memo = {} if memo is None else memo
    return _subst(x, m, memo)


def _subst(x, m, memo):
    if isinstance(x, V):
        if x in m:
            return m[x]
        if not any(k in m for k in fv(x)):
            return x
        r = memo.get(x)
        if r is None:
            r = REBUILD.get(x.op, _raw_rebuild(x.op))(
                *[_subst(a, m, memo) for a in x.args])
            memo[x] = r
        return r
    if isinstance(x, G):
        return G(_subst_guard(x.b, m, memo))
    if isinstance(x, tuple):
        return tuple([_subst(a, m, memo) for a in x])
    return x


def _subst_guard(b, m, memo):
    if b < 2 or not any(k in m for k in _fv_guard(b)):
        return b
    key = ('guard', b)
    r = memo.get(key)
    if r is None:
        def replacement(atom):
            if not any(k in m for k in fv(atom)):
                return B.var(atom)
            key = ('atom', atom)
            r = memo.get(key)
            if r is None:
                r = ATOMS[atom.op](*[_subst(a, m, memo) for a in atom.args])
                memo[key] = r
            return r

        r = B.compose(b, replacement)
        memo[key] = r
    return r


def subst_guard(b, m):
    return _subst_guard(b, m, {}) if m else b


def _raw_rebuild(op):
    return lambda *args: mk(op, *args)


REBUILD = {}
ATOMS = {}


def rebuilder(op):
    def decorator(f):
        REBUILD[op] = f
        return f

    return decorator


def atomic(op):
    def decorator(f):
        ATOMS[op] = f
        return f

    return decorator


# --- binders

def elem(src):
    return mk('elem', src, uid())


def close(e, *xs):
    h = H(1 + max([ht(x) for x in xs], default=0))
    bv = mk('bv', int(h))
    m = {e: bv}
    return (h,) + tuple([close_in(x, m) for x in xs])


def close_in(x, m):
    # no re-normalisation: closed forms are images of the open ones
    return _raw_subst(x, m, {})


def _raw_subst(x, m, memo):
    if isinstance(x, V):
        if x in m:
            return m[x]
        if not any(k in m for k in fv(x)):
            return x
        r = memo.get(x)
        if r is None:
            args = [_raw_subst(a, m, memo) for a in x.args]
            if x.op == 'phi':
                args = [tuple(sorted(args[0], key=lambda p: p[1].id))]
            elif x.op in ('@eq', '@is'):
                args = sorted(args, key=lambda p: p.id)
            elif x.op == 'lin':
                args = [args[0], tuple(sorted(args[1],
                                              key=lambda p: p[0].id))]
            elif x.op == 'seq' and args[0] in ('set', 'frozenset'):
                args = [args[0], tuple(sorted(args[1], key=_part_key))]
            elif x.op == 'call' and SYMMETRIC and len(args[1]) == 2 and (
                    args[0].op == 'func'
                    and args[0].args[0].key() in SYMMETRIC):
                args[1] = tuple(sorted(args[1], key=lambda p: p.id))
            r = mk(x.op, *args)
            memo[x] = r
        return r
    if isinstance(x, G):
        b = x.b
        if b < 2 or not any(k in m for k in _fv_guard(b)):
            return x
        key = ('guard', b)
        r = memo.get(key)
        if r is None:
            r = G(B.compose(b, lambda atom: B.var(_raw_subst(atom, m, memo))))
            memo[key] = r
        return r
    if isinstance(x, tuple):
        return tuple([_raw_subst(a, m, memo) for a in x])
    return x


def open_(src, h, *xs):
    e = elem(src)
    m = {mk('bv', int(h)): e}
    memo = {}
    return (e,) + tuple([_subst(x, m, memo) for x in xs])


# --- constants and leaves

def c(value):
    if type(value) is tuple:
        return seq('tuple', [c(x) for x in value])
    return mk('c', type(value).__name__, value)


NONE, TRUE_V, FALSE_V = c(None), c(True), c(False)
ABSENT = mk('absent')


def is_c(v):
    return v.op == 'c'


def cv(v):
    return v.args[1]


def sym(name, typ=None):
    return mk('sym', name, typ)


def ref(name):
    return mk('ref', name)


def plain(v):
    """Constant of Python."""
    if is_c(v):
        return cv(v)
    if v.op == 'seq' and v.args[0] == 'tuple':
        items = static_items(v)
        if items is not None:
            return tuple([plain(x) for x in items])
    raise ValueError('not a constant')


def unk(reason):
    return mk('unk', str(reason), uid())


def bool_v(b):
    return phi([(b, TRUE_V), (B.not_(b), FALSE_V)])


# --- gated values

def leaves(v):
    """Pairs of guards and leaves."""
    if v.op == 'phi':
        return [(g.b, x) for g, x in v.args[0]]
    return [(TRUE, v)]


def constrain(f, care):
    """Generalised cofactor."""
    if care == TRUE or f < 2:
        return f
    if care == FALSE:
        return f
    key = (f, care)
    r = _constrain_cache.get(key)
    if r is not None:
        return r
    nodes = B.nodes
    cvar, clow, chigh = nodes[care]
    fvar, flow, fhigh = nodes[f]
    if cvar <= fvar:
        f0, f1 = (flow, fhigh) if fvar == cvar else (f, f)
        if clow == FALSE:
            r = constrain(f1, chigh)
        elif chigh == FALSE:
            r = constrain(f0, clow)
        else:
            if fvar == cvar:
                r = B._mk(cvar, constrain(f0, clow), constrain(f1, chigh))
            else:
                # variable of the care set the function does not depend on
                r = constrain(f, B.or_(clow, chigh))
    else:
        r = B._mk(fvar, constrain(flow, care), constrain(fhigh, care))
    _constrain_cache[key] = r
    return r


_constrain_cache = {}


def phi(pairs):
    acc = {}
    order = []

    def add(g, v):
        if g == FALSE:
            return
        if v.op == 'phi':
            for g2, v2 in v.args[0]:
                add(B.and_(g, g2.b), v2)
        else:
            if v in acc:
                acc[v] = B.or_(acc[v], g)
            else:
                acc[v] = g
                order.append(v)

    for g, v in pairs:
        add(g, v)
    if not order:
        return unk('value of an unreachable expression')
    if len(order) == 1:
        return order[0]
    order, acc = _merge_leaves(order, acc)
    if len(order) == 1:
        return order[0]
    total = FALSE
    for v in order:
        total = B.or_(total, acc[v])
    if total != TRUE:
        for v in order:
            acc[v] = constrain(acc[v], total)
    if len(order) > 40:
        return unk('too many alternatives')
    return mk('phi', tuple([(G(acc[v]), v)
                            for v in sorted(order, key=lambda v: v.id)]))


def _shape(v):
    if v.op == 'new':
        return ('new', v.args[0])
    if v.op == 'seq':
        kind, parts = v.args
        if kind == 'tuple':
            if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
                return ('tuple', len(parts))
            return ('seqlike', kind)
        if kind == 'str':
            return None
        return ('seqlike', kind)
    return None


def _merge_leaves(order, acc):
    groups = {}
    for v in order:
        shape = _shape(v)
        if shape is not None:
            groups.setdefault(shape, []).append(v)
    if all(len(vs) < 2 for vs in groups.values()):
        return order, acc
    # tuples of different lengths are sequences as well
    new_order, new_acc = [], {}
    done = set()
    for v in order:
        shape = _shape(v)
        vs = groups.get(shape) if shape is not None else None
        if not vs or len(vs) < 2:
            merged, g = v, acc[v]
        elif shape in done:
            continue
        else:
            done.add(shape)
            g = FALSE
            for x in vs:
                g = B.or_(g, acc[x])
            gs = [(constrain(acc[x], g), x) for x in vs]
            if shape[0] == 'new':
                names = sorted({n for x in vs for n, _ in x.args[1]})
                merged = mk('new', vs[0].args[0], tuple([
                    (n, phi([(b, dict(x.args[1]).get(n, ABSENT))
                             for b, x in gs]))
                    for n in names]))
            elif shape[0] == 'tuple':
                merged = mkseq('tuple', [
                    ('i', G(TRUE), phi([(b, x.args[1][i][2]) for b, x in gs]))
                    for i in range(shape[1])])
            else:
                merged = _merge_seqs(shape[1], gs)
        if merged in new_acc:
            new_acc[merged] = B.or_(new_acc[merged], g)
        else:
            new_acc[merged] = g
            new_order.append(merged)
    return new_order, new_acc


def _merge_seqs(kind, gs):
    """Merges exclusive sequences by guarding their parts."""
    prefix = 0
    all_parts = [x.args[1] for _, x in gs]
    while all(len(ps) > prefix for ps in all_parts) and len(
            {ps[prefix] for ps in all_parts}) == 1:
        prefix += 1
    suffix = 0
    while (all(len(ps) > prefix + suffix for ps in all_parts)
           and len({ps[-1 - suffix] for ps in all_parts}) == 1):
        suffix += 1
    parts = list(all_parts[0][:prefix])
    for (g, x), ps in zip(gs, all_parts):
        parts.extend(guard_part(p, g)
                     for p in ps[prefix:len(ps) - suffix])
    if suffix:
        parts.extend(all_parts[0][-suffix:])
    return mkseq(kind, parts)


def guard_part(p, g):
    if g == TRUE:
        return p
    if p[0] == 'i':
        return ('i', G(B.and_(p[1].b, g)), p[2])
    return with_guard(p, B.and_(p[3].b, g))


def with_guard(p, g):
    """Replaces the condition of the part."""
    tag, src, h, _, v = p
    if ht(G(g)) >= h:
        # bound variables of outer binders stay apart from the inner ones
        bv = mk('bv', int(h))
        e = elem(src)
        own = [a for a in B.support(p[3].b) if bv in fv(a)]
        inner = subst_closed(g, bv, e, own)
        v = _raw_subst(v, {bv: e}, {})
        h, gc, v = close(e, G(inner), v)
        return (tag, src, h, gc, v)
    return (tag, src, h, G(g), v)


def subst_closed(g, bv, e, own):
    own = set(own)
    return B.compose(g, lambda a: B.var(
        _raw_subst(a, {bv: e}, {}) if a in own else a))


def restrict(v, care):
    """Drops the alternatives that contradict the condition."""
    if care == TRUE:
        return v
    if v.op == 'phi':
        kept = [(g.b, x) for g, x in v.args[0]
                if B.and_(g.b, care) != FALSE]
        if len(kept) == 1:
            return restrict(kept[0][1], care)
        if len(kept) == len(v.args[0]):
            pairs = [(constrain(g, care), x) for g, x in kept]
            return phi(pairs)
        return phi([(constrain(g, care), x) for g, x in kept])
    if v.op == 'seq' and v.args[0] != 'str':
        kind, parts = v.args
        new = []
        changed = False
        for p in parts:
            g = p[1].b if p[0] == 'i' else p[3].b
            g2 = constrain(g, care)
            if g2 != g:
                changed = True
                p = (('i', G(g2), p[2]) if p[0] == 'i'
                     else with_guard(p, g2))
            if kind == 'tuple' and p[0] == 'i' and p[2].op in ('phi', 'seq'):
                x = restrict(p[2], care)
                if x is not p[2]:
                    changed = True
                    p = ('i', p[1], x)
            new.append(p)
        return mkseq(kind, new) if changed else v
    return v


def dist(f, *args, limit=200):
    """Applies a function of leaves to gated values."""
    combos = [(TRUE, ())]
    for a in args:
        nxt = []
        for g, xs in combos:
            for g2, x in leaves(a):
                b = B.and_(g, g2)
                if b != FALSE:
                    nxt.append((b, xs + (x,)))
        combos = nxt
        if len(combos) > limit:
            return unk('too many combinations')
    if len(combos) == 1:
        return f(*combos[0][1])
    return phi([(g, f(*xs)) for g, xs in combos])


def dist_b(f, *args, limit=400):
    combos = [(TRUE, ())]
    for a in args:
        nxt = []
        for g, xs in combos:
            for g2, x in leaves(a):
                b = B.and_(g, g2)
                if b != FALSE:
                    nxt.append((b, xs + (x,)))
        combos = nxt
        if len(combos) > limit:
            return B.var(mk('@truth', unk('too many combinations')))
    r = FALSE
    for g, xs in combos:
        r = B.or_(r, B.and_(g, f(*xs)))
    return r


@rebuilder('phi')
def _(pairs):
    return phi([(g.b, v) for g, v in pairs])


# --- types (filled in by the interpreter)

class Hooks:
    typ = staticmethod(lambda v: None)
    attr = staticmethod(lambda v, name: None)
    isinstance_ = staticmethod(lambda v, cls: None)
    theory = None


hooks = Hooks()


def typ(v):
    return hooks.typ(v)


def src_theory(src):
    return hooks.theory(src) if hooks.theory is not None else None


# --- attributes, items, calls

@rebuilder('attr')
def attr(v, name):
    return dist(lambda x: _attr(x, name), v)


def _attr(v, name):
    if v.op == 'unk':
        return v
    if v.op == 'new':
        for n, x in v.args[1]:
            if n == name:
                return x
    r = hooks.attr(v, name)
    if r is not None:
        return r
    return mk('attr', v, name)


SYMMETRIC = set()


@rebuilder('call')
def call(f, args, kwargs=()):
    vs = (f,) + tuple(args) + tuple([x for _, x in kwargs])
    n = len(args)

    def build(f, *xs):
        for x in (f,) + xs:
            if x.op == 'unk' and False:
                return x
        if SYMMETRIC and n == 2 and f.op == 'func' and (
                f.args[0].key() in SYMMETRIC):
            xs = tuple(sorted(xs[:2], key=lambda v: v.id)) + xs[2:]
        return mk('call', f, tuple(xs[:n]),
                  tuple([(k, x) for (k, _), x in zip(kwargs, xs[n:])]))

    return dist(build, *vs)


@rebuilder('getitem')
def getitem(v, key):
    return dist(_getitem, v, key)


def _getitem(v, key):
    if v.op == 'unk':
        return v
    if v.op == 'seq':
        kind, parts = v.args
        if kind == 'dict':
            return dict_get(v, key, None)
        if is_c(key) and isinstance(cv(key), int):
            return at(v, key)
    if v.op == 'group':
        return group_get(v, key)
    return mk('getitem', v, key)


def group_get(v, key):
    """Members of a group of elements with the given key."""
    return mkseq('list', [
        p for p in _group_parts(v, key)])


def _group_parts(v, key):
    result = []
    for p in v.args[0]:
        # parts hold pairs of keys and members
        if p[0] == 'i':
            k, x = pair_of(p[2])
            result.append(('i', G(B.and_(p[1].b, eq(k, key))), x))
        else:
            tag, src, h, g, pv = p
            e, g, pv = open_(src, h, g, pv)
            k, x = pair_of(pv)
            result.extend(each(e, B.and_(g.b, eq(k, key)), x))
    return result


def pair(k, v):
    return mkseq('tuple', [('i', G(TRUE), k), ('i', G(TRUE), v)])


def pair_of(v):
    if v.op == 'seq' and len(v.args[1]) == 2:
        return v.args[1][0][2], v.args[1][1][2]
    return at(v, c(0)), at(v, c(1))


def dict_get(d, key, default):
    """Value of the dictionary built by consecutive assignments."""
    result = default if default is not None else unk('missing key')
    cases = []
    remaining = TRUE
    for p in reversed(d.args[1]):
        if p[0] == 'i':
            k, x = pair_of(p[2])
            hit = B.and_(p[1].b, eq(k, key))
            cases.append((B.and_(remaining, hit), x))
            remaining = B.and_(remaining, B.not_(hit))
        else:
            tag, src, h, g, pv = p
            if tag != 'e':
                return unk('lookup in a flattened dictionary')
            e, g, pv = open_(src, h, g, pv)
            k, x = pair_of(pv)
            cond = B.and_(g.b, eq(k, key))
            hit = exists(e, cond)
            if hit == FALSE:
                continue
            value = the(e, cond, x)
            cases.append((B.and_(remaining, hit), value))
            remaining = B.and_(remaining, B.not_(hit))
        if remaining == FALSE:
            break
    if remaining != FALSE:
        if default is not None:
            cases.append((remaining, default))
        elif not cases:
            return result
    return phi(cases)


def the(e, g, v):
    """Value for the only (or last) element satisfying the condition."""
    # one-point rule
    if e not in fv(v):
        return v
    for atom in B.support(g):
        if atom.op == '@same' and e in atom.args:
            if B.cofactor(g, atom, False) == FALSE:
                other = (atom.args[1] if atom.args[0] is e
                         else atom.args[0])
                return subst(v, {e: other})
    point = _point(e, g)
    if point is not None:
        return subst(v, {e: point})
    src = e.args[0]
    h, gc, vc = close(e, G(g), v)
    return mk('last', src, h, gc, vc)


def _point(e, g):
    """Value the element equals to whenever the condition holds."""
    for atom in B.support(g):
        if atom.op == '@eq' and e in atom.args:
            if B.cofactor(g, atom, False) == FALSE:
                other = (atom.args[1] if atom.args[0] is e
                         else atom.args[0])
                if e not in fv(other):
                    return other
    return None


# --- integers

def to_lin(v):
    if is_c(v) and isinstance(cv(v), int):
        return int(cv(v)), {}
    if v.op == 'lin':
        return v.args[0], dict(v.args[1])
    return 0, {v: 1}


def from_lin(const, terms):
    terms = {t: k for t, k in terms.items() if k}
    if not terms:
        return c(const)
    if const == 0 and len(terms) == 1:
        (t, k), = terms.items()
        if k == 1:
            return t
    return mk('lin', const,
              tuple(sorted(terms.items(), key=lambda p: p[0].id)))


@rebuilder('lin')
def _(const, terms):
    r = c(const)
    for t, k in terms:
        r = add(r, t, k)
    return r


def add(a, b, k=1):
    return dist(lambda x, y: _add(x, y, k), a, b)


def _add(a, b, k):
    ca, ta = to_lin(a)
    cb, tb = to_lin(b)
    for t, n in tb.items():
        ta[t] = ta.get(t, 0) + k * n
    return from_lin(ca + k * cb, ta)


def is_int(v):
    return ((is_c(v) and isinstance(cv(v), int))
            or v.op in ('lin', 'count', 'rank', 'firstrank'))


@rebuilder('count')
def _(src, h, g):
    e, g = open_(src, h, g)
    return count_of(e, g.b)


def count_of(e, g):
    """Number of elements satisfying the condition."""
    src = e.args[0]
    if g == FALSE:
        return c(0)
    closed = [a for a in B.support(g) if e not in fv(a)]
    if closed:
        a = closed[0]
        return phi([(B.var(a), count_of(e, B.cofactor(g, a, True))),
                    (B.not_(B.var(a)),
                     count_of(e, B.cofactor(g, a, False)))])
    if src.op in ('seq', 'phi'):
        return length(mkseq('list', each(e, g, e)))
    h, gc = close(e, G(g))
    return mk('count', src, h, gc)


@rebuilder('rank')
def _(src, e, h, g):
    if e.op not in ('elem', 'bv', 'sel'):
        return unk('rank of an unknown element')
    e2, g = open_(src, h, g)
    return rank_of(e, e2, g.b)


def rank_of(e, e2, g):
    """Number of earlier elements satisfying the condition."""
    src = e2.args[0]
    if g == FALSE:
        return c(0)
    closed = [a for a in B.support(g) if e2 not in fv(a)]
    if closed:
        a = closed[0]
        return phi([(B.var(a), rank_of(e, e2, B.cofactor(g, a, True))),
                    (B.not_(B.var(a)),
                     rank_of(e, e2, B.cofactor(g, a, False)))])
    th = src_theory(src)
    if th is not None:
        r = th.rank(e, e2, g)
        if r is not None:
            return r
    h, gc = close(e2, G(g))
    return mk('rank', src, e, h, gc)


def index_of(e):
    src = e.args[0]
    return mk('rank', src, e, H(1), G(TRUE))


@rebuilder('firstrank')
def _(src, h, g, h2, g2):
    e, g = open_(src, h, g)
    e2, g2 = open_(src, h2, g2)
    return firstrank(e, g.b, e2, g2.b)


def firstrank(e, g, e2, g2):
    """Rank of the first element satisfying the second condition."""
    src = e.args[0]
    h, gc = close(e, G(g))
    h2, gc2 = close(e2, G(g2))
    return mk('firstrank', src, h, gc, h2, gc2)


def lt(a, b):
    return dist_b(_lt, a, b)


def version_key(v):
    """Version of the interpreter the analysis runs in, or a constant."""
    import sys
    if v is ref('sys.version_info'):
        return tuple(sys.version_info[:3])
    items = static_items(v)
    if items is not None and all(is_c(x) for x in items):
        return tuple(cv(x) for x in items)
    return None


def _lt(a, b):
    if a.op in ('ref', 'seq') and b.op in ('ref', 'seq'):
        ka, kb = version_key(a), version_key(b)
        if ka is not None and kb is not None:
            try:
                return TRUE if ka < kb else FALSE
            except TypeError:
                pass
    ka, kb = _const_key(a), _const_key(b)
    if ka is not None and kb is not None:
        try:
            return TRUE if ka < kb else FALSE
        except TypeError:
            pass
    ea, eb = finite(a), finite(b)
    if ea is not None or eb is not None:
        dom = ea or eb
        r = FALSE
        members = dom
        va = members if not is_member(a, members) else [a]
        vb = members if not is_member(b, members) else [b]
        for x in va:
            for y in vb:
                if member_key(x) < member_key(y):
                    r = B.or_(r, B.and_(is_(a, x), is_(b, y)))
        return r
    if a.op == 'unk' or b.op == 'unk':
        return B.var(mk('@truth', unk(a.args[0] if a.op == 'unk'
                                      else b.args[0])))
    if not (is_int(a) or is_int(b)):
        ta, tb = typ(a), typ(b)
        if not (ta == ('ext', 'int') and tb == ('ext', 'int')):
            return B.var(mk('@lt', a, b))
    ca, ta = to_lin(a)
    cb, tb = to_lin(b)
    for t, n in tb.items():
        ta[t] = ta.get(t, 0) - n
    return lt0(ca - cb, {t: n for t, n in ta.items() if n})


def _const_key(v):
    if is_c(v):
        return cv(v)
    return None


def lt0(const, terms):
    """Whether the linear form is negative."""
    if not terms:
        return TRUE if const < 0 else FALSE
    lead = min(terms, key=lambda t: t.id)
    if terms[lead] < 0:
        # x < 0  <=>  not (-x < 1)
        return B.not_(lt0(-const - 1, {t: -n for t, n in terms.items()}))
    r = _lt0_rules(const, terms)
    if r is not None:
        return r
    return B.var(mk('@lt0', const,
                    tuple(sorted(terms.items(), key=lambda p: p[0].id))))


def _lt0_rules(const, terms):
    if len(terms) == 1:
        (t, n), = terms.items()
        if n == 1 and t.op in ('count', 'rank', 'firstrank', 'call'):
            nonneg = (t.op != 'call' or (
                t.args[0] is ref('builtins.len')))
            if nonneg and const >= 0:
                return FALSE
            if nonneg and const == -1:
                if t.op == 'count':
                    e, g = open_(t.args[0], t.args[1], t.args[2])
                    return B.not_(exists(e, g.b))
                if t.op == 'rank':
                    e2, g = open_(t.args[0], t.args[2], t.args[3])
                    if g.b == TRUE and t.args[1].op == 'elem' and False:
                        return None
    if len(terms) == 2 and const == 0:
        ts = sorted(terms.items(), key=lambda p: p[1])
        (neg, n1), (pos, n2) = ts
        if n1 == -1 and n2 == 1:
            r = _rank_vs(pos, neg)
            if r is not None:
                return r
    if len(terms) == 2 and const == -1:
        # pos - neg - 1 < 0  <=>  pos <= neg  <=>  not (neg < pos)
        ts = sorted(terms.items(), key=lambda p: p[1])
        (neg, n1), (pos, n2) = ts
        if n1 == -1 and n2 == 1:
            r = _rank_vs(neg, pos)
            if r is not None:
                return B.not_(r)
    return None


def _rank_vs(a, b):
    """a < b for special forms."""
    if a.op == 'rank' and b.op == 'firstrank':
        # elements before the first one satisfying the condition
        if a.args[0] is b.args[0] and a.args[2:4] == b.args[1:3]:
            e = a.args[1]
            src = a.args[0]
            e2, g2 = open_(src, b.args[3], b.args[4])
            own = subst_guard(g2.b, {e2: e})
            earlier = exists(e2, B.and_(before(e2, e), g2.b))
            return B.and_(B.not_(own), B.not_(earlier))
    if a.op == 'firstrank' and b.op == 'rank':
        # first < rank(e)  <=>  some earlier element satisfies
        if a.args[0] is b.args[0] and b.args[2:4] == a.args[1:3]:
            e = b.args[1]
            e2, g2 = open_(a.args[0], a.args[3], a.args[4])
            return exists(e2, B.and_(before(e2, e), g2.b))
    if a.op == 'rank' and b.op == 'count' and a.args[0] is b.args[0]:
        if a.args[2:4] == b.args[1:3]:
            e = a.args[1]
            e2, g = open_(a.args[0], a.args[2], a.args[3])
            own = subst_guard(g.b, {e2: e})
            if own == TRUE:
                return TRUE
        th = src_theory(a.args[0])
        if th is not None:
            return th.rank_lt_count(a, b)
    if (a.op == 'rank' and b.op == 'rank' and a.args[0] is b.args[0]
            and a.args[2:4] == b.args[2:4]):
        # an element that is counted is ahead of all that follow it
        e, f = a.args[1], b.args[1]
        e2, g = open_(a.args[0], a.args[2], a.args[3])
        own, other = (counted(x, e2, g.b) for x in (e, f))
        if own == TRUE:
            return before(e, f)
        if e.op in ('elem', 'sel') and f.op in ('elem', 'sel') and (
                own != FALSE):
            raw = raw_lt(a, b)
            if other == TRUE:
                # e < f  <=>  not (f <= e)
                raw = B.and_(raw, before(e, f))
            return B.or_(B.and_(own, before(e, f)),
                         B.and_(B.not_(own), raw))
    return None


def counted(e, e2, g):
    """Whether the element satisfies the condition."""
    if e.op == 'sel' and e.args[0] is e2.args[0]:
        x, own = open_(*e.args[:3])
        if B.and_(own.b, B.not_(subst_guard(g, {e2: x}))) == FALSE:
            return TRUE
    return subst_guard(g, {e2: e})


def raw_lt(a, b):
    x, y = sorted((a, b), key=lambda t: t.id)
    if x is a:
        return B.var(mk('@lt0', 0, ((a, 1), (b, -1))))
    return B.not_(B.var(mk('@lt0', -1, ((b, 1), (a, -1)))))


@atomic('@lt0')
def _(const, terms):
    r = c(const)
    for t, k in terms:
        r = add(r, t, k)

    def leaf(x):
        k, ts = to_lin(x)
        return lt0(k, ts)

    return dist_b(leaf, r)


@atomic('@lt')
def _(a, b):
    return lt(a, b)


# --- truth, identity, equality

def truth(v):
    return dist_b(_truth, v)


def _truth(v):
    if is_c(v):
        return TRUE if cv(v) else FALSE
    if v.op == 'unk':
        return B.var(mk('@truth', v))
    if v.op == 'seq':
        kind, parts = v.args
        if kind == 'str':
            r = FALSE
            for p in parts:
                if is_c(p[2]):
                    r = B.or_(r, p[1].b if cv(p[2]) else FALSE)
                else:
                    return B.var(mk('@truth', v))
            return r
        return seq_nonempty(v)
    if v.op in ('cls', 'func', 'new', 'bm', 'loc', 'lambda', 'super'):
        return TRUE
    if v.op == 'ref':
        return TRUE
    if is_int(v):
        return B.not_(eq(v, c(0)))
    t = typ(v)
    if t is not None:
        if t[0] in ('seq', 'map', 'set'):
            return nonempty(v)
        if t[0] in ('cls', 'union') and t[-1] != 'opt':
            return TRUE if hooks.always_true(t) else B.var(mk('@truth', v))
        if t == ('ext', 'bool'):
            return B.var(mk('@truth', v))
        if t[0] == 'obj':
            return TRUE
    return B.var(mk('@truth', v))


def seq_nonempty(v):
    r = FALSE
    for p in v.args[1]:
        if p[0] == 'i':
            r = B.or_(r, p[1].b)
        else:
            tag, src, h, g, x = p
            e, g, x = open_(src, h, g, x)
            b = g.b
            if tag == 'f':
                b = B.and_(b, truth(x))
            r = B.or_(r, exists(e, b))
    return r


def nonempty(v):
    e = elem(v)
    return exists(e, TRUE)


@atomic('@truth')
def _(v):
    return truth(v)


def finite(v):
    """Members of the finite domain of the value, if known."""
    t = typ(v)
    if t is not None and t[0] == 'enum':
        return t[1].members
    return None


def is_member(v, members):
    return v in members


def member_key(v):
    return v.args[2]


def is_(a, b):
    return dist_b(_is, a, b)


CONST_OPS = {'c', 'ref', 'cls', 'func', 'member', 'absent'}
FRESH_OPS = {'new', 'seq', 'lin'}


def _is(a, b):
    if a is b:
        return TRUE
    if a.op == 'unk' or b.op == 'unk':
        return B.var(mk('@truth', unk((a if a.op == 'unk' else b).args[0])))
    if a.op in CONST_OPS and b.op in CONST_OPS:
        if a.op == 'c' and b.op == 'c':
            # identity of constants of the same value is not decidable
            return FALSE
        if a.op == 'ref' and b.op == 'ref':
            return hooks.same_refs(a, b)
        return FALSE
    if (a.op in FRESH_OPS and b.op in CONST_OPS
            or b.op in FRESH_OPS and a.op in CONST_OPS):
        if a.op == 'seq' and a.args[0] == 'tuple' and not a.args[1]:
            return eq(a, b)
        if not (a.op == 'lin' or b.op == 'lin'):
            return FALSE
    for x, y in ((a, b), (b, a)):
        if x.op == 'member':
            dom = finite(y)
            if dom is not None:
                return finite_is(y, x, dom)
    r = hooks.is_rule(a, b)
    if r is not None:
        return r
    ta, tb = typ(a), typ(b)
    for t, y in ((ta, b), (tb, a)):
        if t is not None and y is NONE and t[0] in ('seq', 'map', 'set',
                                                     'cls', 'enum'):
            return FALSE
    fa, fb = finite(a), finite(b)
    if fa is not None and fa == fb:
        r = FALSE
        for m in fa:
            r = B.or_(r, B.and_(is_(a, m), is_(b, m)))
        return r
    x, y = sorted((a, b), key=lambda v: v.id)
    return B.var(mk('@is', x, y))


def finite_is(v, member, dom):
    """Chain encoding: canonical without exclusivity constraints."""
    r = TRUE
    for i, m in enumerate(dom):
        last = i == len(dom) - 1
        if m is member:
            if not last:
                r = B.and_(r, B.var(mk('@fin', v, i)))
            return r
        if not last:
            r = B.and_(r, B.not_(B.var(mk('@fin', v, i))))
    return FALSE


@atomic('@fin')
def _(v, i):
    def leaf(x):
        if x.op == 'bv':
            return B.var(mk('@fin', x, i))
        dom = finite(x)
        if dom is None:
            if x.op == 'member':
                dom = x.args[0].members
                return TRUE if x is dom[i] else FALSE
            return B.var(mk('@fin', x, i))
        if x.op == 'member':
            return TRUE if x is dom[i] else FALSE
        th = hooks.fin_rule(x, i)
        if th is not None:
            return th
        return B.var(mk('@fin', x, i))

    return dist_b(leaf, v)


@atomic('@is')
def _(a, b):
    return is_(a, b)


def eq(a, b):
    return dist_b(_eq, a, b)


def static_items(v):
    """Elements of a sequence with a definite content."""
    if v.op == 'seq' and v.args[0] in ('tuple', 'list'):
        if all(p[0] == 'i' and p[1].b == TRUE for p in v.args[1]):
            return [p[2] for p in v.args[1]]
    return None


def _affix(a, b):
    """``text[:2] == '__'`` is the same as ``text.startswith('__')``."""
    if not (a.op == 'slice' and is_c(b) and isinstance(cv(b), str)
            and cv(b)):
        return None
    x, lo, hi = a.args
    n = len(cv(b))
    if typ(x) != ('ext', 'builtins.str') and typ(x) is not None:
        return None
    if (lo is NONE or lo is c(0)) and hi is c(n):
        return truth(call(mk('attr', x, 'startswith'), (b,)))
    if hi is NONE and lo is c(-n):
        return truth(call(mk('attr', x, 'endswith'), (b,)))
    return None


def _eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'unk' or b.op == 'unk':
        return B.var(mk('@truth', unk((a if a.op == 'unk' else b).args[0])))
    affix = _affix(a, b) or _affix(b, a)
    if affix is not None:
        return affix
    if is_c(a) and is_c(b):
        return TRUE if cv(a) == cv(b) else FALSE
    if a.op in CONST_OPS and b.op in CONST_OPS:
        if a.op == 'member' or b.op == 'member':
            ka, kb = enum_value(a), enum_value(b)
            if ka is not None and kb is not None:
                return TRUE if ka == kb else FALSE
        if a.op == 'ref' and b.op == 'ref':
            return hooks.same_refs(a, b)
        return FALSE
    if finite(a) is not None or finite(b) is not None:
        if a.op == 'member' or b.op == 'member' or finite(a) == finite(b):
            return is_(a, b)
    sa, sb = static_items(a), static_items(b)
    if sa is not None and sb is not None:
        if a.args[0] != b.args[0] or len(sa) != len(sb):
            return FALSE
        r = TRUE
        for x, y in zip(sa, sb):
            r = B.and_(r, eq(x, y))
        return r
    if a.op == 'seq' and b.op == 'seq' and a.args[0] in ('tuple', 'list'):
        if a.args[0] != b.args[0]:
            if b.args[0] in ('tuple', 'list'):
                return FALSE
        elif (len(a.args[1]) * len(b.args[1]) <= 36
                and all(p[0] == 'i' for p in a.args[1] + b.args[1])):
            return eq_guarded(a.args[1], b.args[1])
    if is_int(a) and is_int(b) or (
            (is_int(a) or is_int(b))
            and not (a.op in ('seq', 'new') or b.op in ('seq', 'new'))):
        for x, y in ((a, b), (b, a)):
            if is_c(x) and not isinstance(cv(x), int):
                break
        else:
            ca, ta = to_lin(a)
            cb, tb = to_lin(b)
            for t, n in tb.items():
                ta[t] = ta.get(t, 0) - n
            ts = {t: n for t, n in ta.items() if n}
            k = ca - cb
            # x == 0  <=>  x < 1 and not x < 0
            return B.and_(lt0(k - 1, ts), B.not_(lt0(k, ts)))
    for x, y in ((a, b), (b, a)):
        if y.op == 'c' or y.op == 'seq':
            tx = typ(x)
            if y is NONE:
                if x.op in ('new', 'seq', 'lin') or (
                        tx is not None
                        and tx[0] in ('seq', 'map', 'set', 'cls')):
                    return FALSE
                return is_(a, b)
            if (y.op == 'c' and x.op in ('new', 'seq')
                    and not (x.op == 'seq' and x.args[0] == 'str')):
                return FALSE
            # comparison with an empty collection
            if y.op == 'seq' and not y.args[1] and y.args[0] != 'str':
                if x.op == 'seq' and x.args[0] == y.args[0]:
                    return B.not_(truth(x))
                if tx is not None and tx[0] in ('seq', 'map', 'set'):
                    return B.not_(truth(x))
            if y.op == 'c' and cv(y) == '' and tx == ('ext', 'str'):
                return B.not_(truth(x))
    r = hooks.eq_rule(a, b)
    if r is not None:
        return r
    x, y = sorted((a, b), key=lambda v: v.id)
    return B.var(mk('@eq', x, y))


def eq_guarded(left, right):
    """Equality of sequences with items that may be absent."""
    absent = [[TRUE], [TRUE]]
    for k, parts in enumerate((left, right)):
        for p in reversed(parts):
            absent[k].append(B.and_(absent[k][-1], B.not_(p[1].b)))
        absent[k].reverse()
    n, m = len(left), len(right)
    table = {}
    for i in range(n, -1, -1):
        for j in range(m, -1, -1):
            if i == n or j == m:
                table[i, j] = B.and_(absent[0][i], absent[1][j])
                continue
            g, h = left[i][1].b, right[j][1].b
            table[i, j] = B.ite(
                B.not_(g), table[i + 1, j],
                B.ite(B.not_(h), table[i, j + 1],
                      B.and_(eq(left[i][2], right[j][2]),
                             table[i + 1, j + 1])))
    return table[0, 0]


def enum_value(v):
    if v.op == 'member':
        return v.args[2]
    if is_c(v) and isinstance(cv(v), int):
        return cv(v)
    return None


@atomic('@eq')
def _(a, b):
    return eq(a, b)


@atomic('@same')
def _(a, b):
    return same(a, b)


def same(a, b):
    if a is b:
        return TRUE
    x, y = sorted((a, b), key=lambda v: v.id)
    return B.var(mk('@same', x, y))


def before(a, b):
    """Whether the first element precedes the second one."""
    if a is b:
        return FALSE
    if b.op == 'sel' and a.op in ('elem', 'sel') and a.args[0] is b.args[0]:
        # what comes before the first element satisfying the condition
        y, g = open_(*b.args[:3])
        earlier = exists(y, B.and_(before(y, a), g.b))
        return B.and_(B.not_(subst_guard(g.b, {y: a})), B.not_(earlier))
    if a.op == 'sel' and b.op == 'elem' and a.args[0] is b.args[0]:
        y, g = open_(*a.args[:3])
        return exists(y, B.and_(before(y, b), g.b))
    return B.var(mk('@before', a, b))


@atomic('@before')
def _(a, b):
    return dist_b(lambda x, y: before(x, y), a, b)


@atomic('@isinst')
def _(v, cls):
    return isinst(v, cls)


def isinst(v, cls):
    return dist_b(_isinst, v, cls)


def _isinst(v, cls):
    if v.op == 'unk':
        return B.var(mk('@truth', v))
    if v.op == 'bv':
        return B.var(mk('@isinst', v, cls))
    if cls.op == 'seq':
        r = FALSE
        for p in cls.args[1]:
            r = B.or_(r, isinst(v, p[2]))
        return r
    r = hooks.isinstance_(v, cls)
    if r is not None:
        return r
    return B.var(mk('@isinst', v, cls))


@atomic('@raises')
def _(exc, node):
    return dist_b(lambda x: B.var(mk('@raises', exc, x)), node)


@atomic('@hasattr')
def _(v, name):
    return dist_b(lambda x: hasattr_(x, name), v)


def hasattr_(v, name):
    r = hooks.hasattr_(v, name)
    if r is not None:
        return r
    return B.var(mk('@hasattr', v, name))


@atomic('@in')
def _(x, coll):
    return in_(x, coll)


def in_(x, coll):
    return dist_b(_in, x, coll)


def _in(x, coll):
    if coll.op == 'unk':
        return B.var(mk('@truth', coll))
    if is_c(coll) and isinstance(cv(coll), str) and is_c(x) and isinstance(
            cv(x), str):
        return TRUE if cv(x) in cv(coll) else FALSE
    if coll.op == 'seq':
        kind, parts = coll.args
        if kind == 'str':
            return B.var(mk('@in', x, coll))
        r = FALSE
        for p in parts:
            if p[0] == 'i':
                v = pair_of(p[2])[0] if kind == 'dict' else p[2]
                r = B.or_(r, B.and_(p[1].b, eq(x, v)))
            else:
                tag, src, h, g, v = p
                e, g, v = open_(src, h, g, v)
                if tag == 'f':
                    r = B.or_(r, exists(e, B.and_(g.b, in_(x, v))))
                else:
                    if kind == 'dict':
                        v = pair_of(v)[0]
                    r = B.or_(r, exists(e, B.and_(g.b, eq(x, v))))
        return r
    if coll.op == 'group':
        r = FALSE
        for p in coll.args[0]:
            if p[0] == 'i':
                r = B.or_(r, B.and_(p[1].b, eq(x, pair_of(p[2])[0])))
            else:
                tag, src, h, g, v = p
                e, g, v = open_(src, h, g, v)
                r = B.or_(r, exists(e, B.and_(g.b, eq(x, pair_of(v)[0]))))
        return r
    if coll.op == 'range':
        return B.var(mk('@in', x, coll))
    if x.op == 'elem' and x.args[0] is coll:
        return TRUE
    th = src_theory(coll)
    if th is not None:
        r = th.in_(x, coll)
        if r is not None:
            return r
    return B.var(mk('@in', x, coll))


# --- quantification

@atomic('@E')
def _(src, h, g):
    e, g = open_(src, h, g)
    return exists(e, g.b)


def exists(e, g):
    """Whether some element satisfies the condition."""
    src = e.args[0]
    if g == FALSE:
        return FALSE
    if src.op == 'phi':
        r = FALSE
        for b, s in leaves(src):
            e2 = elem(s)
            r = B.or_(r, B.and_(b, exists(e2, subst_guard(g, {e: e2}))))
        return r
    if is_sorted(src):
        e2 = elem(sorted_of(src))
        return exists(e2, subst_guard(g, {e: e2}))
    if src.op == 'seq':
        r = FALSE
        for p in src.args[1]:
            if p[0] == 'i':
                v = pair_of(p[2])[0] if src.args[0] == 'dict' else p[2]
                r = B.or_(r, B.and_(p[1].b, subst_guard(g, {e: v})))
            else:
                tag, s, h, gg, v = p
                e2, gg, v = open_(s, h, gg, v)
                if tag == 'f':
                    e3 = elem(v)
                    r = B.or_(r, exists(e2, B.and_(
                        gg.b, exists(e3, subst_guard(g, {e: e3})))))
                else:
                    if src.args[0] == 'dict':
                        v = pair_of(v)[0]
                    r = B.or_(r, exists(e2, B.and_(
                        gg.b, subst_guard(g, {e: v}))))
        return r
    # conditions that do not depend on the element
    for a in B.support(g):
        if e not in fv(a):
            return B.ite(B.var(a), exists(e, B.cofactor(g, a, True)),
                         exists(e, B.cofactor(g, a, False)))
    # elements that are given explicitly
    for a in B.support(g):
        if a.op == '@same' and e in a.args:
            other = a.args[1] if a.args[0] is e else a.args[0]
            if other.op == 'elem' and other.args[0] is src:
                pos = subst_guard(B.cofactor(g, a, True), {e: other})
                neg = B.cofactor(g, a, False)
                if neg == FALSE:
                    return pos
    point = _point(e, g)
    if point is not None:
        atom = next(a for a in B.support(g)
                    if a.op == '@eq' and e in a.args and point in a.args)
        return B.and_(in_(point, src),
                      subst_guard(B.cofactor(g, atom, True), {e: point}))
    # elements equal to constants are told apart
    for a in B.support(g):
        if a.op == '@eq' and e in a.args and any(map(is_c, a.args)):
            hit = B.cofactor(g, a, True)
            if hit != FALSE:
                k = a.args[1] if a.args[0] is e else a.args[0]
                return B.or_(
                    B.and_(in_(k, src), subst_guard(hit, {e: k})),
                    exists(e, B.and_(B.not_(B.var(a)),
                                     B.cofactor(g, a, False))))
    g = _drop_first(e, g)
    th = src_theory(src)
    if th is not None:
        r = th.exists(e, g)
        if r is not None:
            return r
    if g == FALSE:
        return FALSE
    h, gc = close(e, G(g))
    return B.var(mk('@E', src, h, gc))


def _drop_first(e, g):
    """Exists a first one <=> exists one."""
    for a in B.support(g):
        if a.op == '@E' and a.args[0] is e.args[0]:
            # E(src, x: before(x, e) and h(x)) negated, with g => h(e)
            x, hb = open_(*a.args)
            bs = [t for t in B.support(hb.b)
                  if t.op == '@before' and t.args[0] is x
                  and t.args[1] is e]
            if not bs:
                continue
            if B.cofactor(g, a, True) != FALSE:
                continue
            if B.cofactor(hb.b, bs[0], False) != FALSE:
                continue
            rest = B.cofactor(g, a, False)
            h_of_e = subst_guard(B.cofactor(hb.b, bs[0], True), {x: e})
            if h_of_e == rest:
                return rest
    return g


# --- sequences

def each(e, g, v):
    """Parts of a comprehension over the (possibly structured) source."""
    src = e.args[0]
    if g == FALSE:
        return []
    if src.op == 'phi':
        parts = []
        for b, s in leaves(src):
            e2 = elem(s)
            parts.extend(guard_part(p, b) for p in each(
                e2, subst_guard(g, {e: e2}), subst(v, {e: e2})))
        return parts
    if src.op == 'seq':
        parts = []
        for p in src.args[1]:
            if p[0] == 'i':
                x = pair_of(p[2])[0] if src.args[0] == 'dict' else p[2]
                m = {e: x}
                parts.append(('i', G(B.and_(p[1].b, subst_guard(g, m))),
                              subst(v, m)))
            else:
                tag, s, h, gg, x = p
                e2, gg, x = open_(s, h, gg, x)
                if tag == 'f':
                    e3 = elem(x)
                    inner = mkseq('list', each(e3, subst_guard(g, {e: e3}),
                                               subst(v, {e: e3})))
                    parts.extend(each_flat(e2, gg.b, inner))
                else:
                    if src.args[0] == 'dict':
                        x = pair_of(x)[0]
                    m = {e: x}
                    parts.extend(each(e2, B.and_(gg.b, subst_guard(g, m)),
                                      subst(v, m)))
        return parts
    point = _point(e, g)
    h, gc, vc = close(e, G(g), v)
    return [('e', src, h, gc, vc)]


def each_flat(e, g, inner):
    """Parts of a flattened comprehension."""
    if g == FALSE:
        return []
    inner_parts = inner.args[1] if inner.op == 'seq' else None
    if inner_parts is not None and len(inner_parts) <= 1:
        if not inner_parts:
            return []
        p, = inner_parts
        if p[0] == 'i':
            return each(e, B.and_(g, p[1].b), p[2])
    if inner_parts is not None and len(inner_parts) <= 8 and all(
            p[0] == 'i' for p in inner_parts):
        # at most one of exclusive members
        seen, exclusive = FALSE, True
        for p in inner_parts:
            if B.and_(g, seen, p[1].b) != FALSE:
                exclusive = False
                break
            seen = B.or_(seen, p[1].b)
        if exclusive:
            total = B.and_(g, seen)
            if total == FALSE:
                return []
            return each(e, total, restrict(phi(
                [(constrain(p[1].b, total), p[2])
                 for p in inner_parts]), total))
    src = e.args[0]
    if src.op in ('seq', 'phi'):
        parts = []
        for p in iter_parts(src):
            if p[0] == 'i':
                m = {e: p[2]}
                b = B.and_(p[1].b, subst_guard(g, m))
                inner2 = subst(inner, m)
                parts.extend(guard_part(q, b) for q in iter_parts(inner2))
            else:
                tag, s, h, gg, x = p
                e2, gg, x = open_(s, h, gg, x)
                if tag == 'f':
                    return [('i', G(TRUE), unk('nested flattening'))]
                m = {e: x}
                parts.extend(each_flat(e2, B.and_(gg.b, subst_guard(g, m)),
                                       subst(inner, m)))
        return parts
    h, gc, vc = close(e, G(g), inner)
    return [('f', src, h, gc, vc)]


def iter_parts(v):
    """Parts a value yields being iterated over."""
    if v.op == 'phi':
        parts = []
        for g, x in leaves(v):
            parts.extend(guard_part(p, g) for p in iter_parts(x))
        return parts
    if v.op == 'seq':
        kind, parts = v.args
        if kind == 'dict':
            result = []
            for p in parts:
                if p[0] == 'i':
                    result.append(('i', p[1], pair_of(p[2])[0]))
                else:
                    tag, src, h, g, x = p
                    e, g, x = open_(src, h, g, x)
                    if tag == 'f':
                        result.append(('i', G(TRUE),
                                       unk('keys of flattened mapping')))
                    else:
                        result.extend(each(e, g.b, pair_of(x)[0]))
            return result
        if kind == 'str':
            e = elem(v)
            h, gc, vc = close(e, G(TRUE), e)
            return [('e', v, h, gc, vc)]
        return list(parts)
    if v.op == 'unk':
        return [('i', G(TRUE), v)]
    if is_c(v) and isinstance(cv(v), str):
        return [('i', G(TRUE), c(ch)) for ch in cv(v)]
    if v.op == 'group':
        return [('i', G(TRUE), unk('iteration over groups'))]
    e = elem(v)
    h, gc, vc = close(e, G(TRUE), e)
    return [('e', v, h, gc, vc)]


def _part_key(p):
    if p[0] == 'i':
        return (0, p[2].id, p[1].b)
    return (1, p[1].id, p[4].id, p[3].b)


@rebuilder('seq')
def _(kind, parts):
    result = []
    for p in parts:
        if p[0] == 'i':
            result.append(p)
        else:
            tag, src, h, g, v = p
            if src.op in ('seq', 'phi'):
                e, g, v = open_(src, h, g, v)
                result.extend(each_flat(e, g.b, v) if tag == 'f'
                              else each(e, g.b, v))
            else:
                # bodies may have been simplified
                if tag == 'f':
                    e, g, v = open_(src, h, g, v)
                    result.extend(each_flat(e, g.b, v))
                else:
                    e, g, v = open_(src, h, g, v)
                    result.extend(each(e, g.b, v))
    return mkseq(kind, result)


def is_sorted(v):
    return (v.op == 'call' and v.args[0] is ref('builtins.sorted')
            and len(v.args[1]) == 1)


def sorted_of(v):
    """Elements of the sorted sequence in whatever order."""
    x = v.args[1][0]
    return mk('seq', 'list', x.args[1]) if x.op == 'seq' else x


def _last_values(parts):
    """Parts of a dictionary, those with the very same key being one."""
    result, places = [], {}
    for p in parts:
        if p[0] != 'i':
            places = {}
            result.append(p)
            continue
        k, x = pair_of(p[2])
        i = places.get(k)
        if i is None:
            places[k] = len(result)
            result.append(p)
            continue
        _, g, old = result[i]
        result[i] = ('i', G(B.or_(g.b, p[1].b)),
                     pair(k, phi([(p[1].b, x),
                                  (B.and_(g.b, B.not_(p[1].b)),
                                   pair_of(old)[1])])))
    return result


def mkseq(kind, parts):
    new = []
    for p in parts:
        g = p[1] if p[0] == 'i' else p[3]
        if g.b == FALSE:
            continue
        if kind == 'str' and p[0] == 'i' and g.b == TRUE:
            v = p[2]
            if v.op == 'seq' and v.args[0] == 'str':
                for q in v.args[1]:
                    _push_str(new, q)
                continue
            _push_str(new, p)
            continue
        if p[0] != 'i' and new:
            merged = _merge_eaches(new[-1], p)
            if merged is not None:
                new[-1] = merged
                continue
        if (p[0] == 'e' and kind in ('set', 'frozenset', 'bag')
                and is_sorted(p[1])):
            e, g, v = open_(*p[1:])
            e2 = elem(sorted_of(p[1]))
            new.extend(each(e2, subst_guard(g.b, {e: e2}),
                            subst(v, {e: e2})))
            continue
        new.append(p)
    if kind == 'bag':
        new = sorted(new, key=_part_key)
    if kind == 'dict' and len(new) > 1:
        new = _last_values(new)
    if kind == 'str':
        if not new:
            return c('')
        if len(new) == 1 and is_c(new[0][2]) and new[0][1].b == TRUE:
            return new[0][2]
    if kind in ('set', 'frozenset'):
        acc = {}
        for p in new:
            if p[0] == 'i':
                acc[p[2]] = B.or_(acc.get(p[2], FALSE), p[1].b)
        new = ([('i', G(b), v) for v, b in acc.items()]
               + [p for p in new if p[0] != 'i'])
        new = sorted(set(new), key=_part_key)
        new = _merge_set_eaches(new)
    elif kind in ('list', 'tuple') and 1 < len(new) <= 8:
        new = _sort_exclusive(new)
    return mk('seq', kind, tuple(new))


def _sort_exclusive(parts):
    """Parts that are never present together may go in any order."""
    conditional = [p[0] != 'i' or p[1].b != TRUE for p in parts]
    if sum(conditional) < 2:
        return parts
    parts = list(parts)
    for _ in parts:
        swapped = False
        for i in range(len(parts) - 1):
            p, q = parts[i], parts[i + 1]
            if p[0] == 'i' and p[1].b == TRUE:
                continue
            if q[0] == 'i' and q[1].b == TRUE:
                continue
            if _part_order(p) > _part_order(q) and _exclusive(p, q):
                parts[i], parts[i + 1] = q, p
                swapped = True
        if not swapped:
            break
    return parts


def _part_order(p):
    return (p[0], p[1].id if p[0] != 'i' else 0, p[-1].id)


def _exclusive(p, q):
    guards = []
    for x in (p, q):
        if x[0] == 'i':
            guards.append(x[1].b)
        else:
            guards.append(open_(*x[1:4])[1].b)
    return B.and_(*guards) == FALSE


def _merge_set_eaches(parts):
    acc, rest = {}, []
    for p in parts:
        if p[0] == 'e':
            key = (p[1], p[4])
            acc.setdefault(key, []).append(p)
        else:
            rest.append(p)
    for key, ps in acc.items():
        if len(ps) == 1:
            rest.append(ps[0])
        else:
            b = FALSE
            e = None
            for p in ps:
                x, g, v = open_(p[1], p[2], p[3], p[4])
                if e is None:
                    e, b, val = x, g.b, v
                else:
                    b = B.or_(b, subst_guard(g.b, {x: e}))
            rest.extend(each(e, b, val))
    return sorted(set(rest), key=_part_key)


def _push_str(new, p):
    if is_c(p[2]) and cv(p[2]) == '':
        return
    if (new and is_c(p[2]) and is_c(new[-1][2]) and new[-1][1] is p[1]
            and p[1].b == TRUE):
        new[-1] = ('i', p[1], c(cv(new[-1][2]) + cv(p[2])))
    else:
        new.append(p)


def _merge_eaches(p, q):
    """Merges neighbour parts over the same sorted source."""
    if p[0] == 'i' or q[0] == 'i' or p[1] is not q[1] or p[0] != q[0]:
        return None
    th = src_theory(p[1])
    if th is None:
        return None
    return th.merge(p, q)


def seq(kind, items):
    return mkseq(kind, [('i', G(TRUE), v) for v in items])


def convert(kind, v):
    """Sequence of the given kind with the same elements."""
    return mkseq(kind, iter_parts(v))


def concat(a, b):
    return dist(_concat, a, b)


def _concat(a, b):
    if is_c(a) and is_c(b):
        try:
            return c(cv(a) + cv(b))
        except TypeError:
            return unk('concatenation')
    ka, kb = seq_kind(a), seq_kind(b)
    kind = ka or kb
    if kind is None:
        return mk('binop', '+', a, b)
    if kind == 'str':
        return str_concat([a, b])
    return mkseq(kind, iter_parts(a) + iter_parts(b))


def str_concat(vs):
    def build(*xs):
        return mkseq('str', [('i', G(TRUE), x) for x in xs])

    r = None
    # gated chunks stay inside
    return mkseq('str', [('i', G(TRUE), v) for v in vs])


def seq_kind(v):
    if v.op == 'seq':
        return v.args[0]
    if is_c(v):
        if isinstance(cv(v), str):
            return 'str'
        return None
    t = typ(v)
    if t is not None:
        if t[0] == 'seq':
            return t[2] if len(t) > 2 else 'list'
        if t == ('ext', 'str'):
            return 'str'
    return None


def length(v):
    return dist(_length, v)


def _length(v):
    if is_c(v):
        try:
            return c(len(cv(v)))
        except TypeError:
            return unk('length')
    if v.op == 'unk':
        return v
    if v.op == 'seq' and v.args[0] != 'str':
        kind, parts = v.args
        r = c(0)
        for p in parts:
            if p[0] == 'i':
                r = add(r, phi([(p[1].b, c(1)), (B.not_(p[1].b), c(0))]))
            elif p[0] == 'e':
                if kind in ('set', 'frozenset', 'dict'):
                    e, g, x = open_(p[1], p[2], p[3], p[4])
                    # keys have to be distinct
                    key = pair_of(x)[0] if kind == 'dict' else x
                    if key is not e:
                        th = src_theory(p[1])
                        if th is None or not th.distinct(e, key):
                            return mk('call', ref('builtins.len'), (v,), ())
                e, g = open_(p[1], p[2], p[3])
                r = add(r, count_of(e, g.b))
            else:
                return mk('call', ref('builtins.len'), (v,), ())
        return r
    if v.op in ('seq', 'new', 'bv', 'elem') and typ(v) is None:
        return mk('call', ref('builtins.len'), (v,), ())
    e = elem(v)
    return count_of(e, TRUE)


@rebuilder('at')
def at(v, i):
    return dist(_at, v, i)


def _at(v, i):
    if v.op == 'unk':
        return v
    if is_c(i) and isinstance(cv(i), (bool, int)):
        i = c(int(cv(i)))
    if v.op == 'seq' and v.args[0] not in ('dict', 'set', 'frozenset', 'str'):
        kind, parts = v.args
        if is_c(i) and isinstance(cv(i), int):
            n = cv(i)
            if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
                if -len(parts) <= n < len(parts):
                    return parts[n][2]
                return unk('index is out of range')
            if n >= 0 and len(parts) > n and all(
                    p[0] == 'i' and p[1].b == TRUE for p in parts[:n + 1]):
                return parts[n][2]
            if n < 0 and len(parts) >= -n and all(
                    p[0] == 'i' and p[1].b == TRUE for p in parts[n:]):
                return parts[n][2]
            if n == 0:
                # first part that is present
                cases, remaining = [], TRUE
                for p in parts:
                    if p[0] == 'i':
                        cases.append((B.and_(remaining, p[1].b), p[2]))
                        remaining = B.and_(remaining, B.not_(p[1].b))
                    else:
                        if p[0] == 'f':
                            return mk('at', v, i)
                        e, g, x = open_(*p[1:])
                        hit = exists(e, g.b)
                        if hit != FALSE:
                            cases.append((B.and_(remaining, hit),
                                          first_of(e, g.b, x)))
                            remaining = B.and_(remaining, B.not_(hit))
                    if remaining == FALSE:
                        break
                return phi(cases)
            if n == -1 and len(parts) > 1 and all(p[0] == 'i'
                                                  for p in parts):
                # last part that is present
                cases, remaining = [], TRUE
                for p in reversed(parts):
                    cases.append((B.and_(remaining, p[1].b), p[2]))
                    remaining = B.and_(remaining, B.not_(p[1].b))
                return phi(cases)
            if n == -1 and len(parts) == 1 and parts[0][0] == 'e':
                e, g, x = open_(*parts[0][1:])
                return last_of(e, g.b, x)
        if len(parts) == 1 and parts[0][0] == 'e':
            e, g, x = open_(*parts[0][1:])
            if g.b == TRUE:
                # mapping of the whole source
                return subst(x, {e: at(e.args[0], i)})
            if i.op == 'rank' and i.args[0] is e.args[0]:
                e2, g2 = open_(i.args[0], i.args[2], i.args[3])
                if subst_guard(g2.b, {e2: e}) == g.b:
                    return subst(x, {e: i.args[1]})
        return mk('at', v, i)
    if i.op == 'rank' and i.args[0] is v and i.args[3].b == TRUE:
        return i.args[1]
    if is_c(v) and is_c(i):
        try:
            return c(cv(v)[cv(i)])
        except Exception:
            return unk('index')
    if is_c(i) and cv(i) == 0:
        e = elem(v)
        return first_of(e, TRUE, e)
    if is_c(i) and cv(i) == -1:
        e = elem(v)
        return last_of(e, TRUE, e)
    return mk('at', v, i)


@rebuilder('first')
def _(src, h, g, v):
    e, g, v = open_(src, h, g, v)
    return first_of(e, g.b, v)


def first_of(e, g, v):
    """Value for the first element satisfying the condition."""
    src = e.args[0]
    if e not in fv(v):
        return v
    if src.op in ('seq', 'phi'):
        return at(mkseq('list', each(e, g, v)), c(0))
    for a in B.support(g):
        if e not in fv(a):
            return phi([(B.var(a), first_of(e, B.cofactor(g, a, True), v)),
                        (B.not_(B.var(a)),
                         first_of(e, B.cofactor(g, a, False), v))])
    if g == FALSE:
        return unk('element of an empty collection')
    for a in B.support(g):
        if a.op == '@same' and e in a.args and B.cofactor(
                g, a, False) == FALSE:
            return the(e, g, v)
    g = _drop_first(e, g)
    point = _point(e, g)
    if point is not None:
        return subst(v, {e: point})
    h, gc, = close(e, G(g))
    chosen = mk('sel', src, h, gc)
    return subst(v, {e: chosen})


@rebuilder('last')
def _(src, h, g, v):
    e, g, v = open_(src, h, g, v)
    return last_of(e, g.b, v)


def last_of(e, g, v):
    src = e.args[0]
    if e not in fv(v):
        return v
    if src.op in ('seq', 'phi'):
        return mk('at', mkseq('list', each(e, g, v)), c(-1))
    for a in B.support(g):
        if e not in fv(a):
            return phi([(B.var(a), last_of(e, B.cofactor(g, a, True), v)),
                        (B.not_(B.var(a)),
                         last_of(e, B.cofactor(g, a, False), v))])
    if g == FALSE:
        return unk('element of an empty collection')
    point = _point(e, g)
    if point is not None:
        return subst(v, {e: point})
    h, gc = close(e, G(g))
    chosen = mk('lastsel', src, h, gc)
    return subst(v, {e: chosen})


@rebuilder('sel')
def _(src, h, g):
    e, g = open_(src, h, g)
    return first_of(e, g.b, e)


@rebuilder('lastsel')
def _(src, h, g):
    e, g = open_(src, h, g)
    return last_of(e, g.b, e)


@rebuilder('prev')
def prev(e):
    if e.op == 'elem':
        return mk('prev', e)
    return mk('prev', e)


def slice_(v, lo, hi):
    """v[lo:hi] with optional bounds."""
    def leaf(x, lo_, hi_):
        return _slice(x, None if lo_ is NONE else lo_,
                      None if hi_ is NONE else hi_)

    return dist(leaf, v, lo if lo is not None else NONE,
                hi if hi is not None else NONE)


def _raw_slice(v, lo, hi):
    return mk('slice', v, lo if lo is not None else NONE,
              hi if hi is not None else NONE)


@rebuilder('slice')
def _(v, lo, hi):
    return slice_(v, lo, hi)


def _neg(i):
    return i is not None and is_c(i) and isinstance(cv(i), int) and cv(i) < 0


def at_least(conditions, n):
    """Whether so many of the conditions hold."""
    row = [TRUE] + [FALSE] * n
    for b in conditions:
        row = [TRUE] + [B.or_(row[k], B.and_(row[k - 1], b))
                        for k in range(1, n + 1)]
    return row[n]


def _slice(v, lo, hi):
    if v.op == 'unk':
        return v
    if is_c(lo or NONE) and lo is not None and cv(lo) == 0:
        lo = None
    if lo is None and hi is None:
        if v.op == 'seq':
            return v
        kind = seq_kind(v)
        if kind is None or kind in ('str', 'tuple'):
            return v
        return mkseq(kind, iter_parts(v))
    if is_c(v):
        if ((lo is None or is_c(lo)) and (hi is None or is_c(hi))):
            try:
                return c(cv(v)[(cv(lo) if lo is not None else None):
                               (cv(hi) if hi is not None else None)])
            except Exception:
                return unk('slice')
        return _raw_slice(v, lo, hi)
    kind = seq_kind(v)
    if kind is None or kind == 'str':
        return _raw_slice(v, lo, hi)
    parts = iter_parts(v)
    if all(p[0] == 'i' and p[1].b == TRUE for p in parts):
        if ((lo is None or is_c(lo)) and (hi is None or is_c(hi))):
            return mkseq(kind, parts[(cv(lo) if lo is not None else None):
                                     (cv(hi) if hi is not None else None)])
    # definite items on the edges
    if lo is not None and is_c(lo) and cv(lo) > 0 and hi is None:
        n = cv(lo)
        if len(parts) >= n and all(p[0] == 'i' and p[1].b == TRUE
                                   for p in parts[:n]):
            return mkseq(kind, parts[n:])
    if hi is not None and _neg(hi) and lo is None:
        n = -cv(hi)
        if len(parts) >= n and all(p[0] == 'i' and p[1].b == TRUE
                                   for p in parts[-n:]):
            return mkseq(kind, parts[:-n])
    if all(p[0] == 'i' for p in parts) and all(
            x is None or is_c(x) for x in (lo, hi)) and len(parts) < 40:
        new = []
        for i, p in enumerate(parts):
            before = [q[1].b for q in parts[:i]]
            after = [q[1].b for q in parts[i + 1:]]
            b = p[1].b
            if lo is not None:
                n = cv(lo)
                b = B.and_(b, at_least(before, n) if n >= 0
                           else B.not_(at_least(after, -n)))
            if hi is not None:
                n = cv(hi)
                b = B.and_(b, B.not_(at_least(before, n)) if n >= 0
                           else at_least(after, -n))
            if b != FALSE:
                new.append(('i', G(b), p[2]))
        return mkseq(kind, new)
    if len(parts) == 1 and parts[0][0] == 'e' and not _neg(lo) and not _neg(
            hi):
        src, h, g, x = parts[0][1:]
        e, g, x = open_(src, h, g, x)
        e2 = elem(src)
        rank = rank_of(e, e2, subst_guard(g.b, {e: e2}))
        cond = g.b
        if hi is not None:
            cond = B.and_(cond, lt(rank, hi))
        if lo is not None:
            cond = B.and_(cond, B.not_(lt(rank, lo)))
        return mkseq(kind, each(e, cond, x))
    if not parts:
        return mkseq(kind, [])
    return _raw_slice(v, lo, hi)


# --- text of nodes

def show_guard(b, depth=6):
    if b == TRUE:
        return 'true'
    if b == FALSE:
        return 'false'
    terms = []

    def go(n, lits):
        if len(terms) > 8:
            return
        if n == 1:
            terms.append(' & '.join(lits) or 'true')
            return
        if n == 0:
            return
        var, low, high = B.nodes[n]
        a = B.atoms[var]
        go(high, lits + [show(a, depth)])
        go(low, lits + ['!' + show(a, depth)])

    go(b, [])
    return ' | '.join(terms[:8]) + (' | ...' if len(terms) > 8 else '')


def show(v, depth=6):
    if isinstance(v, G):
        return '{' + show_guard(v.b, depth) + '}'
    if isinstance(v, tuple):
        return '(' + ', '.join(show(a, depth) for a in v) + ')'
    if not isinstance(v, V):
        return getattr(v, 'qualname', None) or str(v)
    if depth <= 0:
        return '..'
    op, args = v.op, v.args
    if op == 'c':
        return repr(args[1])
    if op in ('sym', 'ref'):
        return str(args[0])
    if op == 'elem':
        return f'e{args[1]}<{show(args[0], depth - 2)}>'
    if op == 'bv':
        return f'#{args[0]}'
    if op == 'attr':
        return f'{show(args[0], depth - 1)}.{args[1]}'
    if op == 'member':
        return f'{args[1]}'
    if op == 'cls' or op == 'func':
        return str(getattr(args[0], 'qualname', args[0]))
    if op == 'phi':
        return 'phi(' + '; '.join(
            f'{show_guard(g.b, depth - 1)} -> {show(x, depth - 1)}'
            for g, x in args[0]) + ')'
    if op == 'seq':
        def part(p):
            if p[0] == 'i':
                return ((f'[{show_guard(p[1].b, depth - 1)}] '
                         if p[1].b != TRUE else '')
                        + show(p[2], depth - 1))
            return (('*' if p[0] == 'f' else '')
                    + f'each(#{int(p[2])} in {show(p[1], depth - 1)}'
                    + (f' if {show_guard(p[3].b, depth - 1)}'
                       if p[3].b != TRUE else '')
                    + f': {show(p[4], depth - 1)})')

        return f'{args[0]}<' + ', '.join(part(p) for p in args[1]) + '>'
    if op == 'call':
        return (f'{show(args[0], depth - 1)}('
                + ', '.join([show(a, depth - 1) for a in args[1]]
                            + [f'{k}={show(a, depth - 1)}'
                               for k, a in args[2]]) + ')')
    if op == 'new':
        return (f'new {args[0].name}('
                + ', '.join(f'{k}={show(a, depth - 1)}' for k, a in args[1])
                + ')')
    return f'{op}(' + ', '.join(show(a, depth - 1) for a in args) + ')'
