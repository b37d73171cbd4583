"""Equivalence of values under conditions.

Conditions are decided by partitioning elements of every quantified collection
into classes that the conditions tell apart, together with the facts that are
known about well-formed parameters.
"""
from . import domain, val
from .val import (B, FALSE, G, TRUE, V, elem, fv, is_c, leaves, mk, phi,
                  show, show_guard, subst, subst_guard)

MAX_CLASSES = 400


class TooHard(Exception):
    pass


def with_elem(h, g, e):
    return subst_guard(g.b, {mk('bv', int(h)): e})


class Facts:
    """Assumptions that hold everywhere in a comparison."""

    def __init__(self, axioms=()):
        self.axioms = list(axioms)     # guards
        self.by_element = []           # functions: (e) -> guard


def exists_atoms(b):
    """Quantified atoms by their sources."""
    plain, earlier, other = {}, {}, []
    for a in B.support(b):
        if a.op != '@E':
            continue
        plain.setdefault(a.args[0], []).append(a)
    return plain


def scope_elements(b, sources):
    """Elements whose properties occur in the condition."""
    result = {}
    for a in B.support(b):
        if a.op == '@E':
            # elements earlier ones are compared with
            for x in fv(a):
                if x.op == 'elem':
                    result.setdefault(x, x.args[0])
            continue
        for x in val.nodes_in(a):
            if x.op in ('elem', 'sel', 'lastsel') and not bound_inside(x):
                result.setdefault(x, x.args[0])
    return result


def bound_inside(x):
    # nodes with dangling bound variables belong to quantified bodies
    return any(True for y in _bvs(x))


def _bvs(x):
    if x.op in ('sel', 'lastsel'):
        inner = int(x.args[1])
        return [y for y in fv(x) if y.op == 'bv' and y.args[0] != inner]
    return [y for y in fv(x) if y.op == 'bv']


class Partition:
    """Classes of elements of a collection the conditions tell apart."""

    def __init__(self, src, atoms, elements, d, facts):
        self.src, self.elements = src, elements
        self.theory = th = val.src_theory(src)
        x = elem(src)
        self.plain, self.earlier = [], []
        tests = []
        for a in sorted(atoms, key=lambda v: v.id):
            body = with_elem(a.args[1], a.args[2], x)
            before = [t for t in B.support(body) if t.op == '@before'
                      and t.args[0] is x]
            if len(before) == 1 and B.cofactor(
                    body, before[0], False) == FALSE:
                self.earlier.append((a, len(tests), before[0].args[1]))
                tests.append(B.cofactor(body, before[0], True))
            else:
                self.plain.append((a, len(tests)))
                tests.append(body)
        axioms = TRUE
        for f in facts.by_element:
            r = f(x)
            if r is not None:
                axioms = B.and_(axioms, r)
        self.labels = {}
        labels = []
        if th is not None:
            labels = th.labels(x, d, tests)
            axioms = B.and_(axioms, th.element_axioms(x))
        # what is known about elements of the scope
        vector = list(tests)
        for key, g in labels:
            self.labels[key] = len(vector)
            vector.append(g)
        self.classes = reachable(vector, axioms)
        if len(self.classes) > MAX_CLASSES:
            raise TooHard(f'{len(self.classes)} classes of elements')
        self.all = (1 << len(self.classes)) - 1
        self.masks = [sum(1 << j for j, c_ in enumerate(self.classes)
                          if c_[i]) for i in range(len(vector))]
        self.members = {}
        for e in elements:
            tests_e = [subst_guard(t, {x: e}) for t in vector]
            ax = subst_guard(axioms, {x: e})
            row = []
            for c_ in self.classes:
                r = ax
                for t, bit in zip(tests_e, c_):
                    r = B.and_(r, t if bit else B.not_(t))
                    if r == FALSE:
                        break
                row.append(r)
            self.members[e] = row
        self.selected = {}
        for e in elements:
            if e.op in ('sel', 'lastsel'):
                self.selected[e] = val.exists(
                    x, with_elem(e.args[1], e.args[2], x))
        if th is not None and self.labels:
            self.conflicts, self.precedes = th.conflicts(self)
            self.rules = th.rules(self, d)
        else:
            n = len(self.classes)
            self.conflicts = [0] * n
            self.precedes = [self.all] * n
            self.rules = []

    def mask(self, key):
        return self.masks[self.labels[key]]

    def describe(self, i):
        c_ = self.classes[i]
        if not self.labels:
            return str(c_)
        return self.theory.describe({k: c_[j]
                                     for k, j in self.labels.items()})

    def consistent(self, model, order):
        """Whether elements can be chosen to meet the assignment."""
        forbidden, required = 0, []
        for a, i in self.plain:
            v = model.get(a)
            if v is False:
                forbidden |= self.masks[i]
            elif v is True:
                required.append(self.masks[i])
        f2, r2, cases = 0, [], [(0, ())]
        for rule in self.rules:
            options = rule(model)
            if not options:
                return None
            cases = [(f | f3, r + tuple(r3)) for f, r in cases
                     for f3, r3 in options]
        for f3, r3 in cases:
            r = self.choose(model, order, forbidden | f3,
                            required + list(r3))
            if r is not None:
                return r
        return None

    def choose(self, model, order, forbidden, required):
        allowed = self.all & ~forbidden
        if any(not (m & allowed) for m in required):
            return None
        elements = []
        for e in self.elements:
            if e in self.selected and evaluate(self.selected[e],
                                               model) is not True:
                continue
            literals = TRUE
            for a, v in model.items():
                if involves(a, e):
                    literals = B.and_(literals, B.var(a) if v
                                      else B.not_(B.var(a)))
            mask = 0
            for j, m in enumerate(self.members[e]):
                if (allowed >> j) & 1 and B.and_(m, literals) != FALSE:
                    mask |= 1 << j
            if not mask:
                return None
            elements.append((e, mask))
        forbid_b, require_b = {}, {}
        for a, i, other in self.earlier:
            v = model.get(a)
            if v is False:
                forbid_b[other] = forbid_b.get(other, 0) | self.masks[i]
            elif v is True:
                require_b.setdefault(other, []).append(self.masks[i])
        pairs = [(a.args[0], a.args[1]) for a, v in model.items()
                 if a.op == '@before' and v is True
                 and a.args[0] in self.members
                 and a.args[1] in self.members]
        if any((y, x) in pairs for x, y in pairs):
            return None

        def bits(mask):
            while mask:
                low = mask & -mask
                yield low.bit_length() - 1
                mask ^= low

        def place(k, allowed, chosen):
            if k == len(elements):
                return place_earlier(allowed, chosen)
            e, mask = elements[k]
            for j in bits(mask & allowed):
                new = dict(chosen)
                new[e] = j
                r = place(k + 1, allowed & ~self.conflicts[j], new)
                if r is not None:
                    return r
            return None

        def place_earlier(allowed, chosen):
            limits = {}
            for e, j in chosen.items():
                limits[e] = self.precedes[j] & ~forbid_b.get(e, 0)
            # whatever precedes an element precedes the following ones
            for _ in pairs:
                for x, y in pairs:
                    if x in limits and y in limits:
                        limits[x] &= limits[y]
            for x, y in pairs:
                if x in chosen and y in chosen:
                    if not (limits[y] >> chosen[x]) & 1:
                        return None
            needs = list(required)
            for e, ms in require_b.items():
                for m in ms:
                    needs.append(m & limits.get(e, self.all))
            return satisfy(needs, allowed, chosen, ())

        def satisfy(needs, allowed, chosen, picked):
            live = []
            for m in needs:
                if any((m >> j) & 1 for j in picked) or any(
                        (m >> j) & 1 for j in chosen.values()):
                    # a chosen element of the class will do; elements of
                    # the scope may be the required ones as well
                    continue
                if not m & allowed:
                    return None
                live.append(m)
            if not live:
                return chosen, picked
            m = min(live, key=lambda m: bin(m & allowed).count('1'))
            for j in bits(m & allowed):
                r = satisfy(live, allowed & ~self.conflicts[j], chosen,
                            picked + (j,))
                if r is not None:
                    return r
            return None

        return place(0, allowed, {})


def involves(a, e):
    key = (a, e)
    r = _involves.get(key)
    if r is None:
        r = _involves[key] = e in val.nodes_in(a)
    return r


_involves = {}


def evaluate(b, model):
    """Value of the condition under a partial assignment."""
    while b > 1:
        var, low, high = B.nodes[b]
        a = B.atoms[var]
        v = model.get(a)
        if v is None:
            l, h = evaluate(low, model), evaluate(high, model)
            return l if l is h else None
        b = high if v else low
    return b == TRUE


class Problem:
    """Satisfiability of a condition."""

    def __init__(self, d, facts):
        self.facts, self.d = facts, d
        self.checks = 0

    def solve(self):
        d = self.d
        for b in self.facts.axioms:
            d = B.and_(d, b)
        d = B.and_(d, known_relations(d))
        if d == FALSE:
            return None
        elements = scope_elements(d, None)
        for e in list(elements):
            for f in self.facts.by_element:
                b = f(e)
                if b is not None:
                    d = B.and_(d, b)
            if e.op == 'sel':
                x = elem(e.args[0])
                g = with_elem(e.args[1], e.args[2], x)
                own = with_elem(e.args[1], e.args[2], e)
                d = B.and_(d, B.or_(B.not_(val.exists(x, g)), own))
        if d == FALSE:
            return None
        by_source = exists_atoms(d)
        for e, src in elements.items():
            by_source.setdefault(src, [])
        partitions = []
        for src in sorted(by_source, key=lambda s: s.id):
            own = [e for e, s in elements.items() if s is src]
            if not by_source[src] and val.src_theory(src) is None:
                continue
            partitions.append(Partition(src, by_source[src], own, d,
                                        self.facts))
        self.partitions = partitions
        return self.search(d)

    def search(self, d):
        model = {}

        def leaf():
            self.checks += 1
            if self.checks > 20000:
                raise TooHard('too many cases')
            notes = []
            for p in self.partitions:
                r = p.consistent(model, None)
                if r is None:
                    return None
                notes.append((p, r))
            return dict(model), notes

        def go(b):
            if b == FALSE:
                return None
            if b == TRUE:
                return leaf()
            var, low, high = B.nodes[b]
            a = B.atoms[var]
            for v, nxt in ((True, high), (False, low)):
                if nxt == FALSE:
                    continue
                model[a] = v
                if a.op == '@E' and nxt != TRUE and not self.quick(model):
                    del model[a]
                    continue
                r = go(nxt)
                if r is not None:
                    return r
                del model[a]
            return None

        return go(d)

    def quick(self, model):
        for p in self.partitions:
            forbidden, required = 0, []
            for a, i in p.plain:
                v = model.get(a)
                if v is False:
                    forbidden |= p.masks[i]
                elif v is True:
                    required.append(p.masks[i])
            if any(not m & ~forbidden for m in required):
                return False
        return True


def known_relations(d):
    """What holds for classes and constants whatever the program does."""
    result = TRUE
    classes, constants, pairs = {}, {}, {}
    for a in B.support(d):
        if a.op == '@isinst' and a.args[1].op == 'ref':
            k = external_class(a.args[1].args[0])
            if k is not None:
                classes.setdefault(a.args[0], []).append((a, k))
        elif a.op in ('@is', '@eq') and len(a.args) == 2:
            x, y = a.args
            if not isinstance(x, V) or not isinstance(y, V):
                continue
            pairs[a.op, x, y] = pairs[a.op, y, x] = a
            for x, y in ((x, y), (y, x)):
                if is_c(x) and not is_c(y):
                    constants.setdefault((a.op, y), []).append(
                        (a, val.cv(x)))
    for found in classes.values():
        for i, (a, k) in enumerate(found):
            for b, m in found[:i]:
                if issubclass(k, m):
                    result = B.and_(result, implies(a, b))
                elif issubclass(m, k):
                    result = B.and_(result, implies(b, a))
                elif disjoint(k, m):
                    result = B.and_(result, never_both(a, b))
    for (op, x), found in constants.items():
        for i, (a, v) in enumerate(found):
            for b, w in found[:i]:
                if v is not w if op == '@is' else v != w:
                    result = B.and_(result, never_both(a, b))
            if op == '@is':
                for b, k in classes.get(x, ()):
                    result = B.and_(result, implies(a, b)
                                    if isinstance(v, k)
                                    else never_both(a, b))
    for (op, x, y), a in pairs.items():
        for (op2, y2, z), b in pairs.items():
            if op is op2 and y is y2 and x is not z and a is not b:
                third = pairs.get((op, x, z))
                if third is not None:
                    result = B.and_(result, B.not_(B.and_(
                        B.and_(B.var(a), B.var(b)), B.not_(B.var(third)))))
    return result


def implies(a, b):
    return B.or_(B.not_(B.var(a)), B.var(b))


def never_both(a, b):
    return B.not_(B.and_(B.var(a), B.var(b)))


def external_class(dotted):
    from .calls import ext_class
    return ext_class(dotted)


_disjoint = {}


def disjoint(k, m):
    """Whether no class can be derived from both."""
    if (k, m) not in _disjoint:
        try:
            type('_', (k, m), {})
        except TypeError as error:
            _disjoint[k, m] = ('lay-out conflict' in str(error)
                               or 'acceptable base' in str(error))
        except Exception:
            _disjoint[k, m] = False
        else:
            _disjoint[k, m] = False
    return _disjoint[k, m]


def reachable(vector, axioms):
    """Combinations of truth values the conditions can take together."""
    memo = {}

    def go(vec):
        if vec[-1] == FALSE:
            return frozenset()
        if all(b < 2 for b in vec):
            return frozenset([vec[:-1]])
        r = memo.get(vec)
        if r is None:
            top = min(B.nodes[b][0] for b in vec)
            low = tuple([B.nodes[b][1] if B.nodes[b][0] == top else b
                         for b in vec])
            high = tuple([B.nodes[b][2] if B.nodes[b][0] == top else b
                          for b in vec])
            r = go(low) | go(high)
            memo[vec] = r
        return r

    return sorted(go(tuple(vector) + (axioms,)))


_feasible_cache = {}


def feasible(d, facts):
    """Some assignment satisfying the condition, if there is any."""
    if d == FALSE:
        return None
    key = (d, id(facts), tuple(facts.axioms), domain.PARAMETERS)
    if key not in _feasible_cache:
        _feasible_cache[key] = Problem(d, facts).solve()
    return _feasible_cache[key]


def witness(m):
    """Text of an assignment."""
    model, notes = m
    lines = []
    for a, v in model.items():
        if a.op in ('@E', '@fin', '@before'):
            if a.op != '@E':
                continue
            if any(a is x for p, _ in notes for x, _ in p.plain) and any(
                    p.labels for p, _ in notes if p.src is a.args[0]):
                continue
        lines.append(('' if v else 'not ') + show(a, 7))
    for p, (chosen, picked) in notes:
        for e, j in chosen.items():
            lines.append(f'element of {show(p.src)}: {p.describe(j)}')
        for j in sorted(set(picked)):
            lines.append(f'some of {show(p.src)}: {p.describe(j)}')
    return lines


# --- structural comparison

class Mismatch:
    def __init__(self, guard, left, right, path, why=''):
        self.guard, self.left, self.right = guard, left, right
        self.path, self.why = path, why

    def __repr__(self):
        return f'{"/".join(self.path)}: {self.why}'


class Comparison:
    """Compares values found in the program with the specified ones."""

    def __init__(self, facts=None, limit=40):
        self.facts = facts or Facts()
        self.mismatches = []
        self.undecided = []
        self.limit = limit
        self.done = set()

    def feasible(self, d):
        try:
            return feasible(d, self.facts)
        except TooHard as error:
            self.undecided.append(str(error))
            return None

    def fail(self, care, a, b, path, why=''):
        if self.feasible(care) is None:
            return
        if len(self.mismatches) < self.limit:
            self.mismatches.append(Mismatch(care, a, b, path, why))

    def guards(self, f, g, care, path, what):
        """Conditions have to be equivalent."""
        d = B.and_(care, B.not_(B.iff(f, g)))
        if d == FALSE:
            return
        if self.feasible(d) is not None:
            if len(self.mismatches) < self.limit:
                self.mismatches.append(
                    Mismatch(d, G(f), G(g), path, what))

    def values(self, a, b, care=TRUE, path=()):
        if a is b or care == FALSE:
            return
        key = (a, b, care)
        if key in self.done:
            return
        self.done.add(key)
        if len(self.mismatches) >= self.limit:
            return
        if a.op == 'phi' or b.op == 'phi':
            if bool_leaves(a) and bool_leaves(b):
                self.guards(val.truth(a), val.truth(b), care, path,
                            'conditions differ')
                return
            for ga, xa in leaves(a):
                ca = B.and_(care, ga)
                if ca == FALSE:
                    continue
                for gb, xb in leaves(b):
                    cond = B.and_(ca, gb)
                    if cond == FALSE or xa is xb:
                        continue
                    if self.feasible(cond) is None:
                        continue
                    self.values(val.restrict(xa, cond),
                                val.restrict(xb, cond), cond, path)
            return
        self.leaf(a, b, care, path)

    def leaf(self, a, b, care, path):
        if is_bool_like(a) and is_bool_like(b):
            return self.guards(val.truth(a), val.truth(b), care, path,
                               'conditions differ')
        a, b = expand(a, b), expand(b, a)
        if a is b:
            return
        if a.op == 'new' and b.op == 'new' and a.args[0] is b.args[0]:
            fa, fb = dict(a.args[1]), dict(b.args[1])
            for n in sorted(set(fa) | set(fb)):
                self.values(fa.get(n, val.ABSENT), fb.get(n, val.ABSENT),
                            care, path + (n,))
            return
        sa, sb = as_seq(a, b), as_seq(b, a)
        if sa is not None and sb is not None:
            if sa.args[0] != sb.args[0]:
                return self.fail(care, a, b, path, 'kinds of collections')
            if sa.args[0] in ('set', 'frozenset'):
                return self.sets(sa, sb, care, path)
            return self.seqs(sa.args[0], list(sa.args[1]),
                             list(sb.args[1]), care, path)
        if a.op == b.op and len(a.args) == len(b.args):
            if a.op == 'call':
                return self.calls(a, b, care, path)
            if a.op in ('attr',) and a.args[1] == b.args[1]:
                return self.values(a.args[0], b.args[0], care,
                                   path + ('.' + a.args[1],))
            if a.op in ('sel', 'lastsel') and a.args[0] is b.args[0]:
                x = elem(a.args[0])
                ga = with_elem(a.args[1], a.args[2], x)
                gb = with_elem(b.args[1], b.args[2], x)
                return self.guards(ga, gb, care, path, 'selection differs')
            if a.op in ('getitem', 'at', 'prev', 'raise', 'exc', 'slice',
                        'splat', 'binop', 'unop', 'bm', 'partialv',
                        'entered', 'kwsplat'):
                if all(isinstance(x, V) == isinstance(y, V)
                       for x, y in zip(a.args, b.args)) and all(
                        x == y for x, y in zip(a.args, b.args)
                        if not isinstance(x, (V, tuple))):
                    for x, y in zip(a.args, b.args):
                        if isinstance(x, V):
                            self.values(x, y, care, path + (a.op,))
                    return
            if a.op == 'lin':
                return self.guards(val.eq(a, b), TRUE, care, path,
                                   'numbers differ')
        if val.is_int(a) and val.is_int(b):
            return self.guards(val.eq(a, b), TRUE, care, path,
                               'numbers differ')
        self.fail(care, a, b, path, 'values differ')

    def calls(self, a, b, care, path):
        fa, fb = a.args[0], b.args[0]
        if fa is not fb:
            if fa.op != 'phi' and fb.op != 'phi' and (
                    fa.op != fb.op or fa.op not in ('attr', 'bm')):
                return self.fail(care, a, b, path, 'calls differ')
            self.values(fa, fb, care, path + ('callee',))
        name = show(fa, 2)
        pa, pb = call_parts(a.args[1]), call_parts(b.args[1])
        self.seqs('tuple', pa, pb, care, path + (name,))
        ka, kb = dict(a.args[2]), dict(b.args[2])
        for k in sorted(set(ka) | set(kb)):
            if k not in ka or k not in kb:
                x = ka.get(k, val.ABSENT)
                y = kb.get(k, val.ABSENT)
                self.values(x, y, care, path + (f'{name}({k}=)',))
                continue
            self.values(ka[k], kb[k], care, path + (f'{name}({k}=)',))

    # --- collections

    def seqs(self, kind, pa, pb, care, path):
        pa = self.prune(pa, care)
        pb = self.prune(pb, care)
        if kind == 'str':
            while pa and pb and same_part(pa[0], pb[0]):
                pa, pb = pa[1:], pb[1:]
            while pa and pb and same_part(pa[-1], pb[-1]):
                pa, pb = pa[:-1], pb[:-1]
        if len(pa) == len(pb) and all(similar(p, q)
                                      for p, q in zip(pa, pb)) and (
                kind != 'str' or split_atom(pa) is split_atom(pb) is None):
            n, m = len(self.mismatches), len(self.undecided)
            for i, (p, q) in enumerate(zip(pa, pb)):
                self.parts(p, q, care, path + (f'[{i}]',))
            if len(self.mismatches) == n or all(
                    p[1].b == q[1].b for p, q in zip(pa, pb)
                    if p[0] == 'i'):
                return
            # parts that exclude each other may be in different orders
            if split_atom(pa) is None and split_atom(pb) is None:
                return
            del self.mismatches[n:], self.undecided[m:]
        # splitting by a condition that governs some part
        atom = split_atom(pa) or split_atom(pb)
        if atom is not None:
            for value in (True, False):
                lit = B.var(atom) if value else B.not_(B.var(atom))
                sub = B.and_(care, lit)
                if sub == FALSE or self.feasible(sub) is None:
                    continue
                self.seqs(kind, cofactor_parts(kind, pa, atom, value),
                          cofactor_parts(kind, pb, atom, value), sub, path)
            return
        # common beginnings and ends
        while pa and pb and same_part(pa[0], pb[0]):
            pa, pb = pa[1:], pb[1:]
        while pa and pb and same_part(pa[-1], pb[-1]):
            pa, pb = pa[:-1], pb[:-1]
        if not pa and not pb:
            return
        if len(pa) == len(pb) and all(similar(p, q)
                                      for p, q in zip(pa, pb)):
            for i, (p, q) in enumerate(zip(pa, pb)):
                self.parts(p, q, care, path + (f'[{i}]',))
            return
        ma, mb = self.merge(pa, care), self.merge(pb, care)
        if len(ma) < len(pa) or len(mb) < len(pb):
            return self.seqs(kind, ma, mb, care, path)
        self.fail(care, val.mk('seq', kind, tuple(pa)),
                  val.mk('seq', kind, tuple(pb)), path, 'elements differ')

    def merge(self, parts, care):
        """Joins neighbour parts over the same source in its order."""
        result = []
        for q in parts:
            if result and result[-1][0] == 'e' and q[0] == 'e' and (
                    result[-1][1] is q[1]):
                p = result[-1]
                e1, g1, v1 = val.open_(*p[1:])
                e2, g2, v2 = val.open_(*q[1:])
                wrong = B.and_(care, g1.b, g2.b, val.before(e2, e1))
                g2b = subst_guard(g2.b, {e2: e1})
                both = B.and_(care, g1.b, g2b)
                if self.feasible(wrong) is None and self.feasible(
                        both) is None:
                    v2 = subst(v2, {e2: e1})
                    g = B.or_(g1.b, g2b)
                    merged = val.each(e1, g, val.restrict(
                        phi([(g1.b, v1), (B.and_(g2b, B.not_(g1.b)), v2)]),
                        g))
                    if len(merged) == 1:
                        result[-1] = merged[0]
                        continue
            result.append(q)
        return result

    def prune(self, parts, care):
        result = []
        for p in parts:
            if p[0] == 'i':
                g = val.constrain(p[1].b, care)
                if g != p[1].b:
                    p = ('i', G(g), p[2])
                if B.and_(g, care) == FALSE or (
                        g != TRUE and self.feasible(
                            B.and_(g, care)) is None):
                    continue
            else:
                e, g, v = val.open_(*p[1:])
                if self.feasible(B.and_(g.b, care)) is None:
                    continue
            result.append(p)
        return result

    def parts(self, p, q, care, path):
        if p[0] == 'i':
            self.guards(p[1].b, q[1].b, care, path, 'presence differs')
            self.values(p[2], q[2],
                        B.and_(care, p[1].b, q[1].b), path)
            return
        e, g, v = val.open_(*p[1:])
        g2 = with_elem(q[2], q[3], e)
        v2 = subst(q[4], {mk('bv', int(q[2])): e})
        care = B.and_(care, val.nonempty(e.args[0]))
        self.guards(g.b, g2, care, path, 'selected elements differ')
        self.values(v, v2, B.and_(care, g.b, g2), path + ('each',))

    def sets(self, a, b, care, path):
        pa, pb = self.prune(a.args[1], care), self.prune(b.args[1], care)
        if len(pa) == len(pb) and all(similar(p, q)
                                      for p, q in zip(pa, pb)):
            for p, q in zip(pa, pb):
                self.parts(p, q, care, path)
            return
        self.fail(care, a, b, path, 'members differ')


def bool_leaves(v):
    return all(is_bool_like(x) for _, x in leaves(v))


def is_bool_like(v):
    return (is_c(v) and isinstance(val.cv(v), bool)
            or val.typ(v) == ('ext', 'bool'))


def as_seq(a, other):
    if a.op == 'seq':
        return a
    if other.op == 'seq' and other.args[0] == 'str':
        # a text made of a single chunk
        return val.mk('seq', 'str', (('i', G(TRUE), a),))
    if other.op == 'seq' and val.seq_kind(a) == other.args[0]:
        return val.mk('seq', other.args[0], tuple(val.iter_parts(a)))
    return None


def expand(a, other):
    """Well-formed objects are what their constructors make."""
    th = domain.PARAMETERS
    if (th is not None and other.op == 'call' and a.op != 'call'
            and other.args[0] is mk('cls', th.signature)
            and val.typ(a) == ('cls', th.signature)):
        return mk('call', other.args[0],
                  (mk('splat', val.attr(a, th.field)),),
                  (('returns', domain.INTERP.getattr_(a, 'returns')),))
    return a


def call_parts(args):
    result = []
    for x in args:
        if x.op == 'splat':
            result.extend(val.iter_parts(x.args[0]))
        else:
            result.append(('i', G(TRUE), x))
    return result


def similar(p, q):
    if p[0] != q[0]:
        return False
    if p[0] == 'i':
        # texts are compared chunk by chunk
        return True
    return p[1] is q[1]


def same_part(p, q):
    return p == q


def split_atom(parts):
    for p in parts:
        if p[0] == 'i':
            if p[1].b != TRUE:
                return min(B.support(p[1].b), key=lambda a: a.id)
            if p[2].op == 'phi':
                for g, _ in p[2].args[0]:
                    if g.b > 1:
                        return min(B.support(g.b), key=lambda a: a.id)
    return None


def cofactor_parts(kind, parts, atom, value):
    lit = B.var(atom) if value else B.not_(B.var(atom))
    result = []
    for p in parts:
        if p[0] == 'i':
            g = B.cofactor(p[1].b, atom, value)
            if g == FALSE:
                continue
            v = p[2]
            if v.op == 'phi' and any(atom in B.support(g_.b)
                                     for g_, _ in v.args[0]):
                v = phi([(B.cofactor(g_.b, atom, value), x)
                         for g_, x in v.args[0]])
            result.append(('i', G(g), v))
        else:
            result.append(p)
    if kind == 'str':
        r = val.mkseq('str', result)
        return (list(r.args[1]) if r.op == 'seq'
                else [('i', G(TRUE), r)] if not (is_c(r) and r.args[1] == '')
                else [])
    return result
