"""Evaluation of extracted conditions over abstract words.

A condition over an arbitrary sequence of parameters is a formula over
positions of a word, letters being what may be observed of a parameter
(its class, kind and so on) and names being elements of a partition.
"""
from .val import B, cv, is_c


class Unsupported(Exception):
    pass


class Word:
    """Letters are pairs of a class and a mapping of fields."""

    def __init__(self, src, letters, names, name_field):
        self.src, self.letters, self.names = src, letters, names
        self.name_field = name_field
        self.memo = {}

    def __len__(self):
        return len(self.letters)


def truth(b, w, env):
    while b > 1:
        var, low, high = B.nodes[b]
        b = high if atom(B.atoms[var], w, env) else low
    return b == 1


def atom(a, w, env):
    key = (a, env)
    r = w.memo.get(key)
    if r is None:
        r = w.memo[key] = compute(a, w, env)
    return r


def positions(src, h, g, w, env):
    if src is not w.src:
        raise Unsupported(f'collection {src.op}')
    for i in range(len(w)):
        if truth(g.b, w, bind(env, h, i)):
            yield i


def bind(env, h, i):
    return tuple([(k, v) for k, v in env if k != int(h)]) + ((int(h), i),)


def compute(a, w, env):
    op = a.op
    if op == '@E':
        src, h, g = a.args
        return any(True for _ in positions(src, h, g, w, env))
    if op == '@fin':
        m = value(a.args[0], w, env)
        members = getattr(m, 'args', (None,))[0].members
        return m is members[a.args[1]]
    if op == '@isinst':
        x = position(a.args[0], w, env)
        cls = a.args[1]
        if cls.op != 'cls':
            raise Unsupported('class of an element')
        return w.letters[x][0].subclass_of(cls.args[0])
    if op == '@before':
        return (position(a.args[0], w, env)
                < position(a.args[1], w, env))
    if op in ('@eq', '@is', '@same'):
        return (value(a.args[0], w, env) == value(a.args[1], w, env))
    if op == '@lt0':
        k, terms = a.args
        return k + sum(number(t, w, env) * n for t, n in terms) < 0
    if op == '@truth':
        v = value(a.args[0], w, env)
        if isinstance(v, bool):
            return v
    raise Unsupported(f'condition {op}')


def number(t, w, env):
    if t.op == 'rank':
        src, e, h, g = t.args
        i = position(e, w, env)
        return sum(1 for j in positions(src, h, g, w, env) if j < i)
    if t.op == 'count':
        src, h, g = t.args
        return sum(1 for _ in positions(src, h, g, w, env))
    v = value(t, w, env)
    if isinstance(v, int):
        return v
    if getattr(v, 'op', None) == 'member':
        if isinstance(v.args[2], int):
            return v.args[2]
    raise Unsupported(f'number {t.op}')


def position(v, w, env):
    if v.op == 'bv':
        for k, i in env:
            if k == v.args[0]:
                return i
        raise Unsupported('free variable')
    if v.op == 'prev':
        i = position(v.args[0], w, env) - 1
        if i < 0:
            raise Unsupported('nothing precedes the first element')
        return i
    if v.op in ('sel', 'lastsel'):
        found = list(positions(*v.args, w, env))
        if not found:
            raise Unsupported('no such element')
        return found[0 if v.op == 'sel' else -1]
    if v.op == 'phi':
        return position(choose(v, w, env), w, env)
    if v.op == 'at' and v.args[0] is w.src and is_c(v.args[1]):
        return range(len(w))[cv(v.args[1])]
    raise Unsupported(f'element {v.op}')


def choose(v, w, env):
    for g, x in v.args[0]:
        if truth(g.b, w, env):
            return x
    raise Unsupported('no alternative')


def value(v, w, env):
    if v.op == 'phi':
        return value(choose(v, w, env), w, env)
    if v.op == 'member':
        return v
    if is_c(v):
        return cv(v)
    if v.op == 'attr':
        i = position(v.args[0], w, env)
        if v.args[1] == w.name_field:
            return ('name', w.names[i])
        fields = w.letters[i][1]
        if v.args[1] in fields:
            return fields[v.args[1]]
        raise Unsupported(f'field {v.args[1]}')
    if v.op in ('bv', 'prev', 'sel', 'lastsel', 'at'):
        return ('element', position(v, w, env))
    if v.op in ('rank', 'count'):
        return number(v, w, env)
    if v.op == 'lin':
        k, terms = v.args
        return k + sum(number(t, w, env) * n for t, n in terms)
    if v.op == 'cls':
        return v
    raise Unsupported(f'value {v.op}')


def partitions(n):
    """Ways names may coincide (restricted growth strings)."""
    def go(prefix, top):
        if len(prefix) == n:
            yield tuple(prefix)
            return
        for k in range(top + 1):
            yield from go(prefix + [k], max(top, k + 1))
    yield from go([], 0)
