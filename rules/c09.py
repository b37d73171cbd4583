"""The hash of each model class is abstractly interpreted into a value graph
for an arbitrary receiver.  Every field it depends upon has to be one that
equality of the same class requires to be equal (with hashes of equal kinds,
names, parameters and signatures being equal), hence it may not depend on
annotations, defaults, return annotations, identity or representation of
the receiver; and it may not fail."""
from sa import compare, domain, val
from sa.check import HELD, UNDECIDED, VIOLATED
from sa.val import B, c, elem, is_c, leaves, mk, sym

from . import models

FIELDS = {'RequiredParameter': ('kind', 'name'),
          'OptionalParameter': ('kind', 'name', 'has_default'),
          'PlainSignature': ('parameters',),
          'OverloadedSignature': ('signatures',)}
OTHERS = {'RequiredParameter': ('annotation',),
          'OptionalParameter': ('annotation', 'default'),
          'PlainSignature': ('returns',),
          'OverloadedSignature': ()}
LOOSE = ('annotation', 'default', 'returns')


def check(ctx):
    it = ctx.it
    it.config.opaque = {models.ANNOTATED + ':are_equal'}
    val.SYMMETRIC = {models.ANNOTATED + ':are_equal'}
    loose = set(LOOSE)
    for owner, names in OTHERS.items():
        k = ctx.code('models', owner).args[0]
        self_ = sym('self', ('cls', k))
        for n in names:
            v = it.getattr_(self_, n)
            if v.op == 'attr':
                loose.add(v.args[1])
    for owner in FIELDS:
        one(ctx, owner, loose)


def one(ctx, owner, loose):
    it = ctx.it
    k = ctx.code('models', owner).args[0]
    self_ = sym('self', ('cls', k))
    f = k.lookup('__hash__')
    where = ctx.where(ctx.code('models', owner))
    if f is None or f.op != 'func':
        if '__eq__' in k.ns:
            ctx.record('equality comes with a hash', where, VIOLATED,
                       [f'{owner} defines __eq__, but not __hash__'])
        return
    where = ctx.where(f)
    r = ctx.outcome(f, [self_])
    failing = [x for g, x in leaves(r) if x.op == 'raise']
    ctx.hold('hashing does not fail', where, not failing,
             [val.show(r, 6)[:300]])
    allowed = {it.getattr_(self_, n) for n in FIELDS[owner]}
    uses = dependencies(r, self_, allowed)
    rule = 'the hash depends on nothing but what equality compares'
    bad = [u for u in uses
           if u is self_ or u.op == 'attr' and u.args[1] in loose]
    if bad:
        ctx.record(rule, where, VIOLATED,
                   [f'the hash depends on {val.show(u, 4)}' if u is not self_
                    else 'the hash depends on the identity of the receiver'
                    for u in bad] + [f'the hash is {val.show(r, 6)[:300]}'])
    elif uses or val.has_unk(r):
        ctx.record(rule, where, UNDECIDED,
                   [val.has_unk(r) or val.show(u, 4)
                    for u in (uses or [r])][:3])
    else:
        ctx.record(rule, where, HELD)
    # whatever is hashed is compared
    eq = ctx.code('models', owner + '.__eq__')
    other = sym('other', ('cls', k))
    verdict = val.truth(ctx.outcome(eq, [self_, other]))
    used = [n for n in FIELDS[owner]
            if it.getattr_(self_, n) in val.nodes_in(r)]
    for n in used:
        a, b = it.getattr_(self_, n), it.getattr_(other, n)
        ctx.same(f'equal objects agree in {n}, which is hashed', where,
                 val.phi([(B.and_(verdict, B.not_(val.eq(a, b))), c('differ')),
                          (B.not_(B.and_(verdict, B.not_(val.eq(a, b)))),
                           c('fine'))]), c('fine'))


TRANSPARENT = {'seq', 'call', 'phi', 'c', 'ref', 'cls', 'member', 'binop',
               'lin', 'absent', 'raise', 'bv', 'new', 'func', 'unop', 'elem'}


def dependencies(v, self_, allowed):
    """Parts of the receiver a value depends upon, besides allowed ones."""
    result, seen = [], set()

    def go(x):
        if isinstance(x, val.G):
            for a in B.support(x.b):
                go(a)
        elif isinstance(x, tuple):
            for y in x:
                go(y)
        elif isinstance(x, val.V):
            if x in seen or x in allowed:
                return
            seen.add(x)
            if x is self_:
                result.append(x)
            elif (x.op == 'call' and x.args[0] is val.ref('builtins.type')
                    and x.args[1] == (self_,)):
                return
            elif x.op == 'attr':
                if x.args[0] is self_:
                    result.append(x)
                else:
                    # a property of a hashed part
                    if x.args[1] in LOOSE or x.args[1].strip('_') in LOOSE:
                        result.append(x)
                    go(x.args[0])
            else:
                for y in x.args:
                    go(y)

    go(v)
    return result
