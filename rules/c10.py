"""What each model class hands to the pickling and copying protocols is
abstractly interpreted for an arbitrary well-formed receiver; calling the
constructor with it has to be equivalent to calling it with the fields of
the receiver (the default being passed exactly if there is one)."""
from sa import domain, val
from sa.check import UNDECIDED, VIOLATED
from sa.val import sym

from . import models

OWN = ('__reduce_ex__', '__reduce__', '__getstate__', '__setstate__',
       '__copy__', '__deepcopy__', '__getnewargs_ex__', '__getnewargs__')
CASES = [('RequiredParameter', 'required'), ('OptionalParameter', 'optional'),
         ('PlainSignature', 'plain'), ('OverloadedSignature', 'overloaded')]


def check(ctx):
    it = ctx.it
    it.config.opaque = models.CONSTRUCTORS
    spec = ctx.spec('parameters')
    domain.enable_parameters(it)
    rule = 'the constructor is handed the very fields of the object'
    for owner, name in CASES:
        k = ctx.code('models', owner).args[0]
        where = ctx.where(ctx.code('models', owner))
        self_ = sym('self', ('cls', k))
        found = [n for n in OWN if k.lookup(n) is not None]
        if not set(found) & {'__getnewargs_ex__', '__getnewargs__',
                             '__reduce__', '__reduce_ex__'}:
            ctx.record(rule, where, VIOLATED,
                       [f'{owner} is constructed with arguments, but hands '
                        'none to the protocol'])
            continue
        expected = ctx.outcome(spec('copy_' + name), [self_])
        if set(found) & {'__reduce_ex__', '__reduce__', '__copy__',
                         '__deepcopy__', '__setstate__', '__getstate__'}:
            custom(ctx, spec, rule, owner, found, self_, expected)
            continue
        how = ('getnewargs_ex' if '__getnewargs_ex__' in found
               else 'getnewargs')
        f = k.lookup(f'__{how}__')
        ctx.same(rule, ctx.where(f),
                 ctx.outcome(spec('rebuild_' + how), [self_]), expected)


def custom(ctx, spec, rule, owner, found, self_, expected):
    k = self_.args[1][1]
    for n in ('__reduce__', '__copy__', '__deepcopy__'):
        f = k.lookup(n)
        if f is None:
            continue
        how = 'rebuild' + n.rstrip('_')[1:]
        ctx.same(rule, ctx.where(f),
                 ctx.outcome(spec(how), [self_]), expected)
    rest = set(found) & {'__reduce_ex__', '__setstate__', '__getstate__'}
    for n in sorted(rest):
        ctx.record(rule, ctx.where(k.lookup(n)), UNDECIDED,
                   [f'{n} is not analysed'])
