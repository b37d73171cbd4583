"""Constructor, expects, all_set and bind of overloaded signatures and
from_signatures are abstractly interpreted for arbitrary alternatives and
arguments; results and errors have to be equivalent to the reference in
spec/parameters.py, methods of alternatives being opaque (C01 - C04)."""
import itertools

from sa.val import mk, sym

from . import models


M = models.MODELS
OPAQUE = {M + ':PlainSignature.expects', M + ':PlainSignature.all_set',
          M + ':PlainSignature.bind'}


def check(ctx):
    start(ctx, construction=True)
    rule = 'only built from several plain signatures'
    where = ctx.where(ctx.code('models', 'OverloadedSignature'))
    ctx.attempt(rule, constructed, where, rule)
    if models.needed(ctx, rule):
        start(ctx, construction=True)
        models.bounded(ctx, rule, where, built(ctx))
    for name in ('expects', 'all_set', 'bind'):
        rule = f'{name} is the union of those of alternatives'
        start(ctx)
        where = ctx.where(ctx.code('models', 'OverloadedSignature.' + name))
        ctx.attempt(rule, called, where, rule, name)
        if models.needed(ctx, rule):
            start(ctx, construction=True)
            ctx.it.config.opaque = set()
            models.bounded(ctx, rule, where, few(ctx, name))
    rule = 'alternatives are flattened, a single one is left as it is'
    start(ctx)
    where = ctx.where(ctx.code('models', 'from_signatures'))
    ctx.attempt(rule, flattened, where, rule)
    if models.needed(ctx, rule):
        start(ctx)
        models.bounded(ctx, rule, where, (
            (f'signatures of {counts} alternatives', *joins(ctx, given))
            for counts, given in joined(ctx)))


def start(ctx, construction=False):
    ctx.fresh().config.opaque = OPAQUE | (
        set() if construction else {M + ':OverloadedSignature.__new__'})


def calls(ctx, name, args):
    kwargs = sym('kwargs', ('map', ('ext', 'str'), None))
    return [ctx.outcome(f, args, kwstars=[kwargs]) for f in
            (ctx.code('models', 'OverloadedSignature.' + name),
             ctx.spec('parameters')('overloaded_' + name))]


LETTERS = [('RequiredParameter', 0, False), ('RequiredParameter', 1, False),
           ('OptionalParameter', 1, True), ('OptionalParameter', 2, False),
           ('RequiredParameter', 3, False), ('OptionalParameter', 4, False)]


def few(ctx, name):
    """Calls of alternatives of few parameters."""
    words = [()] + [(x,) for x in LETTERS]
    for n in (2, 3):
        for chosen in itertools.product(words, repeat=n):
            if n == 3 and len(set(chosen)) != 3:
                continue
            self_ = models.overloaded(ctx, [
                models.signature(ctx, word, 'aab'[i])
                for i, word in enumerate(chosen)])
            for m in (0, 1):
                yield (' | '.join(map(models.spelled, chosen))
                       + f', {m} positional arguments',
                       *calls(ctx, name, [self_] + [sym(f'argument{i}')
                                                    for i in range(m)]))


def called(ctx, where, rule, name):
    overloaded = ctx.code('models', 'OverloadedSignature').args[0]
    args = sym('args', ('seq', None, 'tuple'))
    ctx.same(rule, where, *calls(ctx, name, [
        sym('self', ('cls', overloaded)), mk('splat', args)]))


def joins(ctx, args):
    return [ctx.outcome(f, args) for f in
            (ctx.code('models', 'from_signatures'),
             ctx.spec('parameters')('join'))]


def flattened(ctx, where, rule):
    sorts = tuple(ctx.code('models', n).args[0]
                  for n in ('OverloadedSignature', 'PlainSignature'))
    given = sym('signatures', ('seq', ('union', sorts), 'tuple'))
    ctx.same(rule, where, *joins(ctx, [mk('splat', given)]))


def constructed(ctx, where, rule):
    signatures = sym('signatures', ('seq', None, 'tuple'))
    ctx.same(rule, where,
             ctx.outcome(ctx.spec('parameters')('build_overloaded'),
                         [mk('splat', signatures)]),
             ctx.outcome(ctx.spec('parameters')('expected_overloaded'),
                         [mk('splat', signatures)]))


def built(ctx):
    spec = ctx.spec('parameters')
    for n in range(4):
        given = [sym(f'signature{i}') for i in range(n)]
        yield (f'{n} signatures', ctx.outcome(spec('build_overloaded'), given),
               ctx.outcome(spec('expected_overloaded'), given))


def joined(ctx):
    plain = ctx.code('models', 'PlainSignature').args[0]
    for n in range(1, 4):
        for counts in itertools.product((1, 2, 3), repeat=n):
            first, given = 0, []
            for k in counts:
                given.append(sym(f'alternative{first}', ('cls', plain))
                             if k == 1
                             else models.alternatives(ctx, k, first))
                first += k
            yield counts, given
