"""__str__ of each model class is abstractly interpreted for an arbitrary
well-formed receiver into a sequence of chunks of text under conditions,
which has to be equivalent, up to spaces, to the reference in
spec/parameters.py; texts of annotations and defaults are opaque."""
from sa import domain
from sa.val import sym

from . import models


def check(ctx):
    for owner, name in (('RequiredParameter', 'required'),
                        ('OptionalParameter', 'optional'),
                        ('PlainSignature', 'plain'),
                        ('OverloadedSignature', 'overloaded')):
        rule = f'text of {owner}'
        start(ctx, owner)
        where = ctx.where(ctx.code('models', owner + '.__str__'))
        ctx.attempt(rule, unbounded, rule, owner, name)
        if name in ('plain', 'overloaded') and models.needed(ctx, rule):
            start(ctx, owner, domain_needed=False)
            models.bounded(ctx, rule, where, (
                (place, *texts(ctx, owner, name, self_))
                for place, self_ in (
                    ((models.spelled(word), models.signature(ctx, word))
                     for word in models.words(3)) if name == 'plain'
                    else ((f'{n} alternatives', models.alternatives(ctx, n))
                          for n in (2, 3, 4)))))


def start(ctx, owner, domain_needed=True):
    it = ctx.fresh()
    it.config.opaque = {
        models.ANNOTATED + ':to_repr',
        *[models.MODELS + f':{n}.__str__'
          for n in ('OptionalParameter', 'RequiredParameter',
                    'PlainSignature') if n != owner]}
    if domain_needed:
        domain.enable_parameters(it)


def texts(ctx, owner, name, self_):
    return [models.without_spaces(ctx.outcome(x, [self_])) for x in
            (ctx.code('models', owner + '.__str__'),
             ctx.spec('parameters')(name + '_text'))]


def unbounded(ctx, rule, owner, name):
    self_ = sym('self', ('cls', ctx.code('models', owner).args[0]))
    ctx.same(rule, ctx.where(ctx.code('models', owner + '.__str__')),
             *texts(ctx, owner, name, self_))
