"""PlainSignature.bind, with everything it calls, is abstractly interpreted
over an arbitrary well-formed parameter list and arbitrary arguments into a
value graph; whenever it completes, the constructor call it results in
(parameters in order, each with its annotation, name, kind and default, and
the return annotation) has to be equivalent to that of the reference
definition in spec/models.py. Constructors are taken as opaque."""
from sa.val import B

from . import models

ASSUMPTIONS = ['parameters of the signature are well-formed (C05, C06)']


RULE = 'the bound signature is what is left to pass'


def check(ctx):
    ctx.attempt(RULE, unbounded)
    models.bounded_calls(ctx, 'bind', RULE, successes)


def successes(code, spec):
    code, done = models.success(code)
    spec, expected = models.success(spec)
    return code, spec, B.and_(done, expected)


def unbounded(ctx):
    args, kwstars = models.plain_call(ctx)
    ctx.it.config.opaque = models.CONSTRUCTORS
    f = ctx.code('models', 'PlainSignature.bind')
    code, spec, care = successes(
        ctx.outcome(f, args, kwstars=kwstars),
        ctx.outcome(ctx.spec('models')('bind'), args, kwstars=kwstars))
    ctx.same(RULE, ctx.where(f), code, spec, care=care)
