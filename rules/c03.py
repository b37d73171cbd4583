"""PlainSignature.bind and expects, with everything they call, are abstractly
interpreted over an arbitrary well-formed parameter list and arbitrary
arguments; the condition on which bind raises, and the class of the error,
have to be those of the reference definition in spec/models.py and the
negation of what expects of the program itself answers. Constructors are
taken as opaque (C05 and C06 are about them)."""
from sa.val import c, mk, phi, ref, truth
from sa.val import B, TRUE

from . import models

ASSUMPTIONS = ['parameters of the signature are well-formed (C05, C06)']


RULE = 'a TypeError is raised exactly for inadmissible arguments'


def check(ctx):
    ctx.attempt(RULE, unbounded)
    models.bounded_calls(ctx, 'bind', RULE, completions)


def completions(code, spec):
    return models.completion(code), models.completion(spec), TRUE


def unbounded(ctx):
    args, kwstars = models.plain_call(ctx)
    ctx.it.config.opaque = models.CONSTRUCTORS
    f = ctx.code('models', 'PlainSignature.bind')
    code = models.completion(ctx.outcome(f, args, kwstars=kwstars))
    spec = models.completion(ctx.outcome(ctx.spec('models')('bind'), args,
                                         kwstars=kwstars))
    ctx.same(RULE, ctx.where(f), code, spec)
    expects = ctx.outcome(ctx.code('models', 'PlainSignature.expects'), args,
                          kwstars=kwstars)
    expected = truth(expects)
    ctx.same('binding and admission agree', ctx.where(f), code,
             phi([(expected, c('completes')),
                  (B.not_(expected), mk('raise', ref('builtins.TypeError')))]))
