"""Description of partial applications is abstractly interpreted for an
arbitrary one, and has to be the result of binding exactly its positional and
keyword arguments to the description of the wrapped callable."""
from . import models
from .signatures import (BINDING, S, TRANSLATED, callable_of, implementation)


def check(ctx):
    spec = ctx.spec('signatures')
    kind = 'functools.partial'
    f = implementation(ctx, 'from_callable', kind)
    ctx.it.config.opaque = (models.CONSTRUCTORS | BINDING | TRANSLATED
                            | {S + ':from_callable'})
    x = callable_of(kind)
    ctx.same('exactly the frozen arguments are bound', ctx.where(f),
             ctx.outcome(f, [x]), ctx.outcome(spec('of_partial'), [x]))
