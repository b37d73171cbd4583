"""Descriptions of every kind of functions and methods are abstractly
interpreted for an arbitrary receiver (absent, module, class or instance) and
have to bind exactly what the reference in spec/signatures.py binds, binding
and reading of stubs being opaque."""
from . import models
from .signatures import (BINDING, BOUND, TRANSLATED, callable_of,
                         implementation)

MINIMUM = 6


def check(ctx):
    spec = ctx.spec('signatures')
    ctx.it.config.opaque = models.CONSTRUCTORS | BINDING | TRANSLATED
    for kind, name in BOUND.items():
        f = implementation(ctx, 'from_callable', kind)
        x = callable_of(kind)
        ctx.same('exactly the receiver is bound', f'{ctx.where(f)} ({kind})',
                 ctx.outcome(f, [x]), ctx.outcome(spec(name), [x]))
