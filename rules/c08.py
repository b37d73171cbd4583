"""__eq__ of each model class is abstractly interpreted for an arbitrary
receiver and for an operand of the same class, of each other class of the
family and of an unrelated type; the verdict has to be equivalent to the
reference in spec/parameters.py, structural equality of annotations being
opaque and symmetric (C14)."""
from sa import val
from sa.val import sym

from . import models

CASES = [('RequiredParameter', 'required'), ('OptionalParameter', 'optional'),
         ('PlainSignature', 'plain'), ('OverloadedSignature', 'overloaded')]
FAMILIES = [('RequiredParameter', 'OptionalParameter'),
            ('PlainSignature', 'OverloadedSignature')]


def check(ctx):
    it = ctx.it
    it.config.opaque = {models.ANNOTATED + ':are_equal'}
    val.SYMMETRIC = {models.ANNOTATED + ':are_equal'}
    spec = ctx.spec('parameters')
    for owner, name in CASES:
        k = ctx.code('models', owner)
        f = ctx.code('models', owner + '.__eq__')
        self_ = sym('self', ('cls', k.args[0]))
        family = next(x for x in FAMILIES if owner in x)
        others = [('cls', ctx.code('models', x).args[0]) for x in family]
        for t in others + [('ext', 'int')]:
            title = t[1] if t[0] == 'ext' else t[1].qualname
            args = [self_, sym('other', t)]
            ctx.same(f'{owner} compared with {title}', ctx.where(f),
                     ctx.outcome(f, args),
                     ctx.outcome(spec('eq_' + name), args))
