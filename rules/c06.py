"""Constructors of both sorts of parameters are abstractly interpreted for
an arbitrary annotation and name, for a kind that is and that is not a
parameter kind, and with and without a default (an arbitrary object or None);
what the public properties of the result report, and the class of the error,
have to be equivalent to the reference in spec/parameters.py."""
from sa.val import NONE, mk, sym


def check(ctx):
    spec = ctx.spec('parameters')
    kinds = ctx.code('models', 'ParameterKind').args[0]
    annotation, name = sym('annotation'), sym('name', ('ext', 'str'))
    for what, kind in (('a parameter kind', sym('kind', ('enum', kinds))),
                       ('an unrelated object', sym('kind', ('ext', 'int')))):
        for sort in ('required', 'optional'):
            compare(ctx, spec, sort, f'kind is {what}',
                    [annotation, kind, name])
        for default, title in ((sym('default', ('ext', 'value')), 'any'),
                               (NONE, 'None')):
            compare(ctx, spec, 'default',
                    f'kind is {what}, default is {title}',
                    [annotation, kind, name, default])


def compare(ctx, spec, sort, case, args):
    owner = 'RequiredParameter' if sort == 'required' else 'OptionalParameter'
    f = ctx.code('models', owner)
    ctx.same(f'{sort} parameter is built and validated: {case}',
             ctx.where(f), ctx.outcome(spec('build_' + sort), args),
             ctx.outcome(spec('expected_' + sort), args))
