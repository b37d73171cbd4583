"""Paths of callables are abstractly interpreted for an arbitrary object of
every kind the single dispatch function is registered for, and have to be
those of the reference in spec/locations.py."""
from sa.val import sym

from .signatures import implementation

KINDS = {'types.BuiltinFunctionType': 'of_builtin',
         'types.FunctionType': 'of_function',
         'types.MethodDescriptorType': 'of_member',
         'types.MethodWrapperType': 'of_member',
         'types.WrapperDescriptorType': 'of_member',
         'builtins.type': 'of_class',
         'builtins.object': 'unknown'}
MINIMUM = 7


def check(ctx):
    ctx.it.config.opaque = {'path_from_string'}
    spec = ctx.spec('locations')
    for kind, name in KINDS.items():
        f = implementation(ctx, 'qualified_path_from', kind, 'catalog')
        x = sym('value', ('ext', kind))
        ctx.same('callables are located where they are defined',
                 f'{ctx.where(f)} ({kind})', ctx.outcome(f, [x]),
                 ctx.outcome(spec(name), [x]))
