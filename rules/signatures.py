"""Common parts of checks of obtaining signatures."""
from sa.calls import ext_handler
from sa.check import Broken
from sa.val import G, TRUE, call, dist, leaves, mkseq, ref, seq, sym

from . import models

S = 'paradigm._core.signatures'
M = models.MODELS
BINDING = {M + ':' + k + '.' + n
           for k in ('PlainSignature', 'OverloadedSignature')
           for n in ('bind', 'expects', 'all_set')}
TRANSLATED = {S + ':_from_callable', S + ':_from_raw_signature'}
STRINGS = ('seq', ('ext', 'builtins.str'), 'tuple')

# kinds of callables and reference descriptions of them
BOUND = {'types.BuiltinFunctionType': 'of_builtin',
         'types.MethodType': 'of_method',
         'types.MethodWrapperType': 'of_method_wrapper',
         'types.FunctionType': 'of_unbound',
         'types.MethodDescriptorType': 'of_unbound',
         'types.WrapperDescriptorType': 'of_unbound'}


def implementation(ctx, name, kind, module='signatures'):
    """What a single dispatch function does with objects of the class."""
    f = ctx.code(module, name)
    if f.op != 'dispatch':
        return f
    h = ext_handler(f.args[0], kind)
    if h is None:
        raise Broken(f'implementation of {name} for {kind} is not found')
    return h


def callable_of(kind):
    return sym('callable', ('ext', kind))


def not_found(ctx):
    return (ctx.code('signatures', '_SignatureNotFound'),
            ctx.code('scoping', 'ObjectNotFound'))


def items(name, n, kind=None):
    """List of the given length with arbitrary elements."""
    return mkseq('list', [('i', G(TRUE), sym(f'{name}{i}',
                                             ('ext', kind) if kind else None))
                          for i in range(n)])


def failing(outcome):
    return [(g, x) for g, x in leaves(outcome) if x.op == 'raise']


def pair(it, args, result):
    """Result of a function returning a qualified path."""
    return dist(lambda x: seq('tuple', [
        call(ref('module_path_of'), (x,), ()),
        call(ref('object_path_of'), (x,), ())]), result)
