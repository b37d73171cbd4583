"""Translation of introspected signatures is abstractly interpreted for an
arbitrary signature of the standard library and has to build exactly the
parameters of the reference in spec/signatures.py; a class that is not
described by a stub has to be described as returning itself."""
from sa.val import c, leaves, phi, sym

from . import models
from .signatures import (BINDING, S, implementation, items, not_found)

MINIMUM = 2


def check(ctx):
    it = ctx.it
    spec = ctx.spec('signatures')
    it.config.opaque = set(models.CONSTRUCTORS)
    f = ctx.code('signatures', '_from_raw_signature')
    raw = sym('raw', ('ext', 'inspect.Signature'))
    ctx.same('every parameter is kept as it is', ctx.where(f),
             ctx.outcome(f, [raw]),
             ctx.outcome(spec('from_introspection'), [raw]))
    snf, onf = not_found(ctx)
    it.config.opaque |= BINDING | {
        '_from_raw_signature', 'resolve_qualified_paths', 'from_signatures',
        '_resolve_builder_qualified_path', '_load_ast_nodes',
        '_from_statement_node'}
    it.config.may_raise = {'_resolve_builder_qualified_path': (snf,)}
    it.config.results = {'_load_ast_nodes':
                         lambda *_: items('node', 1, 'ast.FunctionDef')}
    f = implementation(ctx, 'from_callable', 'builtins.type')
    x = sym('callable', ('ext', 'builtins.type'))
    ctx.same('a class returns itself', ctx.where(f),
             introspection(ctx.outcome(f, [x])),
             introspection(ctx.outcome(spec('of_class'), [x])))


def introspection(outcome):
    return phi([(g, x if x.op == 'call'
                 and '_from_raw_signature' in str(x.args[0])
                 else c('other')) for g, x in leaves(outcome)])
