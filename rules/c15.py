"""Flow of the conditions "stub is not found" and "name is not found" is
followed over the call graph, with every implementation of single dispatch
functions: neither of them may escape from the public entry point nor from any
implementation behind it.  In addition implementations are abstractly
interpreted assuming that the stub is missing, and have to result in the
description by means of introspection; the fallback for unsupported kinds has
to raise TypeError; missing definitions have to be reported as a missing stub.
"""
from sa.escapes import Escapes, funcs
from sa.val import B, FALSE, TRUE, c, leaves, mk, phi, ref, sym

from . import models
from .signatures import (BINDING, BOUND, S, TRANSLATED, callable_of,
                         implementation, items, not_found)

TECHNIQUE = ('exception-flow analysis over the call graph, abstract '
             'interpretation of fallbacks')
MINIMUM = 12


def check(ctx):
    it = ctx.it
    snf, onf = not_found(ctx)
    entry = ctx.code('signatures', 'from_callable')
    analysis = Escapes(it, [snf.args[0], onf.args[0]])
    for f in dict.fromkeys(funcs(entry)):
        found = analysis.of(f)
        ctx.hold('internal lookup failures never escape',
                 f'{S} implementation at line {f.node.lineno}'
                 if f.name == '_' else f'{S}:{f.name}', not found,
                 [' <- '.join(t) for t in found.values()])
    try:
        it.modules['paradigm.base'] and it.module('paradigm.base')
        public = it.global_('paradigm.base', 'signature_from_callable')
        for f in funcs(public):
            found = analysis.of(f)
            ctx.hold('internal lookup failures never escape',
                     'paradigm.base:signature_from_callable', not found,
                     [' <- '.join(t) for t in found.values()])
    except (KeyError, LookupError):
        pass
    ctx.count('functions of the call graph', len(analysis.result))
    ctx.count('calls followed', analysis.calls)
    # fallbacks
    spec = ctx.spec('signatures')
    it.config.opaque = models.CONSTRUCTORS | BINDING | TRANSLATED
    it.config.may_raise = {S + ':_from_callable': (snf,)}
    for kind, name in BOUND.items():
        f = implementation(ctx, 'from_callable', kind)
        x = callable_of(kind)
        code = ctx.outcome(f, [x])
        reference = ctx.outcome(spec(name), [x])
        ctx.same('callables without a stub are introspected',
                 f'{ctx.where(f)} ({kind})', code, reference,
                 care=missing(snf, code, reference))
    f = implementation(ctx, 'from_callable', 'builtins.object')
    x = sym('callable', ('ext', 'builtins.object'))
    ctx.same('unsupported kinds are type errors', ctx.where(f),
             ctx.outcome(f, [x]),
             mk('raise', ref('builtins.TypeError')))
    # classes
    it.config.opaque |= {'resolve_qualified_paths', 'from_signatures',
                         '_resolve_builder_qualified_path',
                         '_load_ast_nodes', '_from_statement_node'}
    it.config.may_raise = {'_resolve_builder_qualified_path': (snf,),
                           '_load_ast_nodes': (snf,),
                           '_from_statement_node': (snf, onf)}
    f = implementation(ctx, 'from_callable', 'builtins.type')
    for n in (1, 2):
        it.config.results = {'_load_ast_nodes':
                             lambda *_: items('node', n, 'ast.FunctionDef')}
        x = sym('callable', ('ext', 'builtins.type'))
        code = ctx.outcome(f, [x])
        reference = ctx.outcome(spec('of_class'), [x])
        ctx.same('classes without a stub are introspected',
                 f'{ctx.where(f)} ({n} definitions)', completion(code),
                 completion(reference))
    # lookup of definitions
    it.config.opaque = {'_statement_node_from_raw'}
    it.config.may_raise = it.config.results = {}
    it.config.implicit = True
    f = ctx.code('signatures', '_load_ast_nodes')
    args = [sym('module_path'), sym('object_path')]
    code = ctx.outcome(f, args)
    reference = ctx.outcome(spec('definition_nodes'), args)
    ctx.same('missing definitions are reported as a missing stub',
             ctx.where(f), completion(code), completion(reference))


def missing(exc, *outcomes):
    """Condition of the stub being missing."""
    r = FALSE
    for o in outcomes:
        for g, _ in leaves(o):
            for a in B.support(g):
                if a.op == '@raises' and a.args[0] is exc:
                    r = B.or_(r, B.var(a))
    return r if r != FALSE else TRUE


def completion(outcome):
    """How it ends, results of introspection being told apart."""
    def kind(x):
        if x.op == 'raise':
            return x
        if x.op == 'call' and 'raw_signature' in str(x.args[0]):
            return x
        return c('described')

    return phi([(g, kind(x)) for g, x in leaves(outcome)])
