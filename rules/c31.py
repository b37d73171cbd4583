"""Selection of definitions is abstractly interpreted for up to three stub
locations with up to two definitions each, any of which may fail to be
translated, and has to join exactly the definitions of the first completely
translated location, in order, as the reference in spec/signatures.py does;
with definitions read from tables of stubs as well as with arbitrary ones.
Joining of alternatives is compared with its reference for any number of
alternatives."""
from sa.check import Broken
from sa.val import B, G, TRUE, c, mkseq, seq, sym

from . import models
from .signatures import (BINDING, STRINGS, implementation, items, not_found)

MINIMUM = 8


def check(ctx):
    it = ctx.it
    spec = ctx.spec('signatures')
    snf, onf = not_found(ctx)
    it.config.opaque = models.CONSTRUCTORS | BINDING | {
        'resolve_qualified_paths', '_resolve_builder_qualified_path',
        'from_signatures', '_load_ast_nodes', '_from_statement_node'}
    it.config.may_raise = {'_from_statement_node': (snf, onf)}
    f = ctx.code('signatures', '_from_callable')
    x = sym('callable', None)
    for locations in range(4):
        for definitions in (1, 2):
            it.config.results = {
                'resolve_qualified_paths': lambda *_: places(locations),
                '_resolve_builder_qualified_path':
                    lambda *_: place('builder'),
                '_load_ast_nodes': nodes(definitions)}
            ctx.same('the first translated location is used completely',
                     f'{ctx.where(f)} ({locations} locations, {definitions} '
                     f'definitions)', ctx.outcome(f, [x]),
                     ctx.outcome(spec('alternatives'), [x]))
    f = implementation(ctx, 'from_callable', 'builtins.type')
    x = sym('callable', ('ext', 'builtins.type'))
    it.config.opaque |= {'_from_raw_signature'}
    for definitions in (1, 2, 3):
        it.config.results = {'_load_ast_nodes': nodes(definitions)}
        ctx.same('constructors of a class are described completely',
                 f'{ctx.where(f)} ({definitions} definitions)',
                 ctx.outcome(f, [x]), ctx.outcome(spec('of_class'), [x]))
    it.config.opaque -= {'from_signatures'}
    it.config.results = {}
    overloaded = ctx.code('models', 'OverloadedSignature').args[0]
    plain = ctx.code('models', 'PlainSignature').args[0]
    f = ctx.code('models', 'from_signatures')
    given = sym('signatures', ('seq', ('union', (overloaded, plain)),
                               'tuple'))
    ctx.same('alternatives are flattened, a single one is left as it is',
             ctx.where(f), ctx.outcome(f, [mk_splat(given)]),
             ctx.outcome(ctx.spec('parameters')('join'), [mk_splat(given)]))
    ctx.attempt('definitions are read from the stub', recorded)


def recorded(ctx):
    """Definitions of up to two locations which stubs may know."""
    for n in range(1, 4):
        it = ctx.fresh()
        snf, onf = not_found(ctx)
        stubs = it.module('paradigm._core.stubs')
        if 'raw_ast_nodes' not in stubs.data:
            raise Broken('stubs:raw_ast_nodes is not found')
        stubs.vars['raw_ast_nodes'] = mapping([
            (TRUE, (f'm{i}',),
             mapping([(known(f'location {i}'), ('A', f'f{i}'),
                       items(f'definition{i}_', n, 'builtins.str'))]))
            for i in range(2)])
        it.config.opaque = models.CONSTRUCTORS | BINDING | {
            'resolve_qualified_paths', '_resolve_builder_qualified_path',
            'from_signatures', 'from_raw', '_from_statement_node'}
        it.config.may_raise = {'_from_statement_node': (snf, onf)}
        it.config.results = {
            'resolve_qualified_paths': lambda *_: mkseq('list', [
                ('i', G(TRUE), c(((f'm{i}',), ('A', f'f{i}'))))
                for i in range(2)]),
            '_resolve_builder_qualified_path':
                lambda *_: c((('m0',), ('A', 'f0'))),
            'from_raw': lambda it, args, r: sym(f'node of {args[0].args[0]}',
                                                ('ext', 'ast.FunctionDef'))}
        stubs.vars['nodes_kinds'] = sym('nodes_kinds')
        f = ctx.code('signatures', '_from_callable')
        x = sym('callable', None)
        ctx.same('definitions of a location are those of its stub',
                 f'{ctx.where(f)} ({n} definitions)', ctx.outcome(f, [x]),
                 ctx.outcome(ctx.spec('signatures')('of_stubs'), [x]))


def known(name):
    return B.var(sym(f'{name} is known', ('ext', 'builtins.bool')))


def mapping(entries):
    return mkseq('dict', [('i', G(g), seq('tuple', [c(k), x]))
                          for g, k, x in entries])


def mk_splat(v):
    from sa.val import mk
    return mk('splat', v)


def place(name):
    return seq('tuple', [sym(f'{name}_module_path', STRINGS),
                         sym(f'{name}_object_path', STRINGS)])


def places(n):
    return mkseq('list', [('i', G(TRUE), place(f'location{i}'))
                          for i in range(n)])


def nodes(n):
    def load(it, args, _):
        name = '_'.join(str(a.args[0]) if a.op == 'sym' else 'other'
                        for a in args)
        return items(f'{name}_node', n, 'ast.FunctionDef')

    return load
