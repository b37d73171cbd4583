"""Translation of function definitions of stubs is abstractly interpreted for
every shape of parameter lists up to the bounds (all numbers of positional
parameters and defaults, of keyword-only parameters, of decorators, absent and
present variadic ones), names, annotations, defaults and described objects
being arbitrary, and has to build exactly the parameters and the result of the
reference in spec/signatures.py.  Evaluation of expressions and resolution of
names are opaque."""
from sa.val import NONE, mkseq, sym

from . import models
from .signatures import STRINGS, implementation, items

TECHNIQUE = ('abstract interpretation over bounded shapes of definitions, '
             'equivalence with a reference')
ASSUMPTIONS = ['definitions of stubs have at most 4 (5 when thorough) '
               'positional and 2 (3) keyword-only parameters and 2 decorators '
               'as far as shapes are concerned; positional-only parameters '
               'of stubs are spelled according to PEP-484']
MINIMUM = 20


def check(ctx):
    it = ctx.it
    it.config.opaque = set(models.CONSTRUCTORS) | {
        'evaluate_expression_node', 'resolve_object_path', 'to_maybe_path'}
    spec = ctx.spec('signatures')('declared')
    deep = ctx.tier == 'thorough'
    shapes = [(n, k, 0, 0, False)
              for n in range(1, 6 if deep else 5) for k in range(n + 1)]
    shapes += [(1, 0, ko, 0, variadic)
               for ko in range(4 if deep else 3)
               for variadic in (False, True)]
    shapes += [(1, 0, 0, d, False) for d in (1, 2)]
    shapes += [(3, 1, 2, 1, True), (2, 2, 1, 1, True)]
    value = sym('callable', None)
    paths = [sym('module_path', STRINGS), sym('parent_path', STRINGS)]
    for kind in ('ast.FunctionDef', 'ast.AsyncFunctionDef'):
        f = implementation(ctx, '_from_statement_node', kind)
        for shape in shapes:
            node = definition(it, kind, *shape)
            ctx.same('definitions are translated without loss',
                     f'{ctx.where(f)} ({kind}, {text(*shape)})',
                     ctx.outcome(f, [node, value] + paths),
                     ctx.outcome(spec, [node, value] + paths))
        if not deep:
            shapes = shapes[:2]


def text(n, k, keywords, decorators, variadic):
    return (f'{n} positional with {k} defaults, {keywords} keyword-only, '
            f'{"with" if variadic else "no"} variadic, '
            f'{decorators} decorators')


def definition(it, kind, n, k, keywords, decorators, variadic):
    node = sym(f'node_{n}_{k}_{keywords}_{decorators}_{variadic}',
               ('ext', kind))
    args = it.known[node, 'args'] = sym(node.args[0] + '_args',
                                        ('ext', 'ast.arguments'))
    it.known[args, 'posonlyargs'] = mkseq('list', [])
    it.known[args, 'args'] = items('positional', n, 'ast.arg')
    it.known[args, 'defaults'] = items('default', k, 'ast.expr')
    it.known[args, 'kwonlyargs'] = items('keyword', keywords, 'ast.arg')
    it.known[args, 'kw_defaults'] = items('keyword_default', keywords)
    for name in ('vararg', 'kwarg'):
        it.known[args, name] = (sym(name, ('ext', 'ast.arg')) if variadic
                                else NONE)
    it.known[node, 'decorator_list'] = items('decorator', decorators,
                                             'ast.expr')
    return node
