"""Translation of variables of stubs is abstractly interpreted over syntax
trees of declarations with every form the translation tells apart, names they
consist of being resolved to arbitrary objects, and has to build the signature
the reference in spec/signatures.py does: that of `Callable` with listed and
unlisted parameters, of the call of a class, of the only other definition, of
the bound or constraints of a type variable; anything else has to be a missing
stub.  Resolution, evaluation and translation of other definitions are opaque
and may fail."""
import ast

from sa import trees
from sa.calls import class_handler
from sa.val import sym

from . import models
from .signatures import BINDING, STRINGS, items, not_found, pair

TECHNIQUE = ('abstract interpretation over syntax trees of declarations, '
             'equivalence with a reference')
ASSUMPTIONS = ['lists of parameters of `Callable` have at most 3 elements, '
               'type variables at most 3 constraints, classes at most 2 '
               'definitions of `__call__` (declarations are otherwise '
               'arbitrary)', 'names of parameters of `Callable` are the ones '
               'they are given now']
MINIMUM = 30
DECLARATIONS = [
    'A', 'a.B', 'a.b.C', 'Callable[[], R]', 'Callable[[A], R]',
    'Callable[[A, b.C[D], None], R[S]]', 'Callable[..., R]',
    'Callable[P, R]', 'Callable[Concatenate[A, P], R]',
    't.Callable[[A, B], R]', 'TypeVar("T", bound=A)',
    'TypeVar("T", A, Callable[[B], R])', 'TypeVar("T", A, B, c.D)',
    'TypeVar("T", bound=Callable[[A], R])', 'TypeVar("T")',
    't.TypeVar("T", covariant=True)',
    'TypeVar("T", covariant=True, bound=Callable[..., R])',
    'object()', '1', 'None', '"A"', '...', 'A | None', '-1', '(A, B)', '[A]',
    '{A: B}']


def check(ctx):
    it = ctx.fresh()
    it.config.results.update(trees.Trees(it).results)
    it.config.recursion, it.config.unroll = 20, 64
    it.config.snapshots = False
    it.config.opaque = set(models.CONSTRUCTORS) | BINDING | {
        'evaluate_expression_node', 'resolve_object_path',
        'from_signatures', '_load_ast_nodes', '_from_statement_node',
        'from_raw'}
    snf, onf = not_found(ctx)
    it.config.may_raise = {'resolve_object_path': (onf,),
                           '_load_ast_nodes': (snf,),
                           '_from_statement_node': (snf, onf)}
    it.config.results['resolve_object_path'] = pair
    spec = ctx.spec('signatures')
    f = ctx.code('signatures', '_from_statement_node')
    value = sym('callable', None)
    paths = [sym('module_path', STRINGS), sym('parent_path', STRINGS)]
    for text in DECLARATIONS:
        forms = [(f'x: {text}', 'of_annotated'), (f'x = {text}',
                                                  'of_assigned')]
        if text in ('A', 'Callable[..., R]', '...'):
            forms += [(f'x: {text} = {text}', 'of_annotated'),
                      (f'x: Any = {text}', 'of_annotated'),
                      (f'x = y = {text}', 'of_assigned')]
        for form, reference in forms:
            [tree] = ast.parse(form).body
            for n in (1, 2) if text in ('A', 'a.B') else (1,):
                it.config.results['_load_ast_nodes'] = (
                    lambda *_: items('node', n))
                h = handler(it, f, type(tree).__name__)
                node = trees.allocate(it, tree)
                ctx.same('variable is described by its declaration',
                         f'{ctx.where(h)}: {form}' + f' ({n} calls)' * (n > 1),
                         ctx.outcome(h, [node, value] + paths),
                         ctx.outcome(spec(reference), [node, value] + paths))


def handler(it, f, name):
    if f.op != 'dispatch':
        it.config.opaque.discard('_from_statement_node')
        return f
    return class_handler(f.args[0], it.modules['ast'].vars[name].args[0])
