"""Dispatching functions which evaluate, print, name and identify expressions
are abstractly interpreted over syntax trees taken from the installed stubs:
for every position expressions occur in, trees are picked until every kind of
node with every kind of what it holds is met, and none of them may end with an
exception.  Operators are dispatched on their own, since errors of applying
them are expected.  Statements met in the stubs have to be dispatched by what
loads, evaluates and describes them."""
import ast

from sa import check as c_
from sa import trees, typeshed, val
from sa.calls import ext_handler
from sa.val import TRUE, sym

TECHNIQUE = ('abstract interpretation of dispatching functions over syntax '
             'trees covering kinds of nodes of the installed stubs')
ASSUMPTIONS = ['whether a tree is handled depends on kinds of its nodes and '
               'kinds of what they hold only']
MINIMUM = 60
FAILURES = {'builtins.TypeError', 'builtins.AssertionError',
            'builtins.AttributeError', 'builtins.KeyError',
            'builtins.IndexError', 'builtins.ValueError',
            'builtins.NotImplementedError'}
EVALUATED = ('arboreal.evaluation', 'evaluate_expression_node')
PRINTED = ('arboreal.conversion', 'to_str')
IDENTIFIED = ('arboreal.conversion', 'to_identifier')
PATH = ('arboreal.conversion', 'to_path')
MAYBE_PATH = ('arboreal.conversion', 'to_maybe_path')
NAMES = ('arboreal.conversion', 'to_names')
OPERATOR = ('arboreal.evaluation', 'evaluate_operator_node')
RULE = 'construct of the stubs is handled'


def check(ctx):
    positions = collect()
    for (function, position), nodes in positions.items():
        it = fresh(ctx)
        try:
            f = ctx.code(*function)
        except c_.Broken as error:
            ctx.record('the code is found where it is expected',
                       '.'.join(function), c_.UNDECIDED, [str(error)])
            continue
        ctx.count('expressions and statements of installed stubs',
                  len(nodes))
        for name, x in chosen(nodes):
            it.notes = []
            args = [trees.allocate(it, x)]
            if function == EVALUATED:
                args += [sym('module_path'), sym('parent_path'),
                         sym('namespace')]
            verdict, problem = handled(ctx.outcome(f, args))
            text = (' '.join(ast.unparse(x).split())[:60]
                    if isinstance(x, (ast.expr, ast.stmt))
                    else type(x).__name__)
            ctx.record(RULE, f'{ctx.where(f)}, {position}: {text} (as in '
                             f'{name})', verdict, [problem])
    statements(ctx)


def fresh(ctx):
    it = ctx.fresh()
    it.config.results.update(trees.Trees(it).results)
    it.config.recursion, it.config.unroll = 40, 64
    it.config.snapshots = False
    it.config.opaque |= {'resolve_object_path', 'evaluate_qualified_path'}
    return it


def handled(r):
    raised = [(g, x) for g, x in val.leaves(r) if x.op == 'raise']
    if not raised:
        return ((c_.UNDECIDED, f'it is not followed: {val.show(r, 4)[:200]}')
                if r.op == 'unk' else (c_.HELD, ''))
    problem = f'it ends with {val.show(raised[0][1], 3)[:100]}'
    certain = any(g == TRUE and x.args[0].args
                  and str(x.args[0].args[0]) in FAILURES for g, x in raised)
    return (c_.VIOLATED if certain else c_.UNDECIDED), problem


def chosen(nodes):
    """Few of the trees, having every shape all of them have."""
    seen = set()
    for name, x in sorted(nodes, key=size):
        shape = set(typeshed.shape(x)) | {type(x).__name__}
        if not shape <= seen:
            seen |= shape
            yield name, x


def size(pair):
    return sum(1 for _ in ast.walk(pair[1]))


def collect():
    result = {}

    def add(function, position, name, x):
        result.setdefault((function, position), []).append((name, x))

    for name, tree in typeshed.modules():
        for x in typeshed.recorded(tree):
            add(NAMES, 'definition', name, x)
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                a = x.args
                for y in [*a.posonlyargs, *a.args, *a.kwonlyargs, a.vararg,
                          a.kwarg]:
                    if y is not None and y.annotation is not None:
                        for f in (EVALUATED, PRINTED):
                            add(f, 'annotation of a parameter', name,
                                y.annotation)
                for y in a.defaults + a.kw_defaults:
                    if y is not None:
                        add(EVALUATED, 'default', name, y)
                if x.returns is not None:
                    for f in (EVALUATED, PRINTED):
                        add(f, 'annotation of a result', name, x.returns)
                for y in x.decorator_list:
                    add(MAYBE_PATH, 'decorator', name, y)
            else:
                if isinstance(x, ast.AnnAssign):
                    add(EVALUATED, 'annotation of a variable', name,
                        x.annotation)
                    add(PATH, 'variable', name, x.target)
                else:
                    for y in x.targets:
                        add(PATH, 'variable', name, y)
                if x.value is not None:
                    add(EVALUATED, 'value of a variable', name, x.value)
                    add(MAYBE_PATH, 'value of a variable', name, x.value)
        for x in ast.walk(tree):
            if isinstance(x, ast.ClassDef):
                for y in x.bases:
                    if isinstance(y, ast.Subscript):
                        add(IDENTIFIED, 'base', name, y)
                        y = y.value
                    add(PATH, 'base', name, y)
            elif isinstance(x, (ast.BinOp, ast.UnaryOp)):
                # there are conditions of blocks too
                if not isinstance(x.op, ast.Not):
                    add(OPERATOR, 'operator', name, x.op)
    return result


def statements(ctx):
    kinds = {}
    for name, tree in typeshed.modules():
        for x in typeshed.recorded(tree):
            kinds.setdefault(type(x).__name__, f'{name}:{x.lineno}')
    for module, dotted, classes in [
            ('arboreal.evaluation', 'evaluate_statement_node', kinds),
            ('signatures', '_from_statement_node', kinds)]:
        ctx.fresh()
        f = ctx.code(module, dotted)
        if f.op != 'dispatch':
            ctx.record(RULE, ctx.where(f), c_.UNDECIDED,
                       ['it is not a single dispatch function'])
            continue
        fallback = ext_handler(f.args[0], 'builtins.object')
        for kind, example in sorted(classes.items()):
            h = ext_handler(f.args[0], 'ast.' + kind)
            ctx.hold(RULE, f'{ctx.where(f)}, {kind} (as in {example})',
                     h is not None and h is not fallback,
                     [f'nothing is registered for {kind}'])
