"""Comparison of annotations is abstractly interpreted for every kind of the
left operand it is registered for, the right one being arbitrary, nested
comparisons being left uninterpreted, and has to be equivalent to the
reference in spec/annotations.py."""
import re

from sa.val import (B, NONE, TRUE, call, dist, eq, is_, ref, seq, show,
                    sym)

from . import signatures

MINIMUM = 14
KINDS = {
    'builtins.object': 'equal',
    'builtins.str': 'equal',
    'builtins.bytes': 'equal',
    'types.NoneType': 'equal',
    'builtins.type': 'equal_aliases',
    'typing._GenericAlias': 'equal_aliases',
    'typing._UnionGenericAlias': 'equal_aliases',
    'typing._LiteralGenericAlias': 'equal_aliases',
    'typing._SpecialGenericAlias': 'equal_aliases',
    'types.GenericAlias': 'equal_aliases',
    'types.UnionType': 'equal_aliases',
    'builtins.list': 'equal_sequences',
    'builtins.tuple': 'equal_sequences',
    'typing.TypeVar': 'equal_type_variables',
    'typing.ParamSpec': 'equal_parameters_specifications',
    'typing.ParamSpecArgs': 'equal_parts',
    'typing.ParamSpecKwargs': 'equal_parts',
    'typing.NewType': 'equal_new_types',
}


def check(ctx):
    spec = ctx.spec('annotations')
    for kind, reference in KINDS.items():
        f = signatures.implementation(ctx, 'are_equal', kind, 'annotated')
        operands = [sym('left'), sym('right')]
        ctx.same('annotations are compared by what they consist of',
                 f'{ctx.where(f)} ({kind.rpartition(".")[2]})',
                 ctx.outcome(f, operands),
                 ctx.outcome(spec(reference), operands))
    for left, right in ((0, 0), (1, 1), (2, 2), (1, 2), (2, 3)):
        if ctx.tier == 'thorough' or right < 3:
            symmetry(ctx, left, right)
    if ctx.tier == 'thorough':
        symmetry(ctx, 3, 3)


SEQUENCES = ('builtins.list', 'builtins.tuple')
ALIASES = [k for k, r in KINDS.items() if r == 'equal_aliases']


def symmetry(ctx, *sizes):
    """Operands of any two kinds can be swapped, given nested ones can."""
    results = ctx.it.config.results
    results['are_equal'] = unordered
    kinds = [k for k in KINDS if k != 'builtins.object']
    done = set()
    for i, kind in enumerate(kinds):
        for other in kinds[:i + 1]:
            pair = tuple(signatures.implementation(ctx, 'are_equal', k,
                                                   'annotated')
                         for k in (kind, other))
            groups = (kind in ALIASES, other in ALIASES)
            sized = [k in ALIASES or k in SEQUENCES
                     or k == 'typing.TypeVar' for k in (kind, other)]
            if all(sized) or sizes == (0, 0):
                key = (pair, groups, sizes,
                       None if all(groups) and pair[0] is pair[1]
                       else (kind, other))
                if key in done:
                    continue
                done.add(key)
                swap(ctx, pair, (kind, other), sizes)


def swap(ctx, functions, kinds, sizes):
    results = ctx.it.config.results
    operands, arguments = [], {}
    for side, kind, n in zip(('left', 'right'), kinds, sizes):
        items = [sym(f'{side} argument {i}') for i in range(n)]
        if kind in SEQUENCES:
            x = seq(kind.rpartition('.')[2], items)
        else:
            x = sym(side, ('ext', kind))
        operands.append(x)
        arguments[x] = seq('tuple', items)
        ctx.it.known[x, '__constraints__'] = arguments[x]
    results['typing.get_args'] = lambda it, args, r: (
        arguments.get(args[0], r))
    results['typing.get_origin'] = lambda it, args, r: (
        r if args[0] not in operands
        or kinds[operands.index(args[0])] in ALIASES else NONE)
    left, right = operands
    care = TRUE
    if kinds[0] != kinds[1]:
        care = B.and_(B.not_(is_(left, right)), B.not_(eq(left, right)))
        if not all(k in ALIASES for k in kinds):
            care = B.and_(care, B.not_(is_(
                *[ctx.outcome(ref('builtins.type'), [x]) for x in operands])))
            # origins are classes
            for x, y in ((left, right), (right, left)):
                origin = call(ref('typing.get_origin'), (x,), ())
                care = B.and_(care, B.not_(is_(origin, y)))
    f, g = functions
    ctx.same('order of annotations does not matter',
             f'{ctx.where(f)}, {ctx.where(g)} '
             f'({kinds[0].rpartition(".")[2]} of {sizes[0]}, '
             f'{kinds[1].rpartition(".")[2]} of {sizes[1]} arguments)',
             ctx.outcome(f, [left, right]), ctx.outcome(g, [right, left]),
             care=care)


def unordered(it, args, result):
    def leaf(x):
        if x.op != 'call':
            return x
        return call(x.args[0], tuple(sorted(x.args[1], key=text)), x.args[2])

    return dist(leaf, result)


def text(v):
    return re.sub(r'\be\d+<', 'e<', show(v, 12))
