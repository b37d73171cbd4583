"""Spelling of annotations is abstractly interpreted for every kind of them it
is registered for, spelling of nested annotations being left uninterpreted,
and has to give the text, up to spaces, that the reference in
spec/annotations.py gives; numbers of arguments of aliases up to 3 are taken
one by one in addition.  Kinds without a spelling of their own have to be
spelled by their representation."""
from sa import val
from sa.val import B, c, call, mk, ref, sym

from . import models, signatures

MINIMUM = 10
KINDS = {
    'builtins.object': 'spelled',
    'builtins.str': 'spelled',
    'builtins.bytes': 'spelled',
    'builtins.int': 'spelled',
    'enum.Enum': 'spelled',
    'types.FunctionType': 'spelled',
    'types.GenericAlias': 'spelled',
    'typing.NewType': 'spelled',
    'types.NoneType': 'spelled',
    'types.UnionType': 'spelled',
    'typing._SpecialForm': 'spelled',
    'builtins.type': 'spelled_class',
    'typing._GenericAlias': 'spelled_alias',
    'typing._UnionGenericAlias': 'spelled_alias',
    'typing._LiteralGenericAlias': 'spelled_alias',
    'typing._CallableGenericAlias': 'spelled_alias',
    'builtins.list': 'spelled_list',
    'builtins.tuple': 'spelled_tuple',
    'typing.TypeVar': 'spelled_type_variable',
}
TEXT = ('ext', 'str')
NAMES = tuple((name, TEXT) for name in ('__module__', '__qualname__',
                                        '__name__'))
NAMED = ('object', NAMES)
LABELLED = ('object', NAMES + (('_name', TEXT),))
SINGLETONS = {'builtins.NoneType': 'NoneType',
              'builtins.NotImplementedType': 'NotImplementedType',
              'builtins.ellipsis': 'ellipsis'}


def check(ctx):
    for kind, reference in KINDS.items():
        rule = 'annotations are spelled as what they denote'
        for case, value, condition in cases(kind, reference):
            if reference != 'spelled_alias':
                ctx.attempt(rule, spelling, rule, kind, reference, case,
                            value, condition)
                continue
            two = val.eq(val.length(call(ref('typing.get_args'), (value,))),
                         c(2))
            for number in range(4):
                ctx.attempt(rule, spelling, rule, kind, reference,
                            f'{case}, {number} arguments', value, condition,
                            [sym(f'argument{i}', NAMED)
                             for i in range(number)])
            ctx.attempt(rule, spelling, rule, kind, reference, case, value,
                        B.and_(condition, B.not_(two)))


def cases(kind, reference):
    """Values of the kind, all of them together."""
    value = sym('value', NAMED)
    if reference == 'spelled_class':
        singletons = [ref(name) for name in SINGLETONS]
        for singleton in singletons:
            yield (SINGLETONS[singleton.args[0]], singleton, val.TRUE)
        yield 'the rest', value, B.and_(*[B.not_(val.is_(value, singleton))
                                          for singleton in singletons])
    elif reference == 'spelled_alias':
        yield 'with a name', sym('value', LABELLED), val.TRUE
        yield ('without a name', value,
               val.is_(mk('attr', value, '_name'), val.NONE))
    elif reference in ('spelled_tuple', 'spelled_list'):
        name = reference.rpartition('_')[2]
        yield 'one element', val.mkseq(
            name, [('i', val.G(val.TRUE), sym('element'))]), val.TRUE
        value = sym('value', ('ext', kind))
        yield 'the rest', value, B.not_(val.eq(val.length(value), c(1)))
    else:
        yield 'all', value, val.TRUE


def spelling(ctx, rule, kind, reference, case, value, condition,
             arguments=None):
    it = ctx.fresh()
    f = signatures.implementation(ctx, 'to_repr', kind, 'annotated')
    g = ctx.spec('annotations')(reference)
    if reference != 'spelled':
        it.config.opaque = {models.ANNOTATED + ':to_repr'}
    if arguments is not None:
        arguments = val.mkseq('tuple', [('i', val.G(val.TRUE), x)
                                        for x in arguments])
        it.config.results['typing.get_args'] = (
            lambda _, args, r: arguments if args[0] is value else r)
    ctx.same(rule, f'{ctx.where(f)} ({kind.rpartition(".")[2]}, {case})',
             *[models.without_spaces(ctx.outcome(x, [value],
                                                 alive=condition))
               for x in (f, g)], care=condition)
