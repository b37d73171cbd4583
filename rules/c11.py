"""__repr__ of each model class is abstractly interpreted for an arbitrary
well-formed receiver into texts under conditions.  Each text is parsed as a
call of the class of the receiver; what is passed for each argument of the
constructor, and when, has to be equivalent to what the receiver was built
from, whatever the order of keywords and spaces.  Texts of values, kinds
and parameters are opaque; those of annotations and of kinds are compared
with the reference in spec/parameters.py separately."""
from sa import domain, val
from sa.check import UNDECIDED, VIOLATED
from sa.val import ABSENT, B, c, cv, is_c, leaves, mk, mkseq, phi, sym

from . import models

CASES = [('RequiredParameter', 'required'), ('OptionalParameter', 'optional'),
         ('PlainSignature', 'plain'), ('OverloadedSignature', 'overloaded')]


def check(ctx):
    it = ctx.it
    spec = ctx.spec('parameters')
    opaque = {models.ANNOTATED + ':to_repr'} | {
        models.MODELS + f':{owner}.__repr__' for owner, _ in CASES} | {
        models.MODELS + ':ParameterKind.__repr__'}
    domain.enable_parameters(it)
    rule = 'the representation spells the call of the constructor'
    for owner, name in CASES:
        k = ctx.code('models', owner).args[0]
        f = ctx.code('models', owner + '.__repr__')
        it.config.opaque = opaque - {models.MODELS + f':{owner}.__repr__'}
        args = [sym('self', ('cls', k))]
        code = ctx.outcome(f, args)
        expected = ctx.outcome(spec(name + '_repr'), args)
        try:
            a, b = structure(code, owner), structure(expected, owner)
        except Unparsable as error:
            if val.has_unk(code):
                ctx.record(rule, ctx.where(f), UNDECIDED, [str(error)])
            else:
                ctx.record(rule, ctx.where(f), VIOLATED,
                           [str(error), val.show(code, 8)[:400]])
            continue
        for key in sorted(set(a) | set(b), key=str):
            ctx.same(f'{rule}: {key}', ctx.where(f),
                     phi([(g, v) for g, v in a.get(key, [])]),
                     phi([(g, v) for g, v in b.get(key, [])]))
    it.config.opaque = opaque - {models.MODELS + ':ParameterKind.__repr__'}
    kind = ctx.code('models', 'ParameterKind')
    f = kind.args[0].lookup('__repr__')
    if f is None:
        ctx.record('kinds are named with their class',
                   ctx.where(kind), VIOLATED,
                   ['ParameterKind has no representation of its own'])
    else:
        args = [sym('self', ('enum', kind.args[0]))]
        ctx.same('kinds are named with their class', ctx.where(f),
                 ctx.outcome(f, args),
                 ctx.outcome(spec('kind_repr'), args))


class Unparsable(Exception):
    pass


def structure(v, owner):
    """Arguments spelled, by their names, with their conditions."""
    result = {}
    covered = {}
    for g, x in leaves(v):
        if x.op == 'raise':
            result.setdefault('completion', []).append((g, x))
            continue
        result.setdefault('completion', []).append((g, c('completes')))
        for k, value in parse(x, owner).items():
            result.setdefault(k, []).append((g, value))
            covered[k] = B.or_(covered.get(k, 0), g)
    for k, b in covered.items():
        if b != 1:
            many = any(v.op == 'seq' and v.args[0] == 'list'
                       for _, v in result[k])
            result[k].append((B.not_(b), mkseq('list', []) if many
                              else ABSENT))
    return result


def tokens_of(ch):
    if is_c(ch):
        return list(cv(ch))
    if ch.op == 'seq' and ch.args[0] == 'str':
        result = []
        for p in ch.args[1]:
            if p[0] != 'i' or p[1].b != 1:
                raise Unparsable('text is too complex')
            result.extend(tokens_of(p[2]))
        return result
    if ch.op == 'join' and is_c(ch.args[0]) and (
            cv(ch.args[0]).strip() == ',') and ch.args[1].op == 'seq':
        # arguments separated by commas
        result = []
        for i, p in enumerate(ch.args[1].args[1]):
            if i:
                result.append(',')
            if p[0] == 'i':
                if p[1].b != 1:
                    raise Unparsable('text is too complex')
                result.extend(tokens_of(p[2]))
            else:
                result.append(mk('seq', 'list', (p,)))
        return result
    return [ch]


def parse(x, owner):
    chunks = []
    if x.op == 'seq' and x.args[0] == 'str':
        for p in x.args[1]:
            if p[0] != 'i' or p[1].b != 1:
                raise Unparsable('text is too complex')
            chunks.append(p[2])
    elif is_c(x):
        chunks.append(x)
    else:
        raise Unparsable('representation is not a text')
    tokens = []
    for ch in chunks:
        tokens.extend(tokens_of(ch))
    tokens = [t for t in tokens if t not in (' ', '\n')]
    head = list(owner) + ['(']
    if tokens[:len(head)] != head or tokens[-1] != ')':
        raise Unparsable(f'representation is not a call of {owner}')
    args, piece = [], []
    for t in tokens[len(head):-1] + [',']:
        if t == ',':
            if piece:
                args.append(piece)
            piece = []
        else:
            piece.append(t)
    result = {}
    position = 0
    for piece in args:
        if '=' in piece:
            i = piece.index('=')
            name, value = ''.join(map(str, piece[:i])), piece[i + 1:]
        else:
            name, value = position, piece
            position += 1
        if len(value) != 1 or isinstance(value[0], str):
            raise Unparsable(f'argument {name} is not a text of a value')
        result[name] = value[0]
    return result
