"""Common parts of checks of models."""
import itertools
import time

from sa import domain
from sa.check import HELD, UNDECIDED, VIOLATED, Broken
from sa.val import (B, FALSE, TRUE, c, cv, is_c, leaves, mk, mkseq, phi, sym)


def plain_call(ctx):
    """A call with arbitrary arguments on an arbitrary signature."""
    s = ctx.code('models', 'PlainSignature')
    try:
        domain.enable_parameters(ctx.it)
    except LookupError as error:
        raise Broken(str(error))
    self_ = sym('self', ('cls', s.args[0]))
    args = sym('args', ('seq', None, 'tuple'))
    kwargs = sym('kwargs', ('map', ('ext', 'str'), None))
    return [self_, mk('splat', args)], [kwargs]


def against_spec(ctx, dotted, rule, spec='models', name=None):
    ctx.attempt(rule, compared, dotted, rule, spec, name)
    bounded_calls(ctx, dotted.rpartition('.')[2], rule)


def compared(ctx, dotted, rule, spec, name):
    args, kwstars = plain_call(ctx)
    f = ctx.code('models', dotted)
    code = ctx.outcome(f, args, kwstars=kwstars)
    reference = ctx.outcome(
        ctx.spec(spec)(name or dotted.rpartition('.')[2]), args,
        kwstars=kwstars)
    ctx.same(rule, ctx.where(f), code, reference)


# --- signatures of few parameters

def alphabet():
    """Classes and kinds of parameters and whether they have defaults."""
    return [*(('RequiredParameter', k, False) for k in (0, 1, 3)),
            *(('OptionalParameter', k, d) for k in (0, 1, 3)
              for d in (True, False)),
            ('OptionalParameter', 2, False), ('OptionalParameter', 4, False)]


def well_formed(word):
    kinds = [k for _, k, _ in word]
    if (kinds != sorted(kinds) or kinds.count(2) > 1 or kinds.count(4) > 1):
        return False
    seen = False
    for name, k, _ in word:
        if k > 1:
            break
        if name == 'OptionalParameter':
            seen = True
        elif seen:
            return False
    return True


def parameters(ctx, word, names='abcdef'):
    kinds = ctx.code('models', 'ParameterKind').args[0].members
    for i, (name, k, has_default) in enumerate(word):
        fields = {'annotation': sym(f'annotation{i}'), 'kind': kinds[k],
                  'name': c(names[i])}
        if has_default:
            fields['default'] = sym(f'default{i}')
        yield ctx.outcome(ctx.code('models', name), [], fields)


def alternatives(ctx, n, first=0):
    """An overloaded signature of few arbitrary alternatives."""
    plain = ctx.code('models', 'PlainSignature').args[0]
    return overloaded(ctx, [sym(f'alternative{i}', ('cls', plain))
                            for i in range(first, first + n)])


def overloaded(ctx, signatures):
    opaque, ctx.it.config.opaque = ctx.it.config.opaque, set()
    r = ctx.outcome(ctx.code('models', 'OverloadedSignature'), signatures)
    ctx.it.config.opaque = opaque
    return r


def bounded(ctx, rule, where, cases):
    """Compares (place, code, reference) of few shapes."""
    started, undecided = time.time(), []
    for place, code, reference in cases:
        if time.time() - started > 240:
            undecided.append('time is over')
            break
        ctx.count('shapes of few parts')
        verdict, details = ctx.compared(code, reference)
        if verdict == VIOLATED:
            return ctx.record(rule, f'{where}, {place}', verdict, details)
        elif verdict == UNDECIDED:
            undecided.append(f'{place}: {details[:1]}')
    ctx.record(rule + ' (few parts)', where,
               UNDECIDED if undecided else HELD, undecided[:3])


def signature(ctx, word, names='abcdef'):
    opaque, ctx.it.config.opaque = ctx.it.config.opaque, set()
    r = ctx.outcome(ctx.code('models', 'PlainSignature'),
                    list(parameters(ctx, word, names)), {'returns': sym('returns')})
    ctx.it.config.opaque = opaque
    return r


def words(limit):
    """Well-formed lists of parameters."""
    for n in range(limit + 1):
        for word in itertools.product(alphabet(), repeat=n):
            if well_formed(word):
                yield word


def spelled(word):
    return '(' + ', '.join(
        f'{n.partition("P")[0].lower()} {("/", "/*", "*args", "*", "**")[k]}'
        f'{" with default" * d}' for n, k, d in word) + ')'


def needed(ctx, rule):
    """Bounded shapes settle what is not decided for arbitrary ones."""
    if ctx.tier == 'thorough':
        return 3
    undecided = any(o.verdict == UNDECIDED and o.rule == rule
                    for o in ctx.outcomes)
    violated = any(o.verdict == VIOLATED for o in ctx.outcomes)
    return 3 if undecided and not violated else 0


def bounded_calls(ctx, name, rule, transform=None):
    """Compares calls with any arguments of signatures of few parameters."""
    limit = needed(ctx, rule)
    if not limit:
        return
    ctx.fresh().config.opaque = set(CONSTRUCTORS if name == 'bind' else ())
    kwargs = sym('kwargs', ('map', ('ext', 'str'), None))
    f = ctx.code('models', 'PlainSignature.' + name)
    reference = ctx.spec('models')(name)
    started, undecided = time.time(), []
    for word in words(limit):
        if time.time() - started > 240:
            undecided.append('time is over')
            break
        self_ = signature(ctx, word)
        for n in range(len(word) + 2):
            args = [self_] + [sym(f'argument{i}') for i in range(n)]
            outcomes = [ctx.outcome(x, args, kwstars=[kwargs])
                        for x in (f, reference)]
            code, spec, care = (transform(*outcomes) if transform is not None
                                else (*outcomes, TRUE))
            ctx.count('calls of signatures of few parameters')
            place = (f'{ctx.where(f)}, parameters {spelled(word)}, '
                     f'{n} positional arguments')
            verdict, details = ctx.compared(code, spec, care=care)
            if verdict == VIOLATED:
                return ctx.record(rule, place, verdict, details)
            elif verdict == UNDECIDED:
                undecided.append(f'{place}: {details[:1]}')
    ctx.record(rule + ' (few parameters)', ctx.where(f),
               UNDECIDED if undecided else HELD, undecided[:3])



MODELS = 'paradigm._core.models'
ANNOTATED = 'paradigm._core.annotated'
CONSTRUCTORS = {MODELS + ':' + n + '.__new__'
                for n in ('PlainSignature', 'OverloadedSignature',
                          'OptionalParameter', 'RequiredParameter')}


def completion(outcome):
    """Whether, and with which error, a call fails."""
    return phi([(g, x if x.op == 'raise' else c('completes'))
                for g, x in leaves(outcome)])


def success(outcome):
    """Value and the condition it is returned under."""
    done = FALSE
    for g, x in leaves(outcome):
        if x.op != 'raise':
            done = B.or_(done, g)
    return phi([(g, x) for g, x in leaves(outcome)
                if x.op != 'raise']), done


def without_spaces(v):
    """Texts are compared up to spaces of their constant chunks."""
    def chunk(x):
        if is_c(x) and isinstance(cv(x), str):
            return c(cv(x).replace(' ', ''))
        return squeeze(x)

    def squeeze(x):
        if x.op == 'phi':
            return phi([(g, squeeze(y)) for g, y in leaves(x)])
        if is_c(x) and isinstance(cv(x), str):
            return chunk(x)
        if x.op == 'seq' and x.args[0] == 'str':
            parts = []
            for p in x.args[1]:
                if p[0] == 'i':
                    parts.append(('i', p[1], chunk(p[2])))
                else:
                    parts.append(p[:4] + (chunk(p[4]),))
            return mkseq('str', parts)
        return x

    return squeeze(v)
