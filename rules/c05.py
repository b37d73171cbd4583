"""The constructor of plain signatures is abstractly interpreted for an
arbitrary sequence of parameters; the conditions on which it raises, and the
class of the error, are formulas over positions of the sequence, which are
evaluated for every word of abstract parameters (class, kind, coincidence of
names) up to a bound and compared with the definition of well-formedness;
whenever it succeeds, the parameters and the return annotation observed have
to be the given ones."""
import itertools
import time

from sa import val, words
from sa.check import HELD, UNDECIDED, VIOLATED, Broken
from sa.val import B, leaves, mk, ref, sym

from . import models

BOUND = {'quick': 4, 'thorough': 6}
FULL = 4
NOTE = ('all words of up to 4 parameters; in the thorough tier also words of '
        '5 and 6 parameters the first ones of which are well-formed')


RULE = 'exactly ill-formed sequences are rejected with a value error'


def check(ctx):
    ctx.attempt(RULE, unbounded)
    undecided = any(o.verdict == UNDECIDED for o in ctx.outcomes)
    violated = any(o.verdict == VIOLATED for o in ctx.outcomes)
    if (undecided or ctx.tier == 'thorough') and not violated:
        few(ctx)


def few(ctx):
    """Constructs signatures of few parameters, well-formed or not."""
    ctx.fresh()
    f = ctx.code('models', 'PlainSignature')
    where, undecided, started = ctx.where(f), [], time.time()
    letters = [x for x in models.alphabet() if not x[2]]
    for n in range(4):
        for word in itertools.product(letters, repeat=n):
            for names in words.partitions(n):
                if time.time() - started > 400:
                    undecided.append('time is over')
                    break
                ctx.count('signatures constructed')
                given = list(models.parameters(
                    ctx, word, ['n' + str(x) for x in names]))
                r = ctx.outcome(f, given, {'returns': sym('returns')})
                fine = models.well_formed(word) and len(set(names)) == n
                place = (f'{where}, parameters {models.spelled(word)} '
                         f'named {names}')
                found = outcome(ctx, r, given)
                if found is None:
                    undecided.append(place)
                elif found != ('succeeds' if fine else 'ValueError'):
                    return ctx.record(RULE, place, VIOLATED, [
                        f'construction {found}, but expected: '
                        + ('succeeds' if fine else 'ValueError')])
    ctx.record(RULE + ' (few parameters)', where,
               UNDECIDED if undecided else HELD, undecided[:3])


def outcome(ctx, r, given):
    if r.op == 'phi':
        return None
    if r.op == 'raise':
        return ('ValueError' if r.args[0] is ref('builtins.ValueError')
                else val.show(r, 3))
    kept = [ctx.it.resolve(ctx.it.getattr_(r, n))
            for n in ('parameters', 'returns')]
    return ('succeeds'
            if kept == [val.mkseq('tuple', [('i', val.G(val.TRUE), x)
                                            for x in given]),
                        sym('returns')]
            else f'keeps {val.show(kept[0], 3)}')


def unbounded(ctx):
    it = ctx.it
    f = ctx.code('models', 'PlainSignature')
    sorts = [ctx.code('models', n).args[0]
             for n in ('OptionalParameter', 'RequiredParameter')]
    params = sym('params', ('seq', ('union', tuple(sorts)), 'tuple'))
    returns = sym('returns')
    r = ctx.outcome(f, [mk('splat', params)], {'returns': returns})
    where = ctx.where(f)
    cases = []
    for g, x in leaves(r):
        if x.op == 'raise':
            cases.append((g, 'ValueError'
                          if x.args[0] is ref('builtins.ValueError')
                          else val.show(x, 3)))
        else:
            cases.append((g, 'succeeds'))
    for g, x in leaves(r):
        if x.op == 'raise':
            continue
        seen = [it.resolve(it.getattr_(x, n))
                for n in ('parameters', 'returns')]
        ctx.same('parameters are kept in order', where, seen[0], params)
        ctx.same('the return annotation is kept', where, seen[1], returns)
    rule = RULE
    kinds = ctx.code('models', 'ParameterKind').args[0].members
    e = val.elem(params)
    fields = {n: it.getattr_(e, n) for n in ('kind', 'name', 'has_default')}
    if any(fields[n].op != 'attr' for n in ('kind', 'name')):
        raise Broken('properties of parameters are not fields')
    kind_field, name_field = (fields[n].args[1] for n in ('kind', 'name'))
    mentioned = {n.args[1] for g, _ in cases for a in B.support(g)
                 for n in val.nodes_in(a) if n.op == 'attr'}
    alphabet = []
    optional, required = sorts
    for i, k in enumerate(kinds):
        if i in (0, 1, 3):
            alphabet.append((required, {kind_field: k}))
        default_field = fields['has_default']
        name = (default_field.args[1] if default_field.op == 'attr'
                else '_has_default')
        if name in mentioned and i in (0, 1, 3):
            alphabet.append((optional, {kind_field: k, name: False}))
            alphabet.append((optional, {kind_field: k, name: True}))
        else:
            alphabet.append((optional, {kind_field: k, name: False}))
    count = 0
    try:
        for n in range(BOUND[ctx.tier] + 1):
            for letters in itertools.product(alphabet, repeat=n):
                fine = well_formed(letters, kinds, kind_field, optional)
                if n > FULL and not well_formed(letters[:-1], kinds,
                                                kind_field, optional):
                    continue
                for names in words.partitions(n):
                    if n > FULL and len(set(names[:-1])) < n - 1:
                        continue
                    w = words.Word(params, letters, names, name_field)
                    expected = ('succeeds'
                                if fine and len(set(names)) == n
                                else 'ValueError')
                    count += 1
                    found = [what for g, what in cases
                             if words.truth(g, w, ())]
                    if found != [expected]:
                        ctx.count('words evaluated', count)
                        return ctx.record(
                            rule, where, VIOLATED,
                            [f'construction {" & ".join(found) or "?"}, '
                             f'but expected: {expected}', 'for parameters:']
                            + ['  ' + text(x, i, kind_field)
                               for x, i in zip(letters, names)])
    except words.Unsupported as error:
        return ctx.record(rule, where, UNDECIDED, [str(error)])
    ctx.count('words evaluated', count)
    ctx.record(rule, where, HELD)


def well_formed(letters, kinds, kind_field, optional):
    order = [kinds.index(x[kind_field]) for _, x in letters]
    if order != sorted(order):
        return False
    if order.count(2) > 1 or order.count(4) > 1:
        return False
    seen = False
    for (sort, _), k in zip(letters, order):
        if k > 1:
            break
        if sort is optional:
            seen = True
        elif seen:
            return False
    return True


def text(letter, name, kind_field):
    sort, fields = letter
    return f'{sort.qualname}(kind={fields[kind_field].args[1]}, name=n{name})'
