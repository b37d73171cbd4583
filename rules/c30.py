"""Location of definitions of a callable in stubs is abstractly interpreted
for an arbitrary callable and up to two (three when thorough) indexed
locations with paths of one or two names: which modules are loaded, which
attributes are found, which of them are the callable, and what names resolve
to are arbitrary.  Locations have to be those of the reference in
spec/locations.py, their order aside."""
from sa.check import Broken
from sa.val import (G, TRUE, leaves, mkseq, phi, seq, sym)

from .signatures import STRINGS, pair

MINIMUM = 8
TECHNIQUE = ('abstract interpretation over bounded shapes of the index, '
             'equivalence with a reference')


def check(ctx):
    for n in range(4 if ctx.tier == 'thorough' else 3):
        for length in (1, 2):
            for indexed in (True, False):
                if n and not indexed:
                    continue
                scenario(ctx, n, length, indexed)


def scenario(ctx, n, length, indexed):
    it = ctx.fresh()
    value = sym('value', None)
    module_path = sym('module_path', STRINGS)
    object_path = names('name', length)
    located = [seq('tuple', [sym(f'module_path{i}', STRINGS),
                             names(f'name{i}_', length)]) for i in range(n)]
    places = mkseq('list', [('i', G(TRUE), x) for x in located])
    module = it.module('paradigm._core.modules')
    name = 'supported_stdlib_qualified_paths'
    if module is None or name not in module.data:
        raise Broken(f'modules:{name} is not found')
    module.vars[name] = mapping(
        [(module_path, mapping([(object_path, places)]))] if indexed else [])
    onf = ctx.code('scoping', 'ObjectNotFound')
    it.config.opaque = {'resolve_object_path', 'path_to_string',
                        'qualified_path_from'}
    it.config.may_raise = {'resolve_object_path': (onf,)}
    it.config.results = {
        'qualified_path_from':
        lambda *_: seq('tuple', [module_path, object_path]),
        'resolve_object_path': pair
    }
    spec = ctx.spec('locations')
    f = ctx.code('signatures', 'resolve_qualified_paths')
    code = ctx.outcome(f, [value])
    ctx.same('stubs are used only for the very objects they name',
             f'{ctx.where(f)} ({n} locations of {length} names, '
             f'{"indexed" if indexed else "unknown"})',
             phi([(g, x if x.op == 'raise'
                   else ctx.outcome(spec('unordered'), [x]))
                  for g, x in leaves(code)]),
             ctx.outcome(spec('places'), [value]))


def names(prefix, n):
    return seq('tuple', [sym(f'{prefix}{i}', ('ext', 'builtins.str'))
                         for i in range(n)])


def mapping(pairs):
    return mkseq('dict', [('i', G(TRUE), seq('tuple', [k, v]))
                          for k, v in pairs])
