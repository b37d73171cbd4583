"""Iteration over sets, over dictionaries filled in the order of sets and over
whatever is made of them is found, by a dataflow analysis of the whole
package, never to determine the order of a sequence, a text, a choice of one
of many or the last of assignments, which is persisted or returned; effects of
functions called by such loops are taken into account."""
import os

from sa import order
from sa.check import Broken, HELD, UNDECIDED, VIOLATED

MINIMUM = 40
TECHNIQUE = ('interprocedural dataflow analysis of orders of iteration '
             '(allocation sites, symbolic effects of functions)')
ASSUMPTIONS = ['functions of the standard library the arguments of which are '
               'not in an arbitrary order give no arbitrarily ordered '
               'results (directories are listed the same in every run)',
               'conditions do not count as dependencies: what is done for '
               'some of the elements only, and not with them, is taken to '
               'be the same in any order',
               'elements are told by tuples, paths and texts made of them']
LEVEL = 'other'
NOTE = ('all the modules of the package are analysed, stubs and modules '
        'caches being built included; values passed to a function run by '
        'another process are taken to get to it as they are')


def check(ctx):
    it = ctx.it
    for name in ('sources', 'stubs', 'modules', 'signatures', 'index',
                 'pretty', 'caching', 'models', 'scoping', 'discovery',
                 'arboreal.conversion', 'arboreal.evaluation'):
        try:
            it.module('paradigm._core.' + name)
        except (KeyError, LookupError):
            raise Broken(f'module {name} is not found')
    modules = []
    for directory, _, names in sorted(os.walk(os.path.join(ctx.root,
                                                           'paradigm'))):
        for file in sorted(names):
            path = os.path.join(directory, file)
            if not file.endswith('.py') or file.startswith('_mypy_'):
                continue
            dotted = os.path.relpath(path, ctx.root)[:-3].split(os.sep)
            if dotted[-1] == '__init__':
                del dotted[-1]
            modules.append(load('.'.join(dotted), path))
    analysis = order.Analysis(modules,
                              lambda p: os.path.relpath(p, ctx.root))
    rule = 'order of iteration gets to no results'
    if not analysis.stable:
        ctx.record(rule, 'paradigm', UNDECIDED,
                   ['no fixed point has been reached'])
        return
    for reason, what in sorted(analysis.violations):
        where, _, why = reason.partition(': ')
        ctx.record(rule, where, VIOLATED, [why, what], key=where)
    for where, arbitrary in sorted(analysis.sites.items()):
        ctx.record(('arbitrary order of the iteration matters nowhere'
                    if arbitrary else 'iteration is in a definite order'),
                   where, HELD)
    ctx.count('functions', len(analysis.functions))
    ctx.count('calls of functions of the package', analysis.calls)
    ctx.count('objects', len(analysis.heap))
    ctx.count('iterations in an arbitrary order',
              sum(analysis.sites.values()))
    ctx.functions.update(f'{f.module.name}:{f.name}'
                         for f in analysis.functions.values())
    if not any(analysis.sites.values()):
        ctx.record('there are sets to iterate over', 'paradigm', HELD)


class Module:
    def __init__(self, name, path, tree, is_package):
        self.name, self.path, self.tree = name, path, tree
        self.is_package = is_package


def load(name, path):
    import ast
    with open(path, encoding='utf-8') as f:
        return Module(name, path, ast.parse(f.read(), path),
                      path.endswith('__init__.py'))
