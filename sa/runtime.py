"""Names of stubs as objects of the runtime.

Modules are importable or not as it is said, what they have is known, classes
are made by a model of `types.new_class`.
"""
import ast

from . import program
from .trees import CORE, World
from .val import (FALSE, G, TRUE, c, cv, is_c, mkseq, ref)

EVALUATION = CORE + 'arboreal.evaluation'
MODEL = '''
class Made:
    """Class or module made at the runtime."""


def new_class(name, bases=(), kwds=None, exec_body=None):
    namespace = {}
    if exec_body is not None:
        exec_body(namespace)
    result = Made()
    for key, value in namespace.items():
        setattr(result, key, value)
    result.__name__ = name
    result.__bases__ = bases
    return result


def ModuleType(name):
    result = Made()
    result.__name__ = name
    result.__dict__ = {}
    return result
'''
IDENTITY = '%identity'


class Runtime(World):
    """World where some of the modules may be imported.

    `objects` are dotted names of what these modules have.
    """

    def __init__(self, it, modules, objects):
        self.objects = set(objects)
        it.has_attribute = self.has_attribute
        self.forwarded, self.modules, self.count = {}, {}, 0
        self.setitem, it.setitem = it.setitem, self.set_item
        info = program.ModuleInfo('types_model', '<model of types>',
                                  ast.parse(MODEL))
        info.is_package = False
        it.modules['types_model'] = info
        it.exact['types_model'] = it.config
        self.types = it.module('types_model')
        it.exact[CORE + 'arboreal.construction'] = it.config
        super().__init__(it, modules)
        it.config.results.update({
            'types.new_class': self.modelled('new_class'),
            'types.ModuleType': self.modelled('ModuleType'),
            'weakref.WeakValueDictionary': self.dictionary,
            'collections.ChainMap': self.chain,
            'builtins.globals': lambda *_: self.globals,
            CORE + 'sources:from_module_path': lambda *_: c('<stub>'),
        })
        it.config.opaque |= {CORE + 'sources:from_module_path'}
        it.exact[EVALUATION] = it.config
        self.globals = it.new_loc(mkseq('dict', []))
        self.evaluation = it.module(EVALUATION)

    def modelled(self, name):
        def make(it, args, r):
            result = it.call_value(self.types.vars[name], args,
                                   dict(it.keywords or ()), [])
            if result.op == 'loc':
                self.count += 1
                it.setattr_(result, IDENTITY, c(self.count))
                fields = dict(it.heap[result].args[1])
                if '__dict__' in fields:
                    self.modules[fields['__dict__']] = result
            return result

        return make

    def dictionary(self, it, args, r):
        return it.call_value(ref('builtins.dict'), args, {}, [])

    def chain(self, it, args, r):
        parts = []
        for x in reversed(args):
            parts.extend(it.dict_parts(x))
        result = it.new_loc(mkseq('dict', parts))
        if args:
            self.forwarded[result] = args[0]
        return result

    def set_item(self, base, key, v):
        while base is not None:
            self.setitem(base, key, v)
            if base in self.modules and is_c(key):
                self.it.setattr_(self.modules[base], cv(key), v)
            base = self.forwarded.get(base)

    def import_module(self, it, args, r):
        name = it.resolve(args[0])
        if not is_c(name):
            return r
        if cv(name) not in self.objects:
            it.raise_(it.alive, ref('builtins.ModuleNotFoundError'))
            return r
        return ref(cv(name))

    def has_attribute(self, v, name):
        it = self.it
        if v.op == 'loc':
            v = it.deref(v)
        if v.op == 'ref' and v.args[0].split('.')[0] in self.objects:
            x = f'{v.args[0]}.{name}'
            return TRUE if x in self.objects else FALSE
        if v.op == 'new' and v.args[0].name == 'Made':
            return TRUE if name in dict(v.args[1]) else FALSE
        return type(it).has_attribute(it, v, name)
