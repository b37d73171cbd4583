"""The engine has to tell apart definitions known to differ."""
import ast

from . import compare, domain, engine, val
from .program import ModuleInfo

SOURCE = '''
def first(xs, n):
    return [x for x in xs if x.a][:n]

def same_1(xs, n):
    result = []
    for x in xs:
        if not x.a:
            continue
        result.append(x)
    return result[:n]

def other_1(xs, n):
    return [x for x in xs if not x.a][:n]

def second(xs, n):
    return any(x.a and x.b for x in xs)

def same_2(xs, n):
    for x in xs:
        if x.b:
            if x.a:
                return True
    return False

def other_2(xs, n):
    return any(x.a for x in xs) and any(x.b for x in xs)
'''


def run():
    it = engine.load()
    domain.disable_parameters()
    info = ModuleInfo('selftest', 'selftest', ast.parse(SOURCE))
    info.is_package = False
    it.modules['selftest'] = info
    xs = val.sym('xs', ('seq', None, 'list'))
    n = val.sym('n', ('ext', 'int'))

    def call(name):
        it.alive, it.escapes = val.TRUE, []
        return it.resolve(it.call_value(it.global_('selftest', name),
                                        [xs, n], {}, []))

    def differ(a, b):
        c = compare.Comparison()
        c.values(call(a), call(b))
        return bool(c.mismatches)

    ok = (not differ('first', 'same_1') and differ('first', 'other_1')
          and not differ('second', 'same_2')
          and differ('second', 'other_2'))
    print('self-test', 'passed' if ok else 'failed')
    return 0 if ok else 1
