from plant import plant

F = 'paradigm/_core/models.py'
HEAD = '''
from paradigm._core.models import (OptionalParameter, OverloadedSignature,
                                   ParameterKind as K, PlainSignature,
                                   RequiredParameter)


def req(name, kind):
    return RequiredParameter(annotation=int, name=name, kind=kind)


def opt(name, kind, **kw):
    return OptionalParameter(annotation=int, name=name, kind=kind, **kw)


def sig(*ps):
    return PlainSignature(*ps, returns=str)


PO, POK, VP, KO, VK = K

'''

plant('none-is-not-supplied', 'C02', [(F, '''            if name not in kwargs
        }''', '''            if kwargs.get(name) is None
        }''')], HEAD + '''
s = sig(req('a', POK))
assert s.all_set(a=1)
assert s.all_set(a=None)
''', 'a required parameter supplied by keyword with None',
      'all_set() takes None for a missing argument')

plant('variadic-name-as-keyword', 'C03', [(F, '''               for parameter in parameters
               if (parameter.kind is ParameterKind.POSITIONAL_OR_KEYWORD
                   or parameter.kind is ParameterKind.KEYWORD_ONLY)}
''', '''               for parameter in parameters
               if parameter.kind is not ParameterKind.POSITIONAL_ONLY}
''')], HEAD + '''
s = sig(opt('args', VP), req('a', KO))
s.bind(a=1)
try:
    s.bind(args=1)
except TypeError:
    pass
else:
    raise SystemExit('bound a variadic parameter by its name')
''', 'a keyword named after the variadic positional parameter, no variadic '
      'keyword one', 'bind() accepts what expects() does not')

