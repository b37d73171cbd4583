"""Every method and property of each model class is abstractly interpreted,
with everything it calls (constructors excluded), for an arbitrary receiver
and arbitrary arguments, collecting assignments of attributes, item
assignments, deletions and calls of mutating methods: none may be about the
receiver, a parameter or signature among the arguments, or anything they hold.
Constructors may only assign to the object they have allocated.  Besides,
no code of the package outside of constructors of model classes assigns to
the attributes their instances consist of, and no mutating method is called
on them."""
import ast

from sa import domain, val
from sa.calls import MUTATING
from sa.check import HELD, UNDECIDED, VIOLATED, Broken
from sa.val import mk, sym

from . import models

CLASSES = ('RequiredParameter', 'OptionalParameter', 'PlainSignature',
           'OverloadedSignature')
MINIMUM = 30


def check(ctx):
    it = ctx.it
    domain.enable_parameters(it)
    own_fields = set()
    # methods are analysed one by one
    opaque = {models.ANNOTATED + ':to_repr', models.ANNOTATED + ':are_equal'}
    for owner in CLASSES:
        k = ctx.code('models', owner).args[0]
        own_fields |= fields(k)
        opaque |= {v.args[0].key() for v in k.ns.values() if v.op == 'func'}
        constructor = k.lookup('__new__') or k.lookup('__init__')
        if constructor is None:
            raise Broken(f'{owner} has no constructor')
    for owner in CLASSES:
        k = ctx.code('models', owner).args[0]
        for name, v in sorted(k.ns.items()):
            f = function_of(v)
            if f is not None:
                it.config.opaque = opaque - {f.args[0].key()}
                one(ctx, k, name, f)
    lint(ctx, own_fields)


def fields(k):
    result = set(k.annotations)
    slots = k.ns.get('__slots__')
    if slots is not None and slots.op == 'seq':
        for p in slots.args[1]:
            if p[0] == 'i' and val.is_c(p[2]):
                result.add(val.cv(p[2]))
    elif slots is not None and val.is_c(slots):
        result.add(val.cv(slots))
    result.discard('__slots__')
    return result


def function_of(v):
    if v.op == 'func':
        return v
    if v.op in ('property', 'static', 'classm', 'cached_property'):
        return next((a for a in v.args
                     if isinstance(a, val.V) and a.op == 'func'), None)
    return None


def one(ctx, k, name, f):
    it = ctx.it
    node = f.args[0].node
    a = node.args
    self_ = (mk('cls', k) if name == '__new__' else sym('self', ('cls', k)))
    args = [self_]
    for x in (a.posonlyargs + a.args)[1:]:
        args.append(sym(x.arg, ('cls', k) if x.arg == 'other' else None))
    if a.vararg is not None:
        args.append(mk('splat', sym('args', ('seq', None, 'tuple'))))
    kwargs = {x.arg: sym(x.arg) for x in a.kwonlyargs}
    kwstars = []
    if a.kwarg is not None:
        kwstars = [sym('kwargs', ('map', ('ext', 'str'), None))]
    rule = 'nothing that existed before is changed'
    try:
        ctx.outcome(f, args, kwargs, kwstars)
    except Exception as error:
        ctx.record(rule, ctx.where(f), UNDECIDED, [repr(error)[:200]])
        return
    bad = [(kind, target, details)
           for g, kind, target, details in it.effects
           if g != 0 and reaches(target)]
    if bad:
        ctx.record(rule, ctx.where(f), VIOLATED,
                   [f'{kind} of {val.show(target, 4)[:150]}: '
                    + ', '.join(map(str, details))[:150]
                    for kind, target, details in bad[:5]])
    else:
        ctx.record(rule, ctx.where(f), HELD)


def reaches(v):
    """Whether the object is (a part of) the receiver or of an argument."""
    depth = 0
    while isinstance(v, val.V):
        if v.op == 'sym':
            return not (depth == 0 and v.args[0] in ('kwargs', 'args'))
        if v.op in ('attr', 'getitem', 'at', 'elem', 'sel', 'lastsel',
                    'prev', 'slice'):
            v = v.args[0]
            depth += 1
        else:
            return False
    return False


def lint(ctx, own_fields):
    """Assignments to fields of models anywhere in the package."""
    rule = 'fields of models are not assigned outside of constructors'
    for name, module in sorted(ctx.it.modules.items()):
        if not name.startswith('paradigm') or module.tree is None:
            continue
        bad = []
        for cls, function, node in sites(module.tree):
            if (cls in CLASSES and function in ('__new__', '__init__')
                    and name == models.MODELS):
                continue
            what = changed(node, own_fields)
            if what is not None:
                bad.append(f'{name}:{node.lineno} {cls or ""}'
                           f'{"." if cls else ""}{function or ""}: {what}')
        ctx.record(rule, name, VIOLATED if bad else HELD, bad)


def sites(tree):
    def go(node, cls, function):
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.ClassDef):
                yield from go(child, child.name, None)
            elif isinstance(child, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from go(child, cls, function or child.name)
            else:
                if isinstance(child, (ast.Attribute, ast.Call)):
                    yield cls, function, child
                yield from go(child, cls, function)

    yield from go(tree, None, None)


def changed(node, own_fields):
    if isinstance(node, ast.Attribute):
        if (isinstance(node.ctx, (ast.Store, ast.Del))
                and node.attr in own_fields
                and not (isinstance(node.value, ast.Name)
                         and node.value.id in ('cls',))):
            return f'{ast.unparse(node)} is assigned'
        return None
    f = node.func
    if (isinstance(f, ast.Attribute) and f.attr in MUTATING
            and isinstance(f.value, ast.Attribute)
            and f.value.attr in own_fields):
        return f'{ast.unparse(f)} is called'
    return None
