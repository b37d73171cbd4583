"""Reference semantics of obtaining signatures."""
import ast
import inspect
import types
from typing import Any, Type

from typing_extensions import Self

from paradigm._core.arboreal.construction import from_raw
from paradigm._core.arboreal.conversion import to_maybe_path
from paradigm._core.arboreal.evaluation import evaluate_expression_node
from paradigm._core.arboreal.kind import NodeKind
from paradigm._core.models import (OptionalParameter, ParameterKind,
                                   PlainSignature, RequiredParameter,
                                   from_signatures)
from paradigm._core.scoping import ObjectNotFound, resolve_object_path
from paradigm._core.signatures import (_from_callable, _from_raw_signature,
                                       _from_statement_node, _load_ast_nodes,
                                       _resolve_builder_qualified_path,
                                       _SignatureNotFound,
                                       _statement_node_from_raw,
                                       from_callable, resolve_qualified_paths)
from paradigm._core.stubs import (definitions, nodes_kinds, raw_ast_nodes, references,
                                  submodules, superclasses)

PO = ParameterKind.POSITIONAL_ONLY
POK = ParameterKind.POSITIONAL_OR_KEYWORD
VP = ParameterKind.VARIADIC_POSITIONAL
KO = ParameterKind.KEYWORD_ONLY
VK = ParameterKind.VARIADIC_KEYWORD


# --- receivers

def found_on_type(value):
    return _from_callable(getattr(type(value.__self__), value.__name__))


def with_receiver(value):
    return found_on_type(value).bind(value.__self__)


def of_builtin(value):
    owner = value.__self__
    try:
        if (owner is None or isinstance(owner, types.ModuleType)
                or isinstance(owner, type)):
            return _from_callable(value)
        return with_receiver(value)
    except _SignatureNotFound:
        return introspected(value)


def of_method(value):
    try:
        if isinstance(value.__self__, type):
            return _from_callable(value)
        return with_receiver(value)
    except _SignatureNotFound:
        return introspected(value)


def of_method_wrapper(value):
    try:
        return with_receiver(value)
    except _SignatureNotFound:
        return introspected(value)


def of_unbound(value):
    try:
        return _from_callable(value)
    except _SignatureNotFound:
        return introspected(value)


def introspected(value):
    return _from_raw_signature(inspect.signature(value))


def introspected_class(value):
    return _from_raw_signature(
            inspect.signature(value).replace(return_annotation=Self)
    )


def of_partial(value):
    return from_callable(value.func).bind(*value.args, **value.keywords)


# --- introspection

def from_introspection(raw):
    return PlainSignature(
            *[parameter_from_introspection(parameter)
              for parameter in raw.parameters.values()],
            returns=(Any
                     if raw.return_annotation is inspect.Signature.empty
                     else raw.return_annotation)
    )


def parameter_from_introspection(raw):
    annotation = (Any
                  if raw.annotation is inspect.Parameter.empty
                  else raw.annotation)
    kind = ParameterKind(raw.kind)
    if raw.default is not inspect.Parameter.empty:
        return OptionalParameter(annotation=annotation, default=raw.default,
                                 kind=kind, name=raw.name)
    elif kind is VP or kind is VK:
        return OptionalParameter(annotation=annotation, kind=kind,
                                 name=raw.name)
    else:
        return RequiredParameter(annotation=annotation, kind=kind,
                                 name=raw.name)


# --- stubs

def declared_parameters(node, value, module_path, parent_path):
    declared = node.args
    positional = [*declared.args]
    offset = len(positional) - len(declared.defaults)
    last_only = -1
    for i, a in enumerate(positional):
        if a.arg.startswith('__') and not a.arg.endswith('__'):
            last_only = i
    result = []
    for i, a in enumerate(positional):
        result.append(
                declared_parameter(
                        a, None if i < offset else declared.defaults[i - offset],
                        PO if i <= last_only else POK, module_path,
                        parent_path
                )
        )
    if declared.vararg is not None:
        result.append(declared_parameter(declared.vararg, None, VP,
                                         module_path, parent_path))
    for i, a in enumerate(declared.kwonlyargs):
        result.append(declared_parameter(a, declared.kw_defaults[i], KO,
                                         module_path, parent_path))
    if declared.kwarg is not None:
        result.append(declared_parameter(declared.kwarg, None, VK,
                                         module_path, parent_path))
    if isinstance(value, type):
        return result[1:]
    if any(denotes(d, module_path, parent_path, 'classmethod')
           for d in node.decorator_list):
        return [RequiredParameter(annotation=Type[Self], kind=PO,
                                  name=result[0].name)] + result[1:]
    if nodes_kinds[module_path].get(parent_path) is not NodeKind.CLASS:
        return result
    if any(denotes(d, module_path, parent_path, 'staticmethod')
           for d in node.decorator_list):
        return result
    return [RequiredParameter(annotation=Self, kind=PO,
                              name=result[0].name)] + result[1:]


def denotes(node, module_path, parent_path, name):
    path = to_maybe_path(node)
    return (path is not None
            and resolve_object_path(module_path, parent_path, path,
                                    definitions, references, submodules,
                                    superclasses)
            == (('builtins',), (name,)))


def declared_parameter(a, default, kind, module_path, parent_path):
    annotation = (Any
                  if a.annotation is None
                  else evaluate_expression_node(a.annotation, module_path,
                                                parent_path, {}))
    if default is None:
        if kind is VP or kind is VK:
            return OptionalParameter(annotation=annotation, kind=kind,
                                     name=a.arg)
        return RequiredParameter(annotation=annotation, kind=kind, name=a.arg)
    value = evaluate_expression_node(default, module_path, parent_path, {})
    if value is Ellipsis:
        return OptionalParameter(annotation=annotation, kind=kind, name=a.arg)
    return OptionalParameter(annotation=annotation, default=value, kind=kind,
                             name=a.arg)


def declared_result(node, value, module_path, parent_path):
    if isinstance(value, type) and node.name == '__init__':
        return Self
    if node.returns is None:
        return Any
    return evaluate_expression_node(node.returns, module_path, parent_path,
                                    {})


def declared(node, value, module_path, parent_path):
    return PlainSignature(
            *declared_parameters(node, value, module_path, parent_path),
            returns=declared_result(node, value, module_path, parent_path)
    )


def of_class(value):
    try:
        paths = resolve_qualified_paths(value)
        if not paths:
            raise _SignatureNotFound
        module_path, object_path = _resolve_builder_qualified_path(paths)
        return from_signatures(
                *[_from_statement_node(node, value, module_path,
                                       object_path[:-1])
                  for node in _load_ast_nodes(module_path, object_path)]
        )
    except (_SignatureNotFound, ObjectNotFound):
        return introspected_class(value)


def definition_nodes(module_path, object_path):
    if (module_path not in raw_ast_nodes
            or object_path not in raw_ast_nodes[module_path]):
        raise _SignatureNotFound
    return [_statement_node_from_raw(raw)
            for raw in raw_ast_nodes[module_path][object_path]]


def alternatives(value):
    return first_translated(value, _load_ast_nodes)


def of_stubs(value):
    return first_translated(value, stub_nodes)


def stub_nodes(module_path, object_path):
    if (module_path not in raw_ast_nodes
            or object_path not in raw_ast_nodes[module_path]):
        raise _SignatureNotFound
    return [from_raw(raw) for raw in raw_ast_nodes[module_path][object_path]]


def first_translated(value, load):
    for module_path, object_path in locations(value):
        nodes = load(module_path, object_path)
        try:
            described = [_from_statement_node(node, value, module_path,
                                              object_path[:-1])
                         for node in nodes]
        except (_SignatureNotFound, ObjectNotFound):
            pass
        else:
            return from_signatures(*described)
    raise _SignatureNotFound


def locations(value):
    paths = resolve_qualified_paths(value)
    if not paths:
        return []
    module_path, object_path = paths[0]
    if nodes_kinds[module_path][object_path] is NodeKind.CLASS:
        return [_resolve_builder_qualified_path(paths)]
    return paths


# --- declared variables

def of_annotated(node, value, module_path, parent_path):
    return of_declaration(node.annotation if node.value is None
                          else node.value, value, module_path, parent_path)


def of_assigned(node, value, module_path, parent_path):
    return of_declaration(node.value, value, module_path, parent_path)


def of_declaration(node, value, module_path, parent_path):
    if isinstance(node, (ast.Name, ast.Attribute)):
        where, what = found(node, module_path, parent_path)
        if nodes_kinds[where][what] is NodeKind.CLASS:
            return from_signatures(*[
                _from_statement_node(x, value, where, what).bind(value)
                for x in _load_ast_nodes(where, (*what, '__call__'))
            ])
        nodes = [from_raw(x) for x in raw_ast_nodes[where][what]]
        if len(nodes) == 1:
            return _from_statement_node(nodes[0], value, where, what[:-1])
    elif isinstance(node, ast.Call):
        if found(node.func, module_path, parent_path) == (('typing',),
                                                          ('TypeVar',)):
            for x in node.keywords:
                if x.arg == 'bound':
                    return of_declaration(x.value, value, module_path,
                                          parent_path)
            if len(node.args) > 1:
                return from_signatures(*[
                    of_declaration(x, value, module_path, parent_path)
                    for x in node.args[1:]
                ])
    elif isinstance(node, ast.Subscript):
        if found(node.value, module_path, parent_path) == (('typing',),
                                                           ('Callable',)):
            arguments, result = node.slice.elts
            return PlainSignature(
                    *(listed(arguments.elts, module_path, parent_path)
                      if isinstance(arguments, ast.List)
                      else anything()),
                    returns=evaluate_expression_node(result, module_path,
                                                     parent_path, {})
            )
    raise _SignatureNotFound


def listed(nodes, module_path, parent_path):
    return [RequiredParameter(annotation=evaluate_expression_node(
                                      x, module_path, parent_path, {}),
                              kind=PO, name='_' + str(i))
            for i, x in enumerate(nodes)]


def anything():
    return [OptionalParameter(annotation=Any, kind=VP, name='args'),
            OptionalParameter(annotation=Any, kind=VK, name='kwargs')]


def found(node, module_path, parent_path):
    return resolve_object_path(module_path, parent_path, path_of(node),
                               definitions, references, submodules,
                               superclasses)


def path_of(node):
    if isinstance(node, ast.Name):
        return (node.id,)
    return path_of(node.value) + (node.attr,)
