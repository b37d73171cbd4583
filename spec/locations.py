"""Reference semantics of locating callables and their constructors."""
import sys
import types

from paradigm._core.catalog import (path_from_string, path_to_string,
                                     qualified_path_from)
from paradigm._core.modules import supported_stdlib_qualified_paths
from paradigm._core.scoping import ObjectNotFound, resolve_object_path
from paradigm._core.signatures import (_SignatureNotFound,
                                       _to_class_builder_qualified_path)
from paradigm._core.stubs import (definitions, raw_ast_nodes, references,
                                  submodules, superclasses)


# --- where callables are defined

def unknown(value):
    return (), ()


def of_builtin(value):
    owner = value.__self__
    if isinstance(owner, type):
        return (path_from_string(owner.__module__),
                path_from_string(value.__qualname__))
    elif isinstance(owner, types.ModuleType):
        return (path_from_string(owner.__name__
                                 if owner.__spec__ is None
                                 else owner.__spec__.name),
                path_from_string(value.__qualname__))
    elif owner is None:
        return (), path_from_string(value.__qualname__)
    return (), ()


def of_function(value):
    if value.__module__ is None:
        return (), path_from_string(value.__qualname__)
    return (path_from_string(value.__module__),
            path_from_string(value.__qualname__))


def of_member(value):
    return (path_from_string(value.__objclass__.__module__),
            path_from_string(value.__qualname__))


def of_class(value):
    return (path_from_string(value.__module__),
            path_from_string(value.__qualname__))


# --- locations in stubs

def is_found_at(value, path):
    module_path, object_path = path
    candidate = sys.modules.get(path_to_string(module_path))
    if candidate is None:
        return True
    for part in object_path:
        if not hasattr(candidate, part):
            return False
        candidate = getattr(candidate, part)
    return candidate is value


def resolved(module_path, object_path):
    try:
        return resolve_object_path(module_path, (), object_path, definitions,
                                   references, submodules, superclasses)
    except ObjectNotFound:
        return (), ()


def takes_name_of_builtin(value, module_path, object_path):
    builtin = (('builtins',), object_path)
    return (module_path != ('builtins',)
            and resolved(module_path, object_path) == builtin
            and not is_found_at(value, builtin))


# --- constructors

def hierarchy(module_path, object_path):
    result = [(module_path, object_path)]
    if object_path in superclasses[module_path]:
        for base_module_path, base_object_path in superclasses[module_path][
                object_path]:
            result.extend(hierarchy(base_module_path, base_object_path))
    return result


def constructor(module_path, object_path):
    for class_module_path, class_object_path in hierarchy(module_path,
                                                          object_path):
        for name in ('__init__', '__new__'):
            path = (*class_object_path, name)
            if path in raw_ast_nodes[class_module_path]:
                return class_module_path, path
    return ('builtins',), ('object', '__new__')


def places(value):
    module_path, object_path = qualified_path_from(value)
    index = supported_stdlib_qualified_paths
    if module_path in index and object_path in index[module_path]:
        candidates = [path
                      for path in index[module_path][object_path]
                      if is_found_at(value, path)]
    elif module_path:
        candidates = [(module_path, object_path)]
    else:
        candidates = []
    result = set()
    for candidate_module_path, candidate_object_path in candidates:
        if takes_name_of_builtin(value, candidate_module_path,
                                 candidate_object_path):
            continue
        located = resolved(candidate_module_path, candidate_object_path)
        if located[0] and located[1]:
            result.add(located)
    return result


def unordered(values):
    return set(values)


def only_constructor(found):
    distinct = {_to_class_builder_qualified_path(module_path, object_path)
                for module_path, object_path in found}
    if len(distinct) == 1:
        return the_only(distinct)
    declared = {path
                for path in distinct
                if path != (('builtins',), ('object', '__new__'))}
    if len(declared) == 1:
        return the_only(declared)
    raise _SignatureNotFound


def the_only(values):
    value, = values
    return value
