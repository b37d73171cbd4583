"""Reference semantics of looking names up in stubs."""
from paradigm._core.scoping import ObjectNotFound


def resolve(module_path, parent_path, object_path, definitions, references,
            submodules, superclasses):
    found = lookup(module_path, parent_path, object_path, definitions,
                   references, submodules, superclasses, (), [])
    if found is None:
        raise ObjectNotFound
    return found


def contains(module_path, parent_path, object_path, definitions, references,
             submodules, superclasses):
    return lookup(module_path, parent_path, object_path, definitions,
                  references, submodules, superclasses, (), []) is not None


def is_defined(scope, path):
    for name in path:
        if name not in scope:
            return False
        scope = scope[name]
    return True


def lookup(module_path, parent_path, object_path, definitions, references,
           submodules, superclasses, visited, followed):
    if module_path not in definitions:
        return None
    if not object_path:
        return module_path, ()
    scope = definitions[module_path]
    name = object_path[0]
    if parent_path and is_defined(scope, (*parent_path, name)):
        return member(module_path, (*parent_path, *object_path), definitions,
                      references, submodules, superclasses, visited, followed)
    if name in scope:
        return member(module_path, object_path, definitions, references,
                      submodules, superclasses, visited, followed)
    for other in submodules.get(module_path, []):
        if other not in visited:
            found = lookup(other, (), object_path, definitions, references,
                           submodules, superclasses, (*visited, module_path),
                           followed)
            if found is not None:
                return found
    for n in range(len(object_path), 0, -1):
        name = object_path[:n]
        if name in references[module_path]:
            if (module_path, name) in followed:
                return None
            return referred(module_path, name, object_path[n:], definitions,
                            references, submodules, superclasses,
                            (*visited, module_path), followed)
    if is_defined(definitions[('builtins',)], object_path):
        return ('builtins',), object_path
    return None


def referred(module_path, name, rest, definitions, references, submodules,
             superclasses, visited, followed):
    nested = [*followed, (module_path, name)]
    module_path, object_path = references[module_path][name]
    target = lookup(module_path, (), object_path, definitions, references,
                    submodules, superclasses, visited, nested)
    if target is None:
        target = (*module_path, *object_path), ()
    module_path, object_path = target
    return lookup(module_path, (), (*object_path, *rest), definitions,
                  references, submodules, superclasses, visited, followed)


def member(module_path, object_path, definitions, references, submodules,
           superclasses, visited, followed):
    """The first name is known to be defined."""
    scope = definitions[module_path][object_path[0]]
    for n in range(1, len(object_path)):
        name = object_path[n]
        if name not in scope:
            return inherited(module_path, object_path[:n], object_path[n:],
                             definitions, references, submodules,
                             superclasses, visited, followed)
        scope = scope[name]
    return module_path, object_path


def inherited(module_path, class_path, rest, definitions, references,
              submodules, superclasses, visited, followed):
    module_superclasses = superclasses.get(module_path, {})
    for base_module_path, base_path in module_superclasses.get(class_path,
                                                               []):
        found = lookup(base_module_path, (), (*base_path, *rest), definitions,
                       references, submodules, superclasses,
                       (*visited, module_path), followed)
        if found is not None:
            return found
    if class_path[0] == 'object':
        return None
    return lookup(('builtins',), (), ('object', *rest), definitions,
                  references, submodules, superclasses, visited, followed)
