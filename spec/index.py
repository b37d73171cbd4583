"""Reference semantics of indexing of modules.

Names that refer to classes are followed, unless the class is one of those
that enclose the name."""
import warnings
from importlib import import_module

from paradigm._core.catalog import path_to_string, qualified_path_from
from paradigm._core.scoping import contains_object_path


def index(modules_paths):
    found = []
    for module_path in modules_paths:
        try:
            module = import_module(path_to_string(module_path))
        except Exception:
            warnings.warn('...')
        else:
            found += located(module, module_path, (), ())
    result = {}
    for (module_path, object_path), location in found:
        if module_path not in result:
            result[module_path] = {}
        if object_path not in result[module_path]:
            result[module_path][object_path] = []
        result[module_path][object_path].append(location)
    return result


def located(namespace, module_path, path, enclosing):
    result = []
    for name, value in vars(namespace).items():
        if isinstance(value, type):
            if value in enclosing:
                continue
            result.append((qualified_path_from(value),
                           (module_path, (*path, name))))
            result += located(value, module_path, (*path, name),
                              (*enclosing, value))
        elif qualified_path_from(value)[1]:
            result.append((qualified_path_from(value),
                           (module_path, (*path, name))))
    return result


def recorded(qualified_paths, module_path, object_path):
    """Observations of the index."""
    locations = qualified_paths.get(module_path, {}).get(object_path, [])
    return [(located_module_path, located_object_path)
            for located_module_path, located_object_path in locations]


def known(qualified_paths, definitions, references, submodules, superclasses):
    return {
        module_path: {
            object_path: [location for location in locations
                          if contains_object_path(location[0], (),
                                                  location[1], definitions,
                                                  references, submodules,
                                                  superclasses)]
            for object_path, locations in module_qualified_paths.items()
        }
        for module_path, module_qualified_paths in qualified_paths.items()
    }
