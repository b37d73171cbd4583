"""What is persisted, and how it is restored."""
import enum


def restored_kinds(kinds, kind):
    return {
        module_path: {
            object_path: kind(value)
            for object_path, value in objects_kinds.items()
        }
        for module_path, objects_kinds in kinds.items()
    }


def loaded(module, names):
    return tuple([getattr(module, name) for name in names])


def saved(names, texts):
    result = ''
    for name, text in zip(names, texts):
        result += name + ' = ' + text + '\n'
    return result
