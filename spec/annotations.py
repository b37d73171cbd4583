"""Reference semantics of comparison and representation of annotations."""
import typing as t

from paradigm._core.annotated import are_equal, to_repr
from typing_extensions import Literal


# --- comparison

def equal(left, right):
    return left == right


def equal_aliases(left, right):
    left_origin = t.get_origin(left) or left
    right_origin = t.get_origin(right) or right
    if left_origin is not right_origin:
        return False
    left_args, right_args = t.get_args(left), t.get_args(right)
    if len(left_args) != len(right_args):
        return False
    if left_origin is t.Union or left_origin is Literal:
        return is_covered(left_args, right_args) and is_covering(left_args,
                                                                 right_args)
    return all(are_equal(x, y) for x, y in zip(left_args, right_args))


def is_covered(left, right):
    return all(any(are_equal(x, y) for y in right) for x in left)


def is_covering(left, right):
    return all(any(are_equal(x, y) for x in left) for y in right)


def equal_sequences(left, right):
    return (type(left) is type(right) and len(left) == len(right)
            and all(are_equal(x, y) for x, y in zip(left, right)))


def equal_type_variables(left, right):
    if type(left) is not type(right):
        return False
    left_constraints = getattr(left, '__constraints__', ())
    right_constraints = getattr(right, '__constraints__', ())
    return (left.__name__ == right.__name__
            and left.__covariant__ is right.__covariant__
            and left.__contravariant__ is right.__contravariant__
            and are_equal(left.__bound__, right.__bound__)
            and len(left_constraints) == len(right_constraints)
            and all(are_equal(x, y)
                    for x, y in zip(left_constraints, right_constraints)))


def equal_parameters_specifications(left, right):
    return (type(left) is type(right)
            and left.__name__ == right.__name__
            and left.__covariant__ is right.__covariant__
            and left.__contravariant__ is right.__contravariant__
            and are_equal(left.__bound__, right.__bound__))


def equal_parts(left, right):
    return (type(left) is type(right)
            and are_equal(left.__origin__, right.__origin__))


_sentinel = object()


def equal_new_types(left, right):
    return (type(left) is type(right)
            and (getattr(left, '__qualname__', _sentinel)
                 == getattr(right, '__qualname__', _sentinel))
            and are_equal(left.__supertype__, right.__supertype__))


# --- representation

def spelled(value):
    return repr(value)


def spelled_list(value):
    return '[' + ', '.join([to_repr(x) for x in value]) + ']'


def spelled_tuple(value):
    if len(value) == 1:
        return '(' + to_repr(value[0]) + ',)'
    return '(' + ', '.join([to_repr(x) for x in value]) + ')'


def spelled_class(value):
    if value in [type(None), type(NotImplemented), type(Ellipsis)]:
        return 'type(' + repr(value()) + ')'
    name = value.__module__ + '.' + value.__qualname__
    arguments = t.get_args(value)
    if not arguments:
        return name
    return name + '[' + ', '.join([to_repr(x) for x in arguments]) + ']'


def spelled_alias(value):
    origin, arguments = t.get_origin(value), t.get_args(value)
    if origin is t.Union:
        if len(arguments) == 2 and type(None) in arguments:
            other = (arguments[1] if arguments[0] is type(None)
                     else arguments[0])
            return to_repr(t.Optional) + '[' + to_repr(other) + ']'
        return (to_repr(origin)
                + '[' + ', '.join([to_repr(x) for x in arguments]) + ']')
    name = (to_repr(origin) if value._name is None
            else f'{value.__module__}.{value._name}')
    if not arguments:
        return name + '[()]'
    return name + '[' + ', '.join([to_repr(x) for x in arguments]) + ']'


def spelled_type_variable(value):
    arguments = [repr(value.__name__),
                 *[to_repr(x) for x in value.__constraints__]]
    if value.__bound__ is not None:
        arguments.append('bound=' + to_repr(value.__bound__))
    if value.__contravariant__:
        arguments.append('contravariant=True')
    if value.__covariant__:
        arguments.append('covariant=True')
    return to_repr(type(value)) + '(' + ', '.join(arguments) + ')'
