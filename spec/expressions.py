"""Reference semantics of expressions of stubs and of variables declared."""
import ast
import operator
import typing as t

from paradigm._core import scoping, stubs
from paradigm._core.arboreal.evaluation import evaluate_qualified_path


def evaluated(node, module_path, parent_path, namespace):
    def value_of(x):
        return evaluated(x, module_path, parent_path, namespace)

    if isinstance(node, ast.Constant):
        return node.value
    elif isinstance(node, ast.Name):
        return denoted((node.id,), module_path, parent_path, namespace)
    elif isinstance(node, ast.Attribute):
        value = value_of(node.value)
        try:
            return getattr(value, node.attr)
        except AttributeError:
            return denoted(dotted(node), module_path, parent_path, namespace)
    elif isinstance(node, ast.Subscript):
        value, item = value_of(node.value), value_of(node.slice)
        try:
            return value[item]
        except TypeError:
            return value
    elif isinstance(node, ast.Tuple):
        return tuple([value_of(x) for x in node.elts])
    elif isinstance(node, ast.List):
        return [value_of(x) for x in node.elts]
    elif isinstance(node, ast.Dict):
        return {value_of(k): value_of(x)
                for k, x in zip(node.keys, node.values)}
    elif isinstance(node, ast.UnaryOp):
        value = value_of(node.operand)
        if isinstance(node.op, ast.USub):
            return operator.neg(value)
        elif isinstance(node.op, ast.UAdd):
            return operator.pos(value)
    elif isinstance(node, ast.BinOp):
        left, right = value_of(node.left), value_of(node.right)
        try:
            if isinstance(node.op, ast.BitOr):
                return operator.or_(left, right)
            elif isinstance(node.op, ast.BitAnd):
                return operator.and_(left, right)
            elif isinstance(node.op, ast.BitXor):
                return operator.xor(left, right)
        except TypeError:
            return t.Union[left, right]
    elif isinstance(node, ast.Call):
        return value_of(node.func)(*[value_of(x) for x in node.args],
                                   **{x.arg: value_of(x.value)
                                      for x in node.keywords})
    raise TypeError(node)


def denoted(path, module_path, parent_path, namespace):
    where, what = scoping.resolve_object_path(
            module_path, parent_path, path, stubs.definitions,
            stubs.references, stubs.submodules, stubs.superclasses
    )
    return evaluate_qualified_path(where, what, namespace)


def dotted(node):
    if isinstance(node, ast.Name):
        return (node.id,)
    return dotted(node.value) + (node.attr,)
