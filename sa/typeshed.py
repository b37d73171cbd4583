"""Stubs installed along with the library, as data."""
import ast
import glob
import os
import sys


def root():
    places = ['/opt/venv/lib/python3*/site-packages'] + sys.path
    for place in places:
        for path in sorted(glob.glob(
                os.path.join(place, 'mypy', 'typeshed', 'stdlib'))):
            return path
    return None


def modules():
    """Names and syntax trees of the stubs."""
    top = root()
    if top is None:
        return
    for directory, _, files in sorted(os.walk(top)):
        for name in sorted(files):
            if not name.endswith('.pyi'):
                continue
            path = os.path.join(directory, name)
            parts = os.path.relpath(path, top)[:-4].split(os.sep)
            if parts[-1] == '__init__':
                parts = parts[:-1]
            with open(path, encoding='utf-8') as f:
                yield '.'.join(parts), ast.parse(f.read(), path)


def recorded(tree):
    """Definitions which are recorded, conditions aside."""
    queue = list(tree.body)
    while queue:
        x = queue.pop(0)
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Assign,
                          ast.AnnAssign)):
            yield x
        elif isinstance(x, ast.ClassDef):
            queue.extend(x.body)
        elif isinstance(x, ast.If):
            queue.extend(x.body + x.orelse)


def shape(node):
    """Kinds of nodes with kinds of what they hold."""
    for x in ast.walk(node):
        for name, value in ast.iter_fields(x):
            if isinstance(value, list):
                held = ['*' + type(y).__name__ for y in value] or ['*']
            else:
                held = [type(value).__name__]
            for y in held:
                yield type(x).__name__, name, y
