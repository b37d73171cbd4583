"""Changes one construct of the package at a time (a comparison, a condition,
an argument, a statement) and runs the checks that follow the changed
function; lists the changes no check tells from the original.

    python3 tools/try_mutants.py [--sample=N] [--seed=N] [file:line ...]

Works on copies of /repo.  Not run by any registered check: what survives is
looked at by hand, since many a change is without consequence.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FUNCTIONS = (ast.FunctionDef, ast.AsyncFunctionDef)
COMPARISONS = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq,
               ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
               ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn,
               ast.NotIn: ast.In}


def mutations(node, locals_):
    """Pairs of a description and a function changing a copy of the node,
    returning what replaces it."""
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            def change(n, i=i, op=op):
                n.ops[i] = COMPARISONS[type(op)]()
                return n
            if type(op) in COMPARISONS:
                yield 'comparison', change
        if len(node.ops) == 1 and isinstance(node.ops[0], ast.Eq):
            def change(n):
                n.ops[0] = ast.Is()
                return n
            yield 'identity', change
    if isinstance(node, ast.BoolOp):
        def change(n):
            n.op = ast.And() if isinstance(n.op, ast.Or) else ast.Or()
            return n
        yield 'and/or', change
        for i in range(len(node.values)):
            def change(n, i=i):
                del n.values[i]
                return n if len(n.values) > 1 else n.values[0]
            yield f'operand {i} dropped', change
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'not dropped', lambda n: n.operand
    if isinstance(node, ast.IfExp):
        yield 'first branch', lambda n: n.body
        yield 'second branch', lambda n: n.orelse
    if isinstance(node, ast.If):
        def change(n):
            n.test = ast.Constant(True)
            return n
        yield 'if True', change

        def change(n):
            n.test = ast.Constant(False)
            return n
        yield 'if False', change
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield 'boolean', lambda n: ast.Constant(not n.value)
        elif isinstance(node.value, int):
            yield 'plus one', lambda n: ast.Constant(n.value + 1)
            yield 'minus one', lambda n: ast.Constant(n.value - 1)
    if isinstance(node, ast.BinOp):
        if isinstance(node.op, ast.Add):
            yield 'left of +', lambda n: n.left
            yield 'right of +', lambda n: n.right

            def change(n):
                n.left, n.right = n.right, n.left
                return n
            yield '+ swapped', change
        if isinstance(node.op, ast.Sub):
            yield 'left of -', lambda n: n.left
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        yield 'slice dropped', lambda n: n.value
    if isinstance(node, ast.comprehension):
        for i in range(len(node.ifs)):
            def change(n, i=i):
                del n.ifs[i]
                return n
            yield 'filter dropped', change
    if isinstance(node, ast.Call):
        if len(node.args) == 1 and not node.keywords:
            if not isinstance(node.args[0], ast.Starred):
                yield 'argument for call', lambda n: n.args[0]
        for i in range(len(node.args) - 1):
            def change(n, i=i):
                n.args[i], n.args[i + 1] = n.args[i + 1], n.args[i]
                return n
            yield f'arguments {i} swapped', change
        for i in range(len(node.args)):
            if len(node.args) > 1:
                def change(n, i=i):
                    del n.args[i]
                    return n
                yield f'argument {i} dropped', change
        for i in range(len(node.keywords)):
            def change(n, i=i):
                del n.keywords[i]
                return n
            yield f'keyword {i} dropped', change
    if isinstance(node, (ast.Tuple, ast.List)) and isinstance(node.ctx,
                                                              ast.Load):
        for i in range(len(node.elts)):
            def change(n, i=i):
                del n.elts[i]
                return n
            yield f'element {i} dropped', change
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                         ast.Continue, ast.Break, ast.Delete, ast.Return,
                         ast.AnnAssign)):
        if not (isinstance(node, ast.Expr)
                and isinstance(node.value, ast.Constant)):
            yield 'statement dropped', lambda n: ast.Pass()
    if isinstance(node, ast.Try):
        for i in range(len(node.handlers)):
            def change(n, i=i):
                if len(n.handlers) == 1 and not n.finalbody:
                    return ast.If(ast.Constant(True),
                                  n.body + n.orelse, [])
                del n.handlers[i]
                return n
            yield f'handler {i} dropped', change
        if node.finalbody:
            def change(n):
                n.body += n.finalbody
                n.finalbody = []
                return (n if n.handlers
                        else ast.If(ast.Constant(True), n.body, []))
            yield 'finally as sequence', change
    if isinstance(node, ast.ExceptHandler) and node.type is not None:
        if isinstance(node.type, ast.Tuple):
            for i in range(len(node.type.elts)):
                def change(n, i=i):
                    del n.type.elts[i]
                    return n
                yield f'exception {i} dropped', change
    if isinstance(node, ast.With):
        yield 'with dropped', lambda n: ast.If(ast.Constant(True), n.body, [])
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
        for other in locals_:
            if other != node.id and node.id in locals_:
                yield (f'{node.id} -> {other}',
                       lambda n, other=other: ast.Name(other, ast.Load()))
    if isinstance(node, FUNCTIONS) and node.decorator_list:
        def change(n):
            n.decorator_list = []
            return n
        yield 'decorators dropped', change


class Applied(ast.NodeTransformer):
    def __init__(self, index, change):
        self.index, self.change, self.count = index, change, -1

    def visit(self, node):
        self.count += 1
        if self.count == self.index:
            return ast.copy_location(self.change(copy.deepcopy(node)), node)
        return self.generic_visit(node)


def annotations(tree):
    """Nodes that are not evaluated for their value."""
    result = set()
    for node in ast.walk(tree):
        for field in ('annotation', 'returns'):
            child = getattr(node, field, None)
            if isinstance(child, ast.AST):
                result.update(map(id, ast.walk(child)))
        if isinstance(node, FUNCTIONS):
            for decorator in node.decorator_list:
                result.update(map(id, ast.walk(decorator)))
        if isinstance(node, ast.AnnAssign) and node.value is None:
            result.add(id(node))
        if isinstance(node, ast.Call) and ast.unparse(node.func) in (
                't.TypeVar', '_te.Self', 't.cast'):
            if ast.unparse(node.func) != 't.cast':
                result.update(map(id, ast.walk(node)))
        if isinstance(node, ast.Raise) and isinstance(node.exc, ast.Call):
            for arg in node.exc.args:
                result.update(map(id, ast.walk(arg)))
    return result


def mutants():
    for folder, dirs, names in sorted(os.walk(f'{REPO}/paradigm')):
        dirs[:] = sorted(d for d in dirs if d != '__pycache__')
        for name in sorted(names):
            if not name.endswith('.py') or name.startswith('_mypy'):
                continue
            path = os.path.relpath(os.path.join(folder, name), REPO)
            with open(os.path.join(folder, name)) as file:
                text = file.read()
            tree = ast.parse(text)
            skipped = annotations(tree)
            where = {}

            def visit(node, function, names_):
                if isinstance(node, FUNCTIONS):
                    own = [n.id for n in ast.walk(node)
                           if isinstance(n, ast.Name)
                           and isinstance(n.ctx, ast.Store)]
                    own += [a.arg for a in ast.walk(node.args)
                            if isinstance(a, ast.arg)]
                    function, names_ = node.name, sorted({*own} - {'_'})
                where[id(node)] = function, names_
                for child in ast.iter_child_nodes(node):
                    visit(child, function, names_)

            visit(tree, None, [])
            index = -1
            order = []

            class Order(ast.NodeTransformer):
                def visit(self, node):
                    order.append(node)
                    return self.generic_visit(node)

            Order().visit(tree)
            for index, node in enumerate(order):
                if id(node) in skipped:
                    continue
                function, names_ = where[id(node)]
                for what, change in mutations(node, names_):
                    if ' -> ' in what and random.Random(
                            f'{path}{index}{what}').random() > .05:
                        continue
                    yield (path, getattr(node, 'lineno', 0), function, what,
                           index, change, text)


def relevant(path, function):
    """Checks which follow the function, all of them if none does."""
    result = []
    every = sorted(name[:3] for name in os.listdir(f'{ROOT}/evidence')
                   if name.endswith('.json'))
    module = path[:-3].replace('/', '.')
    for check in every:
        with open(f'{ROOT}/evidence/{check}.json') as file:
            functions = json.load(file)['coverage'].get(
                'functions_interpreted')
        if functions is None or function is None or any(
                f.split(':')[0] == module
                and function in f.split(':')[-1].split('.')
                for f in functions):
            result.append(check)
    followed = [c for c in result]
    return followed or every


def attempt(mutant):
    path, line, function, what, index, change, text = mutant
    tree = ast.parse(text)
    before = ast.unparse(tree)
    after = ast.unparse(ast.fix_missing_locations(
        Applied(index, change).visit(tree)))
    if before == after:
        return mutant, 'same', '', ''
    a, b = before.splitlines(), after.splitlines()
    import difflib
    shown = [l for l in difflib.unified_diff(a, b, n=0, lineterm='')
             if not l.startswith(('---', '+++', '@@'))]
    try:
        compile(after, path, 'exec')
    except SyntaxError:
        return mutant, 'broken', '', ''
    copied = tempfile.mkdtemp(prefix='mutant')
    try:
        shutil.copytree(f'{REPO}/paradigm', f'{copied}/repo/paradigm',
                        ignore=shutil.ignore_patterns('_mypy*',
                                                      '__pycache__'))
        for name in ('setup.py', 'pyproject.toml', 'setup.cfg'):
            if os.path.exists(f'{REPO}/{name}'):
                shutil.copy(f'{REPO}/{name}', f'{copied}/repo/{name}')
        with open(f'{copied}/repo/{path}', 'w') as file:
            file.write(after)
        undecided = []
        for check in sorted(relevant(path, function),
                            key=lambda c: c in ('C21', 'C15', 'C33')):
            try:
                done = subprocess.run(
                    [sys.executable, f'{ROOT}/check.py', check],
                    env={**os.environ, 'VERIF_REPO': f'{copied}/repo',
                         'VERIF_EVIDENCE': copied}, timeout=300,
                    capture_output=True, text=True, cwd=ROOT)
            except subprocess.TimeoutExpired:
                undecided.append(check + ' timeout')
                continue
            if done.returncode == 1:
                return mutant, 'caught', check, shown
            if done.returncode:
                undecided.append(f'{check} rc={done.returncode}')
            else:
                try:
                    with open(f'{copied}/{check}.json') as file:
                        if json.load(file)['coverage'].get('undecided'):
                            undecided.append(check)
                except OSError:
                    undecided.append(f'{check} no evidence')
        return (mutant, 'undecided' if undecided else 'survived',
                ' '.join(undecided), shown)
    finally:
        shutil.rmtree(copied)


def main():
    sample = seed = None
    wanted = []
    for argument in sys.argv[1:]:
        if argument.startswith('--sample='):
            sample = int(argument.split('=')[1])
        elif argument.startswith('--seed='):
            seed = int(argument.split('=')[1])
        else:
            wanted.append(argument)
    every = [m for m in mutants()
             if not wanted or any(f'{m[0]}:{m[1]}'.endswith(w)
                                  or w in m[0] for w in wanted)]
    print(len(every), 'changes', flush=True)
    if sample is not None:
        random.Random(seed).shuffle(every)
        every = every[:sample]
    counts = {}
    with ThreadPoolExecutor(7) as pool:
        for mutant, verdict, by, shown in pool.map(attempt, every):
            counts[verdict] = counts.get(verdict, 0) + 1
            if verdict not in ('caught', 'same', 'broken'):
                path, line, function, what, *_ = mutant
                print(f'{verdict} {path}:{line} {function} {what} [{by}]')
                for l in shown[:6]:
                    print('     ', l[:200])
                sys.stdout.flush()
    print(counts)


if __name__ == '__main__':
    main()
