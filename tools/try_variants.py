"""Runs checks against edited scratch copies of /repo.

tools/variants/*.py define VARIANTS: (name, 'bug' or 'same', properties,
edits), an edit being (path, old text, new text).  Bugs have to be reported by
the checks of the given properties, edits that keep the behaviour by none.
Not run by any registered check.
"""
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)


def load(patterns):
    for name in sorted(os.listdir(os.path.join(HERE, 'variants'))):
        if not name.endswith('.py'):
            continue
        spec = importlib.util.spec_from_file_location(
            name[:-3], os.path.join(HERE, 'variants', name))
        module = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(module)
        for v in module.VARIANTS:
            if not patterns or any(p in name[:-3] + ':' + v[0]
                                   for p in patterns):
                yield v


def prepare(edits):
    tree = tempfile.mkdtemp(prefix='variant')
    subprocess.run(['git', 'clone', '-q', '/repo', tree + '/repo'],
                   check=True)
    tree += '/repo'
    for path, old, new in edits:
        full = os.path.join(tree, path)
        with open(full) as f:
            text = f.read()
        if text.count(old) != 1:
            return tree, f'{text.count(old)} occurrences of {old[:60]!r}'
        with open(full, 'w') as f:
            f.write(text.replace(old, new))
    for path in {path for path, _, _ in edits}:
        full = os.path.join(tree, path)
        with open(full) as f:
            compile(f.read(), full, 'exec')
    return tree, None


def one(v):
    name, sort, properties, edits = v
    tree, error = prepare(edits)
    lines = []
    try:
        if error:
            return [f'{name}: NOT APPLICABLE {error}']
        if '--all' in sys.argv:
            # all the checks have to stay quiet
            if sort == 'bug':
                return []
            properties = sorted(x[:-3].upper() for x in os.listdir(
                os.path.join(ROOT, 'rules')) if x[1:3].isdigit())
        for p in properties:
            r = subprocess.run(
                [sys.executable, os.path.join(ROOT, 'check.py'), p],
                env=dict(os.environ, VERIF_REPO=tree,
                         VERIF_EVIDENCE=os.path.dirname(tree)), cwd=ROOT,
                capture_output=True, text=True)
            out = r.stdout + r.stderr
            good = (r.returncode == (sort == 'bug'))
            undecided = 'UNDECIDED:' in out
            lines.append(f'{"ok " if good else "BAD"} {sort} {name} {p} '
                         f'rc={r.returncode}'
                         + (' (undecided)' if undecided else ''))
            if not good or '-v' in sys.argv:
                lines += ['      ' + x[:200]
                          for x in out.splitlines()[:int(os.environ.get('N', 8))]]
    finally:
        shutil.rmtree(os.path.dirname(tree))
    return lines


def main():
    patterns = [a for a in sys.argv[1:] if not a.startswith('-')]
    with ThreadPoolExecutor(7) as pool:
        for lines in pool.map(one, load(patterns)):
            print('\n'.join(lines), flush=True)


if __name__ == '__main__':
    main()
