"""Writes a planted bug: plant(id, property, edits, demo, needs, breaks)."""
import json
import os
import shutil
import subprocess
import tempfile

SEEDED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seeded')

DEMO = '''#!/bin/bash
# exit 0 where the property holds, nonzero where it is broken
here=$(cd "$(dirname "$0")" && pwd)
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def plant(id_, property_, edits, demo, needs, breaks):
    with tempfile.TemporaryDirectory() as scratch:
        tree = os.path.join(scratch, 'repo')
        subprocess.run(['git', 'clone', '-q', '/repo', tree], check=True)
        for path, old, new in edits:
            full = os.path.join(tree, path)
            with open(full) as f:
                text = f.read()
            assert text.count(old) == 1, (id_, path, text.count(old), old)
            with open(full, 'w') as f:
                f.write(text.replace(old, new))
        diff = subprocess.run(['git', '-C', tree, 'diff'], check=True,
                              capture_output=True, text=True).stdout
    where = os.path.join(SEEDED, id_)
    shutil.rmtree(where, ignore_errors=True)
    os.makedirs(where)
    with open(os.path.join(where, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(where, 'demo.sh'), 'w') as f:
        f.write(DEMO)
    os.chmod(os.path.join(where, 'demo.sh'), 0o755)
    with open(os.path.join(where, 'demo.py'), 'w') as f:
        f.write(demo.lstrip('\n'))
    with open(os.path.join(where, 'meta.json'), 'w') as f:
        json.dump({'property': property_, 'needs': needs,
                   'what_it_breaks': breaks}, f, indent=1)
        f.write('\n')
