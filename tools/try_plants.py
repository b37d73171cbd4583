"""Tries planted bugs in /repo itself: stable tests, demonstration, checks.

Restores /repo afterwards.  Not run by any registered check.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, 'seeded')


def run(*command, **kw):
    return subprocess.run(command, capture_output=True, text=True, **kw)


def build():
    return run('bash', '/opt/vp/build.sh').returncode


def demo(name):
    return run('bash', os.path.join(SEEDED, name, 'demo.sh'), cwd='/repo',
               timeout=300)


def main():
    quick = '--quick' in sys.argv
    names = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(
        os.listdir(SEEDED))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    assert not run('git', '-C', '/repo', 'status', '--short').stdout
    build()
    for name in names:
        r = demo(name)
        print(name, 'demo on the unchanged tree:', r.returncode, flush=True)
        if r.returncode:
            print(r.stderr[-1500:])
    for name in names:
        where = os.path.join(SEEDED, name)
        meta = json.load(open(os.path.join(where, 'meta.json')))
        try:
            r = run('git', '-C', '/repo', 'apply',
                    os.path.join(where, 'patch.diff'))
            assert not r.returncode, r.stderr
            built = build()
            shown = demo(name)
            failed = '?'
            if not quick:
                run('bash', '/opt/vp/test.sh', '/tmp/plant.json')
                result = json.load(open('/tmp/plant.json'))
                failed = sorted(set(stable) - set(result['passed']))
            p = meta['property']
            check = run(sys.executable, os.path.join(ROOT, 'check.py'), p,
                        env=dict(os.environ, VERIF_EVIDENCE='/tmp'), cwd=ROOT)
            print(name, p, f'build={built} demo={shown.returncode} '
                  f'tests failing={failed} check={check.returncode}')
            print('     ', shown.stderr.strip().splitlines()[-1:])
            print('     ', [x[:150] for x in check.stdout.splitlines()
                            if 'VIOLATION' in x][:1], flush=True)
        finally:
            run('git', '-C', '/repo', 'checkout', '--', '.')
    build()


main()
