"""Writes MANIFEST.json from the rules there are."""
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)

VALUE_GRAPH = ('abstract interpretation into gated value graphs, equivalence '
               'with a reference definition by value numbering and '
               'class reasoning')
NOTE = ('Holds for all inputs within the stated assumptions when all '
        'obligations are discharged; trusts the interpreter of the Python '
        'subset in sa/ and the reference definition. A difference that '
        'could be an artefact of the analysis is reported as undecided, '
        'not as a violation.')
NOT_APPLICABLE = {}


def main():
    checks, missing = [], []
    with open(os.path.join(ROOT, 'properties.jsonl')) as f:
        ids = [json.loads(line)['id'] for line in f]
    for i in ids:
        if not os.path.exists(os.path.join(ROOT, 'rules', i.lower() + '.py')):
            missing.append({'property': i,
                            'reason': NOT_APPLICABLE.get(
                                i, 'no check has been built yet')})
            continue
        rule = importlib.import_module('rules.' + i.lower())
        checks.append({
            'property': i,
            'quick_cmd': f'python3 check.py {i}',
            'thorough_cmd': f'python3 check.py {i} --thorough',
            'evidence_file': f'evidence/{i}.json',
            'technique': getattr(rule, 'TECHNIQUE', VALUE_GRAPH),
            'level': getattr(rule, 'LEVEL', 'other'),
            'level_note': getattr(rule, 'NOTE', NOTE),
        })
    manifest = {'version': 1, 'setup_cmd': 'python3 check.py --self-test',
                'checks': checks, 'not_applicable': missing,
                'notes': 'No hooks: /repo is only read. See DESIGN.md.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(manifest, f, indent=1)
        f.write('\n')


main()
