"""Writes DESIGN.md from tools/design, the properties and the rules."""
import ast
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
LIMITS = os.path.join(HERE, 'design', 'limits.md')


def read(*path):
    with open(os.path.join(ROOT, *path)) as f:
        return f.read()


def limits():
    found = {}
    for part in re.split(r'^(?=C\d\d: )', read('tools/design/limits.md'),
                         flags=re.M):
        name, _, text = part.partition(': ')
        found[name] = ' '.join(text.split())
    return found


def main():
    out = [read('tools/design/head.md')]
    notes = limits()
    for line in read('properties.jsonl').splitlines():
        p = json.loads(line)
        tree = ast.parse(read('rules', p['id'].lower() + '.py'))
        doc = ' '.join(ast.get_docstring(tree).split())
        out.append(f'### {p["id"]} {p["title"]}\n\n'
                   f'*Decided by* `rules/{p["id"].lower()}.py`: {doc}\n')
        out.append(f'*Bounds and cost*: {notes[p["id"]]}\n')
        out.append(f'*Beyond tests*: {p["why_tests_cant"]}\n')
    out.append(read('tools/design/tail.md').rstrip('\n') + '\n')
    out.append('| planted bug | property (check that reports it) | breaks |\n'
               '|---|---|---|')
    for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
        meta = json.loads(read('seeded', name, 'meta.json'))
        caught = meta['property'] if meta.get('caught', True) else 'missed'
        out.append(f'| {name} | {caught} | {meta["what_it_breaks"]} |')
    with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


main()
