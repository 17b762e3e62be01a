#!/usr/bin/env python3
"""Writes /verif/DESIGN.md: the prose of tools/design_prose.md, then what each
check decides (its own docstring), then what is planted in seeded/."""
import ast, glob, json, os, re, textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def fill(s, ind=''):
    return textwrap.fill(' '.join(s.split()), 108, initial_indent=ind, subsequent_indent=ind)


props = {d['id']: d for d in map(json.loads, open(os.path.join(HERE, 'properties.jsonl')))}
prose = open(os.path.join(HERE, 'tools', 'design_prose.md')).read()
notes = {}
for block in open(os.path.join(HERE, 'tools', 'design_notes.md')).read().split('\n## ')[1:]:
    k, _, rest = block.partition('\n')
    notes[k.strip()] = [p for p in rest.strip().split('\n\n') if p]
man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
out = [prose.rstrip(), '', '## 6. The checks, property by property', '']
for i in sorted(props):
    f = os.path.join(HERE, 'sa', 'checks', i + '.py')
    if not os.path.exists(f):
        continue
    t = ast.parse(open(f).read())
    tech, assume = None, ['library contracts as modelled']
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == 'TECHNIQUE':
            tech = ast.literal_eval(n.value)
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', None) == 'ASSUMPTIONS':
            assume = ast.literal_eval(n.value)
    out += ['### %s. %s' % (i, props[i]['title']), '', fill(ast.get_docstring(t)), '']
    for p in notes.get(i, []):
        out += [fill(p), '']
    out += [fill('Assumes: ' + '; '.join(assume) + '.')]
    e = os.path.join(HERE, 'evidence', i + '.json')
    if os.path.exists(e):
        c = json.load(open(e))['coverage']
        out += [fill('Size on the unchanged tree (quick): %s obligations over %d functions and %s call sites.' % (
            c.get('obligations'), len(c.get('functions_analysed', [])), c.get('call_sites')))]
    out += ['']
out += ['## 7. Not applicable', '']
for x in man['not_applicable']:
    out += [fill('* **%s** %s. %s' % (x['property'], props[x['property']]['title'], x['reason']))]
out += ['', '## 8. Planted bugs and what catches them', '',
        fill('Every directory of `seeded/` was confirmed by `tools/plant.py` in a scratch copy: the patch applies and compiles, the 23 stable tests pass, the demonstration passes on the unchanged tree and fails with the patch. "own" means that the check of the property named is the one that reports it.'), '',
        '| id | property | needs | caught by |', '|---|---|---|---|']
cross = {}
p = os.path.join(HERE, 'tools', 'cross.json')
if os.path.exists(p):
    cross = json.load(open(p))
for d in sorted(glob.glob(os.path.join(HERE, 'seeded', 'S*'))):
    m = json.load(open(os.path.join(d, 'meta.json')))
    s = os.path.basename(d)
    by = cross.get(s)
    out += ['| %s | %s | %s | %s |' % (s, m['property'], m['needs'], ', '.join(by) if by else 'own')]
out += ['']
open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out))
print(len(out), 'lines')
