"""Writes DESIGN.md from tools/DESIGN.in.md, the bounds of the checks, known_findings.txt and the planted bugs"""
import json
import os
import re
import subprocess

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load(path):
    with open(os.path.join(ROOT, path)) as fp:
        return fp.read()


props = [json.loads(line) for line in load('properties.jsonl').splitlines()]
code = ('import json, mc.core; from importlib import import_module as m; print(json.dumps({p: m("mc.checks." + p.lower()).BOUND for p in %r}))'
        % [p['id'] for p in props])
out = subprocess.run(['/opt/venv/bin/python', '-W', 'ignore', '-c', code], cwd=ROOT, capture_output=True, text=True, check=True)
bounds = json.loads(out.stdout.splitlines()[-1])
fill = {p['id']: f"### {p['id']} {p['title']}\n\n**Explored**: {bounds[p['id']]['quick']}. **Thorough**: {bounds[p['id']]['thorough']}.\n" for p in props}

lines = [line for line in load('known_findings.txt').splitlines() if line.startswith('fixed:')]
rows = sorted(re.match(r'fixed: property=(\S+) (\S+) (.*)', line).groups() for line in lines)
fill['findings'] = '\n'.join(['| property | commit | what failed |', '|---|---|---|'] + [f'| {p} | {c} | {w} |' for p, c, w in rows])
fill['fixed'] = str(len(rows))
fill['count'] = str(len(props))

caught = json.loads(load('tools/caught.json'))
bugs = []
for name in sorted(os.listdir(os.path.join(ROOT, 'seeded'))):
    meta = json.loads(load(f'seeded/{name}/meta.json'))
    bugs.append((meta['property'], name, meta['needs'], ', '.join(caught.get(name, [])) or 'none'))
fill['bugs'] = '\n'.join(['| property | bug | needs | caught by |', '|---|---|---|---|'] + ['| %s | %s | %s | %s |' % b for b in sorted(bugs)])
fill['nbugs'] = str(len(bugs))
fill['missed'] = load('tools/missed.md').strip()

text = load('tools/DESIGN.in.md')
for k, v in fill.items():
    text = text.replace('{{%s}}' % k, v)
assert '{{' not in text, text[text.index('{{'):][:40]
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as fp:
    fp.write(text)
