"""Writes DESIGN.md from properties.jsonl, techniques.json, known_findings.json, seeded/*/meta.json, caught.json and the texts below."""
import json, glob, os, collections
os.chdir(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open('properties.jsonl')]
tech = json.load(open('techniques.json'))
kf = json.load(open('known_findings.json'))
caught = json.load(open('caught.json')) if os.path.exists('caught.json') else {}
secs = json.load(open('cost.json')) if os.path.exists('cost.json') else {}

HEAD = open('design_head.md').read()
TEXT = {}
cur = None
for line in open('design_properties.md'):
    if line.startswith('# C'):
        cur = line[2:].strip(); TEXT[cur] = ''
    elif cur:
        TEXT[cur] += line
out = [HEAD.rstrip(), '', '## The properties', '']
for p in props:
    i = p['id']
    out += [f"### {i} — {p['title']}", '', f"*{tech[i]['technique']}*. " + (f"Quick about {secs[i]} s alone on this machine." if i in secs else ''), '', TEXT.get(i, '').strip(), '']
    bugs = [(b, c) for b, c in sorted(caught.items()) if i in c['by']]
    if bugs:
        out += ['Catches the planted ' + ', '.join(f'`{b}`' for b, _ in bugs) + '.', '']
out += ['## Planted bugs', '', 'Each lies in `seeded/<id>/` (patch, demonstration, what it needs). All demonstrations exit 0 on the clean tree and nonzero with the patch, and the stable tests pass with every patch. '
        '"first" says what the check did when the bug was written: bugs were written from the property text, and where a check missed one it was strengthened.', '',
        '| bug | property | needs | caught by | first |', '|---|---|---|---|---|']
for d in sorted(glob.glob('seeded/*/meta.json')):
    b = os.path.basename(os.path.dirname(d)); m = json.load(open(d)); c = caught.get(b, {'by': [], 'first': '?'})
    out.append(f"| {b} | {m['property']} | {m['needs']} | {', '.join(c['by']) or 'not caught'} | {c['first']} |")
out += ['', '## Known findings (recorded, not repaired)', '']
g = collections.OrderedDict()
for f in kf['findings']:
    g.setdefault(f['property'], []).append(f['mechanism'])
for k, v in g.items():
    out.append(f'* {k}: ' + ', '.join(f'`{m}`' for m in v))
out += ['', open('design_findings.md').read().strip(), '', f"## Repaired defects ({len(kf['fixed'])} entries in known_findings.json)", '']
n = collections.Counter(x.split('property=')[1][:3] if isinstance(x, str) else x['property'] for x in kf['fixed'])
out += ['Each is one `fix:` commit in /repo; the entry names property, commit and what failed. By property: ' + ', '.join(f'{k} {v}' for k, v in sorted(n.items())) + '.', '']
open('DESIGN.md', 'w').write('\n'.join(out))
