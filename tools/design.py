#!/usr/bin/env python3
"""Writes DESIGN.md."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, mech=mech, technique=technique, note=note))
def na(id, reason): NA.append((id, reason))
exec(open(os.path.join(here, 'props_data.py')).read())
P.sort(key=lambda p: p['id'])
out = [open(os.path.join(here, 'design_head.md')).read()]
seeds = {}
for n in sorted(os.listdir(os.path.join(root, 'seeded'))):
    m = json.load(open(os.path.join(root, 'seeded', n, 'meta.json')))
    seeds.setdefault(m['property'], []).append((n, m['what_it_breaks'], m['needs']))
muts = {}
for f in sorted(os.listdir(here)):
    if f.startswith('muts_') and f.endswith('.py'):
        g = {}
        exec(open(os.path.join(here, f)).read(), g)
        for name, kind, ids, edits in g['MUTS']:
            for i in ids:
                k = muts.setdefault(i, {'bug': 0, 'same': 0})
                k[kind] = k.get(kind, 0) + 1
src = ''
for f in sorted(os.listdir(os.path.join(root, 'sa'))):
    if f.endswith('.go'):
        src += open(os.path.join(root, 'sa', f)).read()
def golit(s):
    return ''.join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', s))
out.append('## Properties\n')
for p in P:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append(p['statement'] + '\n')
    m = re.search(r'checks\["%s"\]\s*=\s*&CheckDef\{(.*?)\n\t\}' % i, src, re.S)
    body = m.group(1) if m else ''
    ex = re.search(r'explanation:(.*?)\n\t\tassumptions', body, re.S)
    ass = re.search(r'assumptions:\s*\[\]string\{(.*?)\},\n', body, re.S)
    mn = re.search(r'min:\s*(\d+)', body)
    out.append('* **Decided by** %s.' % p['technique'])
    if ex: out.append('* **How** %s' % golit(ex.group(1)))
    if ass: out.append('* **Assumes** %s.' % '; '.join(json.loads('"' + x + '"') for x in re.findall(r'"((?:[^"\\]|\\.)*)"', ass.group(1))))
    out.append('* **Covers** %s' % p['text'])
    out.append('* **Beyond the tests** %s' % p['why'])
    out.append('* **Bounds and limits** %s' % p['note'])
    if mn: out.append('* **Floor** at least %s obligations or comparisons, else the check fails.' % mn.group(1))
    out.append('* **Anchors** ' + '; '.join('%s (%s)' % x for x in p['mech']) + '.')
    k = muts.get(i)
    if k: out.append('* **Mutants** %d bugs reported, %d behaviour-preserving edits silent.' % (k['bug'], k['same']))
    for s in seeds.get(i, []):
        out.append('* **Planted** `%s`: %s (needs %s). Caught by %s.' % (s[0], s[1], s[2], i))
    out.append('')
out.append('## Not applicable\n')
for i, r in NA: out.append('* %s: %s' % (i, r))
if not NA: out.append('Nothing listed in properties.jsonl is left undecided; see the limits above for what was kept out of the statements.')
out.append(open(os.path.join(here, 'design_tail.md')).read())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
