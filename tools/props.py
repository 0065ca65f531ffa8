#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
P = []   # property entries
NA = []  # (id, reason)

def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    assert len(statement.split('. ')) <= 3, id
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state, observe=observe))

def na(id, reason):
    NA.append((id, reason))

exec(open(os.path.join(here, 'props_data.py')).read())

P.sort(key=lambda p: p['id'])
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']:
            a['state'] = [{'name': n, 'meaning': m} for n, m in p['state']]
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
na_ids = {i for i, _ in NA}
m = {'version': 1,
     'setup_cmd': 'bash check.sh build',
     'checks': [{'property': p['id'],
                 'quick_cmd': 'bash check.sh ' + p['id'],
                 'thorough_cmd': 'bash check.sh ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'],
                 'technique': p['technique'],
                 'level': 'other',
                 'level_note': p['note']} for p in P if p['id'] not in na_ids],
     'not_applicable': [{'property': i, 'reason': r} for i, r in NA]}
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
