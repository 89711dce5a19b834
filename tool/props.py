#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run after editing."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, state=state))


exec(open(os.path.join(V, 'tool', 'props_data.py')).read())

with open(V + '/properties.jsonl', 'w') as fh:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'state': [dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                        'mechanism': [dict(name=a, where=b) for a, b in p['mech']], 'hook_needed': None}}) + '\n')
M = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [],
     'notes': 'Static analysis of /repo/core/src on every run: tool/extract.cpp (libTooling) dumps the type-checked, '
              'template-instantiated program of the real build flags; tool/dy/checks/<id>.py decides the property on it. '
              'No hooks in /repo. known_findings.txt lists genuine defects not repaired.'}
for p in P:
    if p['na']:
        M['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else:
        M['checks'].append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check ' + p['id'],
                            'evidence_file': 'evidence/%s.json' % p['id'],
                            'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']})
with open(V + '/MANIFEST.json', 'w') as fh:
    json.dump(M, fh, indent=1)
    fh.write('\n')
print(len(M['checks']), 'claimed,', len(M['not_applicable']), 'not applicable')

# ---- DESIGN.md
D = open(V + '/tool/DESIGN.in.md').read()
out = []
for p in P:
    if p['na']:
        continue
    out.append('### %s %s\n*Method*: %s.\n\n*Covers*: %s. *Anchors*: %s.\n\n*Why tests cannot settle it*: %s.\n\n*Bounds and trust*: %s\n'
               % (p['id'], p['title'], p['technique'], p['text'], ', '.join('`%s`' % f for f in p['files']), p['why'], p['note']))
    if p.get('how'):
        out.append(p['how'] + '\n')
D = D.replace('@@PROPS@@', '\n'.join(out))
D = D.replace('@@NA@@', '\n'.join('- **%s** %s: %s' % (p['id'], p['title'], p['na']) for p in P if p['na']))
rows = ['| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
S = os.path.join(V, 'seeded')
caught = json.load(open(V + '/tool/caught.json')) if os.path.exists(V + '/tool/caught.json') else {}
for b in sorted(os.listdir(S)):
    m = json.load(open(os.path.join(S, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], caught.get(b, '?')))
D = D.replace('@@SEEDS@@', '\n'.join(rows))
for k in ('FIXES', 'KNOWN', 'ALARMS'):
    D = D.replace('@@%s@@\n' % k, '')
open(V + '/DESIGN.md', 'w').write(D)
