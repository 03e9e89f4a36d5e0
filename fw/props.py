#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and checks.tsv."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []

def p(id, title, statement, over, text, why, files, mech, binary, level, note, technique, q=240, t=2400, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  binary=binary, level=level, note=note, technique=technique, q=q, t=t, observe=observe, state=state))

exec(open(os.path.join(V, 'fw', 'props_data.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P + NA:
        assert len(x['title']) <= 80, (x['id'], len(x['title']))
        r = dict(id=x['id'], title=x['title'], statement=x['statement'],
                 quantifier=dict(over=x['over'], text=x['text']), why_tests_cant=x['why'],
                 anchors=dict(files=x['files'], mechanism=[dict(name=a, where=b) for a, b in x['mech']]))
        if x.get('observe'):
            r['anchors']['observe_at'] = x['observe']
        if x.get('state'):
            r['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in x['state']]
        f.write(json.dumps(r) + '\n')
with open(os.path.join(V, 'fw', 'checks.tsv'), 'w') as f:
    for x in P:
        f.write('%s\t%s\t%d\t%d\n' % (x['id'], x['binary'], x['q'], x['t']))
m = dict(version=1, setup_cmd='bash setup.sh', checks=[], not_applicable=[dict(property=x['id'], reason=x['reason']) for x in NA],
         notes='No hooks in /repo: checks copy /repo\'s working tree into a scratch module and instrument the copy (fw/prep), so there is nothing to guard.')
for x in P:
    m['checks'].append(dict(property=x['id'], quick_cmd='bash check.sh %s quick' % x['id'], thorough_cmd='bash check.sh %s thorough' % x['id'],
                            evidence_file='evidence/%s.json' % x['id'], technique=x['technique'], level=x['level'], level_note=x['note']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
