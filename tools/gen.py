#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.realpath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]),
        technique=technique, note=note))
exec(open(os.path.join(V, 'tools/props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
COMMON = (' Trusted: the generator and oracle in /verif/checks and /verif/models, libyaz, libxml2, boost and the sanitizers;'
          ' the search samples, it never establishes absence.')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
    checks=[dict(property=p['id'], quick_cmd='python3 check %s quick' % p['id'], thorough_cmd='python3 check %s thorough' % p['id'],
                 technique=p['technique'], level='exploration', level_note=p['note'] + COMMON) for p in P],
    not_applicable=NOT_APPLICABLE,
    notes='No hooks in /repo: the checks compile the sources as they are, next to a stand-in for the YAZ++ library in yazpp/ (see DESIGN.md).')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
