#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, symbols, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, symbols=symbols, technique=technique, note=note))

exec(open(os.path.join(root, 'tools', 'table.py')).read())

with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=s.split('@')[0].strip(), where=s.split('@')[1].strip()) for s in p['symbols']])), ensure_ascii=False) + '\n')
m = dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='none', enable='no guarded hooks: checks use the exported API, the built command and build-time overlays generated from /repo', source_commits=[]),
    checks=[dict(property=p['id'], quick_cmd='./check.sh ' + p['id'], thorough_cmd='VERIF_TIER=thorough ./check.sh ' + p['id'],
        technique=p['technique'], level='model_checking', level_note=p['note']) for p in P if p['id'] not in [n['property'] for n in NA]],
    not_applicable=NA)
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1, ensure_ascii=False); f.write('\n')
