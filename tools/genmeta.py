#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from meta.py"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import meta
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in meta.P + meta.NA:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='bash extractor/build.sh',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py %s quick' % p['id'],
                      thorough_cmd='python3 check.py %s thorough' % p['id'],
                      technique=p['technique'], level='other', level_note=p['note']) for p in meta.P],
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in meta.NA])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
ids = [p['id'] for p in meta.P + meta.NA]
assert len(ids) == len(set(ids))
print(len(meta.P), 'claimed', len(meta.NA), 'not applicable')
