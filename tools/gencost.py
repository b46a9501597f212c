#!/usr/bin/env python3
"""Collects rules, obligations and times of the last runs from evidence/ into tools/cost.json."""
import json, os, glob
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
o = {}
for p in sorted(glob.glob(R + '/evidence/*.json')):
    e = json.load(open(p))
    c = e['coverage']
    o[e['property']] = {'rules': c.get('rules', {}), 'obligations': c.get('obligations'), 'seconds': round(max(0, e.get('wall_s', 0)))}
json.dump(o, open(R + '/tools/cost.json', 'w'), indent=1, sort_keys=True)
