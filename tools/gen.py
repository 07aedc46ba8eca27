#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props.py and specs.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
import specs, props
NA = getattr(props, 'NA', {})
with open(V + '/properties.jsonl', 'w') as f:
    for p in props.P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, p['id'] + ' sentences'
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], hook_needed=None)
        if p['state']: a['state'] = p['state']
        if p['observe']: a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'], anchors=a)) + '\n')
checks, na = [], []
for p in props.P:
    i = p['id']
    if i in specs.SPECS and i not in NA:
        checks.append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                           technique=p['tech'], level=specs.SPECS[i].get('level', 'exploration'), level_note=p['note']))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'its check is still under construction')))
json.dump(dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(props.P), 'properties', len(checks), 'checks')
