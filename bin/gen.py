#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from propdefs.py and jobs.py."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'bin'))
import propdefs as PD, jobs as J
checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d in PD.D:
        assert len(d['title']) <= 80, d['id']
        a = dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']])
        if d['state']: a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in d['state']]
        if d['observe']: a['observe_at'] = d['observe']
        f.write(json.dumps(dict(id=d['id'], title=d['title'], statement=d['statement'], quantifier=dict(over=d['over'], text=d['text']), why_tests_cant=d['why'], anchors=a)) + '\n')
        if d['id'] in J.PROPS and not d['na']:
            p = J.PROPS[d['id']]
            checks.append(dict(property=d['id'], quick_cmd='python3 bin/check.py %s --tier quick' % d['id'], thorough_cmd='python3 bin/check.py %s --tier thorough' % d['id'],
                               evidence_file='evidence/%s.json' % d['id'], technique=d['technique'] or PD.TECH, level=p.level, level_note=d['level_note']))
        else:
            na.append(dict(property=d['id'], reason=d['na'] or 'not built yet'))
m = dict(version=1, setup_cmd='mkdir -p .build evidence', hooks=dict(guard='DLB_VERIF', enable='no hooks are compiled into /repo; contracts live in /verif/h and are compiled with the extracted sources', source_commits=[]),
         checks=checks, not_applicable=na, notes='Contracts and harnesses in /verif/h, machinery in /verif/bin; see DESIGN.md. Known and fixed findings in known_findings.jsonl.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')): jsonschema.validate(json.loads(l), s)
    print('schemas ok,', len(checks), 'checks,', len(na), 'n/a')
except ImportError: print('jsonschema not available (use python3-vt)')
