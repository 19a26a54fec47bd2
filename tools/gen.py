#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS
try:
    from props import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for pid in sorted(PROPS):
        p = PROPS[pid]
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['observe']:
            a['observe_at'] = [p['observe']]
        f.write(json.dumps({'id': pid, 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': [], 'not_applicable': NOT_APPLICABLE,
     'notes': 'One engine (harness/engine.cpp) decides every property by generated-input search with shrinking; VERIF_SEED selects the cases. See DESIGN.md.'}
for pid in sorted(PROPS):
    p = PROPS[pid]
    c = {'property': pid, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % pid,
         'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % pid, 'evidence_file': 'evidence/%s.json' % pid,
         'technique': 'property-based testing: generated inputs against ' + (p['note'] or 'an exhaustive reference oracle') + ', failures shrunk to a replayable choice sequence',
         'level': 'exploration', 'level_note': 'random search: no failure in the cases generated, not a proof; counts, distinct non-trivial cases and samples are in the evidence'}
    m['checks'].append(c)
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), json.load(open('/root/.vp/PROPERTIES.schema.json')))
    print('valid')
except ImportError:
    pass
