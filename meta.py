#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it after editing (python3 meta.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
TECH = 'contract-based deductive verification (weakest-precondition/VC generation over LLVM IR extracted from the real C++ on every run; z3/cvc5)'

PROPS = []
def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None, note=None, level='proof'):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      claim=claim, na=na, note=note, level=level))

exec(open(os.path.join(V, 'props', 'catalog.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
       'notes': 'No hooks: the verified text is the LLVM IR clang 18 produces from /repo\'s current sources on every run. See DESIGN.md.'}
for p in PROPS:
    if p['claim']:
        man['checks'].append({'property': p['id'], 'quick_cmd': 'python3-vt check.py %s --tier quick' % p['id'],
                              'thorough_cmd': 'python3-vt check.py %s --tier thorough' % p['id'],
                              'evidence_file': 'evidence/%s.json' % p['id'],
                              'technique': TECH, 'level': p['level'], 'level_note': p['note']})
    else:
        man['not_applicable'].append({'property': p['id'], 'reason': p['na']})
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for l in open(os.path.join(V, 'properties.jsonl')):
        jsonschema.validate(json.loads(l), s)
except ImportError:
    pass
print(len(PROPS), 'properties,', len(man['checks']), 'claimed')
