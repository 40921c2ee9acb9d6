import sys, os, json
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import registry
with open(H + '/properties.jsonl', 'w') as f:
    for p in registry.PROPS:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [], 'notes': 'All checks: python3 check.py <ID>; one engine (tool/irfacts.cpp + lib/), one rule module per property (rules/). thorough == quick: the analyses are exhaustive over the program text, there is no depth to add.'}
for p in registry.PROPS:
    if p['na']: m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
    else: m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'], 'technique': 'static analysis: ' + p['technique'], 'level': p['level'], 'level_note': p['note']})
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
