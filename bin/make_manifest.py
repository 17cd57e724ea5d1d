#!/usr/bin/env python3
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in props.PROPS:
        p = props.PROPS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 bin/check.py ' + i,
                            'thorough_cmd': 'python3 bin/check.py ' + i + ' --tier thorough',
                            'technique': 'symbolic execution of the sources\' LLVM IR with Z3; counterexamples replayed natively',
                            'level': 'model_checking', 'level_note': p['note']})
    else:
        m['not_applicable'].append({'property': i, 'reason': props.NOT_APPLICABLE.get(i, 'no check built yet')})
m['notes'] = 'Engine, library models and native replay are described in DESIGN.md. No hooks in /repo.'
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
