#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import PROPS, NOT_APPLICABLE, NOTES, HOOKS
from specs import SPECS
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
claimed = []
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        q = {
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {
                'files': p['files'],
                'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                'observe_at': p.get('observe', []),
                'hook_needed': None,
            },
        }
        assert len(q['title']) <= 80, p['id']
        f.write(json.dumps(q) + '\n')
        if p['id'] in SPECS:
            claimed.append(p)
man = {
    'version': 1,
    'setup_cmd': 'python3 tools/check.py --setup',
    'hooks': HOOKS,
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 tools/check.py %s --tier quick' % p['id'],
        'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % p['id'],
        'evidence_file': 'evidence/%s.json' % p['id'],
        'technique': p['technique'],
        'level': p.get('level', 'exploration'),
        'level_note': p['note'],
    } for p in claimed],
    'not_applicable': [{'property': a, 'reason': b} for a, b in NOT_APPLICABLE]
    + [{'property': p['id'], 'reason': 'check not built yet'} for p in PROPS if p['id'] not in SPECS],
    'notes': NOTES,
}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print('%d properties, %d claimed' % (len(PROPS), len(claimed)))
