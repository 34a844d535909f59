"""Writes MANIFEST.json from harness/registry.py and tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import registry
import props

checks = []
for p in props.PROPS:
    c = registry.CHECKS.get(p['id'])
    if c:
        checks.append({
            'property': p['id'],
            'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
            'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
            'technique': c['technique'], 'level': c['level'], 'level_note': c['note']})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': registry.NOT_APPLICABLE.get(p['id'], 'no check yet')}
                        for p in props.PROPS if p['id'] not in registry.CHECKS]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
props.write()
