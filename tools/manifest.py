#!/usr/bin/env python3
"""Regenerate /verif/MANIFEST.json from lib/registry.py and tools/properties.py."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'tools')]
import registry, properties
T = {
 'seq': 'stateless model checking: bounded exhaustive exploration of the real code against a reference model',
 'sched': 'stateless model checking of thread schedules: every interleaving within the bounds, on the real code',
 'state': 'explicit-state model checking: every reachable state within the bounds, on the real code against a reference model',
 'fault': 'stateless model checking: every environment answer, fault or crash point within the bounds, on the real code',
}
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import registry"',
     'hooks': {'guard': 'none needed', 'enable': 'the checks compile the unmodified sources of /repo with link-time wraps; no hooks exist in /repo', 'source_commits': []},
     'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md. Each check rebuilds /repo\'s sources and its harness in a scratch directory, explores, and writes evidence/<id>.json. Tier "quick" and "thorough" differ only in bounds.'}
for p in properties.P:
    pid = p['id']
    s = registry.CHECKS.get(pid)
    if not s:
        m['not_applicable'].append({'property': pid, 'reason': registry.NOT_APPLICABLE.get(pid, 'no check has been built for this property yet')})
        continue
    b = s['bounds']['quick'] if isinstance(s['bounds'], dict) else s['bounds']
    m['checks'].append({'property': pid, 'quick_cmd': 'python3 run.py %s --tier quick' % pid, 'thorough_cmd': 'python3 run.py %s --tier thorough' % pid,
      'technique': T[s.get('kind', 'seq')], 'level': 'model_checking',
      'level_note': 'Exhaustive within: %s. Trusts: %s.' % (b, '; '.join(registry.assumptions(s) + ['the reference model in the harness', 'the compiler and its AddressSanitizer']))})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(m['checks']), 'checks,', len(m['not_applicable']), 'not claimed')
