#!/usr/bin/env python3
"""Put the generated tables (bounds, repaired defects, planted bugs) into DESIGN.md between their markers."""
import json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path[:0] = [os.path.join(V, 'lib'), os.path.join(V, 'tools')]
import registry
P = [json.loads(l) for l in open(V + '/properties.jsonl')]
def bounds():
    o = []
    for p in P:
        s = registry.CHECKS[p['id']]; b = s['bounds'] if isinstance(s['bounds'], dict) else {'quick': s['bounds'], 'thorough': 'as quick'}
        ev = {}
        try: ev = json.load(open(V + '/tools/measured.json')).get(p['id'], {})
        except FileNotFoundError: pass
        m = ['%s: %s executions, %s states, %s s' % (t, format(ev[t][0], ','), format(ev[t][1], ','), ev[t][2]) for t in ('quick', 'thorough') if t in ev]
        o.append('**%s %s** (`checks/%s`). Quick: %s. Thorough: %s.%s' % (p['id'], p['title'], s['harness'], b['quick'].rstrip('.'), b['thorough'].rstrip('.'), ' [' + '; '.join(m) + ']' if m else ''))
    return '\n\n'.join(o)
def defects():
    by = {}
    for l in open(V + '/known_findings.jsonl'):
        d = json.loads(l); by.setdefault((d['commit'], d['what']), []).append(d['property'])
    return '\n'.join('* `%s` (%s) %s' % (c, ', '.join(p), w) for (c, w), p in by.items())
def seeds():
    o = []
    try: res = json.load(open(V + '/tools/seeds.json'))
    except FileNotFoundError: res = {}
    for i in sorted(os.listdir(V + '/seeded')):
        m = json.load(open(V + '/seeded/' + i + '/meta.json'))
        o.append('* `%s` (%s): %s — %s' % (i, m['property'], m['what_it_breaks'].rstrip('.'), res.get(i, 'caught by ' + m['property'])))
    return '\n'.join(o)
t = open(V + '/DESIGN.md').read()
for n, f in (('bounds', bounds), ('defects', defects), ('seeds', seeds)):
    a, b = '<!-- %s -->' % n, '<!-- /%s -->' % n
    i, j = t.index(a) + len(a), t.index(b)
    t = t[:i] + '\n' + f() + '\n' + t[j:]
open(V + '/DESIGN.md', 'w').write(t)
