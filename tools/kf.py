#!/usr/bin/env python3
"""kf.py COMMIT PROP[,PROP] TEXT: note a repaired defect in known_findings.jsonl (development aid; no check writes that file)."""
import json, sys
c, ps, w = sys.argv[1:]
with open('/verif/known_findings.jsonl', 'a') as o:
    for p in ps.split(','): o.write(json.dumps({'status': 'fixed', 'property': p, 'commit': c, 'what': w, 'line': 'fixed: property=%s %s %s' % (p, c, w)}) + '\n')
