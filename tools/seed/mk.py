#!/usr/bin/env python3
# usage: mk.py SPECFILE...   each spec is a python file defining S = [dict(id, prop, edits=[(file, old, new)], needs, breaks, demo=..., kind='lib'|'c'|'sh', flags)]
import sys, os, subprocess, shutil, json, importlib.util
KIT='/tmp/seed/kit'; OUT='/verif/seeded'
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)
orig = {}
def original(f):
    if f not in orig: orig[f] = set(sh('git -C /repo show 82a1809:%s' % f).stdout.splitlines())
    return orig[f]
CSH = '''#!/bin/bash
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d) || exit 2; trap 'rm -rf "$W"' EXIT
cd "$W" || exit 2
gcc -std=gnu11 -w -O1 -g %s -D_GNU_SOURCE -I"$D" -I"$R" -I"$R/libmy" "$D/demo.c" %s -o demo -lm -lpthread || exit 2
export ASAN_OPTIONS=detect_leaks=0
timeout 60 ./demo
'''
def make(s):
    W = '/tmp/seed/w.%s' % s['id']; shutil.rmtree(W, ignore_errors=True)
    sh('git clone -q /repo %s' % W)
    for f, old, new in s['edits']:
        p = W + '/' + f; t = open(p).read()
        if t.count(old) != 1: return 'EDIT old occurs %d times in %s' % (t.count(old), f)
        open(p, 'w').write(t.replace(old, new))
    d = sh('git -C %s diff' % W).stdout
    removed = [l[1:] for l in d.splitlines() if l.startswith('-') and not l.startswith('---')]
    for l in removed:
        if not any(l in original(f) for f, _, _ in s['edits']): return 'NOT ORIGINAL: ' + l
    D = OUT + '/' + s['id']; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    open(D + '/patch.diff', 'w').write(d)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(D + '/meta.json', 'w'), indent=1)
    k = s.get('kind', 'lib')
    if k == 'lib':
        for f in os.listdir(KIT): shutil.copy(KIT + '/' + f, D + '/' + f)
        open(D + '/demo.cc', 'w').write(s['demo'])
        for n, x in s.get('files', {}).items(): open(D + '/' + n, 'w').write(x)
    else:
        open(D + '/demo.c', 'w').write(s['demo'])
        open(D + '/demo.sh', 'w').write(CSH % (s.get('flags', '-fsanitize=address,undefined -fno-sanitize-recover=undefined'), s.get('srcs', '')))
        for n, t in s.get('files', {}).items(): open(D + '/' + n, 'w').write(t)
    os.chmod(D + '/demo.sh', 0o755)
    # copy elsewhere as the final check does
    E = '/tmp/seed/e.%s' % s['id']; shutil.rmtree(E, ignore_errors=True); shutil.copytree(D, E)
    for f in ('patch.diff', 'meta.json'): os.remove(E + '/' + f)
    a = sh('cd /repo && bash %s/demo.sh' % E)
    b = sh('cd %s && bash %s/demo.sh' % (W, E))
    ok = a.returncode == 0 and b.returncode != 0
    comp = ''
    for f, _, _ in s['edits']:
        if f.startswith('libmy/') and f.endswith('.c'):
            r = sh('cd %s && gcc -std=gnu11 -I. -Ilibmy -D_GNU_SOURCE -c %s -o /dev/null' % (W, f))
            if r.returncode: comp = 'COMPILE FAIL ' + r.stdout[:300]
    shutil.rmtree(E)
    return ('ok  ' if ok and not comp else 'BAD ') + 'clean=%d patched=%d %s | %s' % (a.returncode, b.returncode, comp, (a.stdout[-300:] if a.returncode else '') + ' || ' + b.stdout[-200:].replace('\n', ' / '))
for f in sys.argv[1:]:
    only = None
    if ':' in f: f, only = f.split(':')
    ns = {}; exec(open(f).read(), ns)
    for s in ns['S']:
        if only and s['id'] != only: continue
        print(s['id'], make(s), flush=True)
