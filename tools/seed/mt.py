#!/usr/bin/env python3
# mt.py CHECK[,CHECK...] FILE N [SEED] [FROM-TO]: N sampled mutants of FILE; each is run against the checks until one reports it
import sys, re, os, random, subprocess, shutil, time
checks = sys.argv[1].split(','); F = sys.argv[2]; N = int(sys.argv[3]); seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
rng = tuple(map(int, sys.argv[5].split('-'))) if len(sys.argv) > 5 else (1, 10**9)
R = '/repo'
src = open(R + '/' + F).read().split('\n')
out = []
incomment = False; pp = False
depth = 0
for i, l in enumerate(src):
    s = l
    if incomment:
        if '*/' in s: incomment = False
        continue
    if s.lstrip().startswith('/*'):
        if '*/' not in s: incomment = True
        continue
    if s.lstrip().startswith('#') or pp:
        pp = s.rstrip().endswith('\\') and s.lstrip().startswith('#') or (pp and s.rstrip().endswith('\\'))
        if not F.endswith('.h'): continue
    code = re.sub(r'/\*.*?\*/|//.*', '', s)
    d0 = depth
    depth += code.count('{') - code.count('}')
    if d0 <= 0 and not F.endswith('.h'): continue
    if not (rng[0] <= i + 1 <= rng[1]): continue
    if re.search(r'\bassert\s*\(|\bfprintf\s*\(|\bprintf\s*\(|\bperror', code): continue
    def add(a, b, new):
        m = s[:a] + new + s[b:]
        if m != s: out.append((i, m))
    # mask strings
    mask = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '_' * (len(m.group(0)) - 2) + '"', code)
    mask = re.sub(r"'(\\.|[^'\\])+'", lambda m: "'" + '_' * (len(m.group(0)) - 2) + "'", mask)
    for m in re.finditer(r'(?<![<>=!\-+*/&|])(<=|>=|==|!=|<|>)(?![<>=])', mask):
        op = m.group(1)
        if op in '<>' and ('->' in mask[m.start()-1:m.end()] or not (mask[m.start()-1] == ' ')): continue
        for n in {'<': ['<=', '>'], '>': ['>=', '<'], '<=': ['<'], '>=': ['>'], '==': ['!='], '!=': ['==']}[op]: add(m.start(), m.end(), n)
    for m in re.finditer(r'&&', mask): add(m.start(), m.end(), '||')
    for m in re.finditer(r'\|\|', mask): add(m.start(), m.end(), '&&')
    for m in re.finditer(r'(?<![+\w]) \+ ', mask): add(m.start(), m.end(), ' - ')
    for m in re.finditer(r' - ', mask): add(m.start(), m.end(), ' + ')
    for m in re.finditer(r'\+\+', mask): add(m.start(), m.end(), '--')
    for m in re.finditer(r' (\+=) ', mask): add(m.start(), m.end(), ' -= ')
    for m in re.finditer(r' << ', mask): add(m.start(), m.end(), ' >> ')
    for m in re.finditer(r' & ', mask): add(m.start(), m.end(), ' | ')
    for m in re.finditer(r' \| ', mask): add(m.start(), m.end(), ' & ')
    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', mask):
        v = int(m.group(1), 0); add(m.start(), m.end(), str(v + 1))
        if v: add(m.start(), m.end(), str(v - 1))
    for m in re.finditer(r'\btrue\b', mask): add(m.start(), m.end(), 'false')
    for m in re.finditer(r'\bfalse\b', mask): add(m.start(), m.end(), 'true')
    for m in re.finditer(r'\bif \((?!!)([^()]*(\([^()]*\))?[^()]*)\)', mask): add(m.start(1), m.end(1), '!(' + s[m.start(1):m.end(1)] + ')')
    t = mask.strip()
    if re.match(r'^[\w\->.\[\]\*\(\) ]+(\([^;]*\)|\s*[-+|&^]?=[^=;][^;]*|\+\+|--);$', t) and not re.match(r'^(return|static|const|struct|uint\w+|int|size_t|bool|char|unsigned|long|void|u\w+_t|goto|else)\b', t):
        add(len(s) - len(s.lstrip()), len(s), ';')
    if re.match(r'^(break|continue);$', t): add(len(s) - len(s.lstrip()), len(s), ';')
random.Random(seed).shuffle(out)
out = out[:N]
surv = 0
for i, m in out:
    D = '/tmp/mt/w.%d' % os.getpid(); shutil.rmtree(D, ignore_errors=True); os.mkdir(D)
    for d in ('dnstable', 'libmy', 'src'): shutil.copytree(R + '/' + d, D + '/' + d)
    t = list(src); t[i] = m; open(D + '/' + F, 'w').write('\n'.join(t))
    res = []
    killed = None; t0 = time.time()
    for c in checks:
        p = subprocess.run(['timeout', '900', 'python3', '/verif/run.py', c, '--tier', 'quick'], env=dict(os.environ, VERIF_REPO=D), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        if p.returncode == 1: killed = c; break
        if p.returncode == 3 and 'BUILD FAILED' in p.stdout: killed = 'build'; break
        if p.returncode != 0: res.append('%s=rc%d' % (c, p.returncode))
    shutil.rmtree(D, ignore_errors=True)
    if killed is None:
        surv += 1
        print('SURVIVED %s:%d %s [%s => %s] %.0fs' % (F, i + 1, ' '.join(res), src[i].strip(), m.strip(), time.time() - t0), flush=True)
    else:
        print('  killed by %s :%d [%s] %.0fs %s' % (killed, i + 1, m.strip(), time.time() - t0, ' '.join(res)), flush=True)
print('%s %s: %d mutants, %d survived' % (sys.argv[1], F, len(out), surv), flush=True)
