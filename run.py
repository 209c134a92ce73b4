#!/usr/bin/env python3
"""Run one check: build /repo's sources and the harness, explore, write evidence, report.

usage: run.py PROPERTY [--tier quick|thorough] [--replay 'v/n v/n ...' | --replay FILE] [-v]
"""
import concurrent.futures, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, os.path.join(V, 'lib'))
import registry

CDEF = ['-DHAVE_CLOCK_GETTIME=1', '-DHAVE_ENDIAN_H=1', '-DHAVE_DECL_LE16TOH=1', '-D_GNU_SOURCE',
        '-DPACKAGE_VERSION="x"']

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return p.returncode, p.stdout

def build(spec, work):
    """compile everything in parallel; returns the binary, or raises with the compiler's text"""
    san = spec.get('san', ['-fsanitize=address'])
    cc = spec.get('cc', 'clang')
    cxx = {'clang': 'clang++', 'gcc': 'g++'}[cc]
    open(os.path.join(work, 'config.h'), 'w').close()
    inc = ['-I' + work, '-I' + V + '/standin', '-I' + V + '/lib', '-I' + R, '-I' + R + '/dnstable', '-I' + R + '/libmy']
    base = ['-g1', '-O1', '-fno-omit-frame-pointer', '-w'] + san
    jobs = []
    def c(src, extra=()):
        o = os.path.join(work, hashlib.sha1((src + repr(extra)).encode()).hexdigest()[:16] + '.o')
        jobs.append([cc, '-std=gnu11'] + base + CDEF + inc + list(extra) + ['-c', src, '-o', o])
        return o
    objs = []
    groups = spec.get('groups', [])
    if 'dnstable' in groups:
        extra = spec.get('dnstable_flags', [])
        srcs = sorted(glob.glob(R + '/dnstable/*.c'))
        for s in srcs: objs.append(c(s, extra))
        objs.append(c(R + '/libmy/my_format.c'))
        objs += [c(V + '/standin/mtbl.c'), c(V + '/standin/wdns.c')]
    for s, extra in spec.get('repo_sources', []):
        objs.append(c(os.path.join(R, s), extra))
    sched = list(spec.get('sched_sources', []))
    if 'dnstable-sched' in groups:
        # at -O0 every access to a variable stays an access, and every call a call
        sched += [(os.path.relpath(s, R), ['-O0', '-mllvm', '-tsan-instrument-func-entry-exit=1']) for s in sorted(glob.glob(R + '/dnstable/*.c')) + [R + '/libmy/my_format.c']]
        objs += [c(V + '/standin/mtbl.c'), c(V + '/standin/wdns.c')]
    for s in sched:
        # instrumented for lib/sched.hpp: every access, atomic and fence becomes a call
        s, extra = (s, []) if isinstance(s, str) else s
        o = os.path.join(work, hashlib.sha1((s + 'sched').encode()).hexdigest()[:16])
        src = os.path.join(R, s) if not s.startswith('/verif:') else os.path.join(V, s[7:])
        import shlex
        jobs.append(['bash', '-ec', ' '.join(map(shlex.quote, ['clang', '-std=gnu11', '-O1', '-w', '-fsanitize=thread', '-mllvm', '-tsan-instrument-read-before-write=1',
            '-femulated-tls', '-S', '-emit-llvm'] + ([] if '-tsan-instrument-func-entry-exit=1' in extra else ['-mllvm', '-tsan-instrument-func-entry-exit=0']) + CDEF + inc + list(extra) + [src, '-o', o + '.ll'])) +
            r""" && sed -i -E 's/(tail )?call void asm sideeffect "[^"]*(mfence|lock)[^"]*", "[^"]*memory[^"]*"\(\)( #[0-9]+)?/call void @vf_asm_fence()/; s/(tail )?call void asm sideeffect "[^"]*", "[^"]*memory[^"]*"\(\)( #[0-9]+)?/call void @vf_asm_barrier()/' %s.ll && printf 'declare void @vf_asm_fence()\ndeclare void @vf_asm_barrier()\n' >> %s.ll && clang -w -O1 -femulated-tls -c %s.ll -o %s.o""" % (o, o, o, o)])
        objs.append(o + '.o')
    for s, extra in spec.get('verif_sources', []):
        objs.append(c(os.path.join(V, s), extra))
    h = os.path.join(V, 'checks', spec['harness'])
    ho = os.path.join(work, 'harness.o')
    # the harness itself is not instrumented (speed); what it reads from the library it copies
    # through memcpy/strlen, which the sanitizer intercepts
    hbase = ['-g1', '-O2', '-fno-omit-frame-pointer', '-w'] + spec.get('harness_san', [])
    jobs.append([cxx, '-std=gnu++17'] + hbase + CDEF + inc + spec.get('harness_flags', []) + ['-c', h, '-o', ho])
    objs.append(ho)
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        for (rc, out), j in zip(ex.map(sh, jobs), jobs):
            if rc: raise RuntimeError(' '.join(j) + '\n' + out)
    exe = os.path.join(work, 'check')
    rc, out = sh([cxx] + san + spec.get('link', []) + objs + spec.get('libs', []) + ['-o', exe, '-lm', '-lz', '-lpthread'])
    if rc: raise RuntimeError(out)
    return exe

def known_findings(pid):
    keys = []
    try:
        for l in open(os.path.join(V, 'known_findings.jsonl')):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get('status') == 'known' and d['property'] == pid: keys.append(d)
    except FileNotFoundError:
        pass
    return keys

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a: tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = registry.CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
    os.chmod(work, 0o755)
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:quarantine_size_mb=1:thread_local_quarantine_size_kb=64:malloc_context_size=0:allocator_may_return_null=1:max_allocation_size_mb=1100:handle_abort=0:detect_stack_use_after_return=0'
    env['TSAN_OPTIONS'] = 'halt_on_error=1'
    env['TZ'] = 'VRF7:13DST,M3.5.0,M10.5.0/3'; env['LC_ALL'] = 'C'   # a zone whose local time is never UTC
    # scratch directory for checks which use the file system, in memory if possible
    try: scratch = tempfile.mkdtemp(prefix='vf-%s-' % pid, dir='/dev/shm')
    except OSError: scratch = os.path.join(work, 'scratch'); os.mkdir(scratch)
    env['VF_SCRATCH'] = scratch
    env['VF_WORK'] = work; env['VF_REPO'] = R
    try:
        try:
            exe = build(spec, work)
        except RuntimeError as e:
            print('BUILD FAILED for %s\n%s' % (pid, e))
            return 3
        if '--replay' in a:
            r = a[a.index('--replay') + 1]
            if os.path.exists(r): r = json.load(open(r))['path']
            env['ASAN_OPTIONS'] = env['ASAN_OPTIONS'].replace('malloc_context_size=0', 'malloc_context_size=8')
            return subprocess.run([exe, '--replay', r, '--tmp', work] + (['--thorough'] if tier == 'thorough' else []), env=env).returncode
        kf = known_findings(pid)
        budget = spec.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
        res = os.path.join(work, 'result.json')
        cmd = [exe, '--out', res, '--tmp', work, '--shards', str(spec.get('shards', 8)), '--budget', str(budget),
               '--known', '\n'.join(d['key'] for d in kf)]
        if tier == 'thorough': cmd.append('--thorough')
        if '-v' in a: cmd.append('-v')
        p = subprocess.run(cmd, env=env)
        if not os.path.exists(res):
            print('check did not finish: status %d' % p.returncode)
            return 3
        d = json.load(open(res))
        if d['errors']:
            print('check is broken: %r' % {k: d[k] for k in d if k != 'samples'})
            return 3
        # each listed finding is reported on every run
        for f in kf:
            print('KNOWN-FINDING: property=%s %s%s' % (pid, f['what'], '' if f['key'] in d['known_seen'] else ' (not reached in this run)'))
        nviol = 1 if 'violation' in d else 0
        cov = {'states': d['states'], 'transitions': d['transitions'], 'traces_validated_against_impl': d['executions'],
               'exhaustive': d['exhausted'], 'infeasible_branches_cut': d['cut'], 'bounds': spec['bounds'][tier] if isinstance(spec['bounds'], dict) else spec['bounds'],
               'states_are': spec.get('states_are', 'distinct (environment, reference-model state) pairs reached'),
               'transitions_are': spec.get('transitions_are', 'steps of the real code compared with the reference model'),
               'samples': d['samples'] or ['(none)']}
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
              'assumptions': registry.assumptions(spec), 'wall_s': round(time.time() - t0, 2), 'violations': nviol}
        os.makedirs(os.path.join(V, 'evidence', 'replay'), exist_ok=True)
        json.dump(ev, open(os.path.join(V, 'evidence', pid + '.json'), 'w'), indent=1)
        if nviol:
            v = d['violation']
            rp = os.path.join(V, 'evidence', 'replay', pid + '.json')
            v['command'] = 'python3 run.py %s --tier %s --replay evidence/replay/%s.json' % (pid, tier, pid)
            json.dump(v, open(rp, 'w'), indent=1)
            print('%s: %s: %s' % (pid, v['key'], v['msg'][:3000]))
            print('trace: %s' % v['trace'][:3000])
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            return 1
        print('%s %s: held on %d executions, %d states, %d transitions (%s) in %.1f s' % (
            pid, tier, d['executions'], d['states'], d['transitions'], 'exhausted the bounds' if d['exhausted'] else 'budget reached', time.time() - t0))
        if d['executions'] == 0:
            print('nothing was explored'); return 3
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if 'VF_KEEP' not in os.environ: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)

sys.exit(main())
