#!/usr/bin/env python3
"""run.py <ID> [--tier quick|thorough] [--seed N] [--replay FILE] [--case "..."] [--keep-going]
Builds what property <ID> needs from /repo's working tree, runs its generated cases on all cores, writes
evidence/<ID>.json and, on a violation, a replay file."""
import sys, os, subprocess, json, time, hashlib, shutil, tempfile, concurrent.futures as cf, argparse, fcntl
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('VERIF_REPO', '/repo'); B = os.environ.get('VERIF_BUILD', os.path.join(V, 'build'))
NP = os.cpu_count() or 8
SAN = 'address,undefined'
WRAP = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'memalign', 'pthread_mutex_init', 'pthread_cond_init', 'pthread_create', 'pthread_join']
SWRAP = ['pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_unlock', 'pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cond_signal', 'pthread_cond_broadcast', 'pthread_once', 'sched_yield']
TSF = '-fsanitize=thread -mllvm -tsan-instrument-memory-accesses=0 -mllvm -tsan-instrument-func-entry-exit=0 -mllvm -tsan-instrument-memintrinsics=0'
VARIANTS = {
    # gcc, with the assembly, without assertions: what users run. Also the command line tool.
    'asm': dict(cc='gcc', ndebug='true', args=['-Denable_asm=true', '-Doptimization=2', '-Dtrim_dsp=false', '-Denable_tools=true', '-Dxxhash_muxer=auto'], shim='', wrap=WRAP, link='g++', lflags=[]),
    'c': dict(cc='gcc', args=['-Denable_asm=false', '-Doptimization=2', '-Denable_tools=true', '-Dxxhash_muxer=auto'], shim='', wrap=WRAP, link='g++', lflags=[]),
    # clang, portable C, AddressSanitizer and UndefinedBehaviorSanitizer, assertions on
    'san': dict(cc='clang', args=['-Denable_asm=false', '-Doptimization=1', '-Denable_tools=false', '-Db_sanitize=' + SAN, '-Db_lundef=false', '-Dc_args=-fno-sanitize-recover=undefined -fno-sanitize=function -g1'], shim='', wrap=WRAP, link='clang++', lflags=['-fsanitize=' + SAN]),
    # the command line tool and the library with the sanitizers
    'sancli': dict(cc='clang', args=['-Denable_asm=false', '-Doptimization=1', '-Denable_tools=true', '-Db_sanitize=' + SAN, '-Db_lundef=false', '-Dxxhash_muxer=auto', '-Dc_args=-fno-sanitize-recover=undefined -fno-sanitize=function -g1'], shim='', wrap=WRAP, link='clang++', lflags=['-fsanitize=' + SAN]),
    # clang, portable C, atomics instrumented, under the deterministic scheduler
    'sched': dict(cc='clang', args=['-Denable_asm=false', '-Doptimization=1', '-Denable_tools=false', '-Dc_args=' + TSF], shim='-DSCHED_VARIANT', wrap=WRAP + SWRAP, link='clang++', lflags=[]),
    # other build options: as shipped (trimmed function tables, no assertions) but without logging; one family of bit depths each
    'trim': dict(cc='gcc', ndebug='true', args=['-Denable_asm=true', '-Doptimization=3', '-Dtrim_dsp=true', '-Denable_tools=false', '-Dlogging=false'], shim='', wrap=WRAP, link='g++', lflags=[]),
    'only8': dict(cc='clang', args=['-Denable_asm=true', '-Doptimization=2', '-Dtrim_dsp=true', '-Denable_tools=false', '-Dbitdepths=8'], shim='', wrap=WRAP, link='g++', lflags=[]),
    'only16': dict(cc='gcc', args=['-Denable_asm=false', '-Doptimization=2', '-Denable_tools=false', '-Dbitdepths=16', '-Dlogging=false'], shim='', wrap=WRAP, link='g++', lflags=[]),
    'tsan': dict(cc='clang', args=['-Denable_asm=false', '-Doptimization=1', '-Denable_tools=false', '-Db_sanitize=thread', '-Db_lundef=false', '-Dc_args=-g1'], shim='-DNOSHIM', wrap=[], link='clang++', lflags=['-fsanitize=thread']),
}
sys.path.insert(0, V)
from checks import CHECKS
ENV = dict(os.environ); [ENV.pop(k, None) for k in ('CFLAGS', 'LDFLAGS', 'CXXFLAGS', 'CPPFLAGS', 'MALLOC_PERTURB_')]
ENV['LC_ALL'] = 'C'

class BuildError(Exception): pass
def sh(cmd, env=None, timeout=1500):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, timeout=timeout)
    if p.returncode: raise BuildError('%s\n%s' % (' '.join(cmd), p.stdout.decode('utf8', 'replace')[-6000:]))
    return p.stdout

def build_lib(v):
    d = os.path.join(B, v); c = VARIANTS[v]; env = dict(ENV, CC=c['cc'])
    common = ['-Denable_tests=false', '-Denable_examples=false', '-Ddefault_library=static', '--buildtype=plain', '-Dwerror=false', '--wrap-mode=nodownload', '-Db_ndebug=' + c.get('ndebug', 'false')]
    if not os.path.exists(os.path.join(d, 'build.ninja')):
        shutil.rmtree(d, ignore_errors=True); sh(['meson', 'setup', d, REPO] + common + c['args'], env)
    sh(['ninja', '-C', d], env)
    return os.path.join(d, 'src', 'libdav1d.a')

def newest_header():
    t = 0
    for r in (os.path.join(V, 'model'), os.path.join(V, 'harness'), os.path.join(REPO, 'include', 'dav1d')):
        for f in os.listdir(r):
            if f.endswith(('.h', '.inc')): t = max(t, os.path.getmtime(os.path.join(r, f)))
    return t
def build_objs(shims):
    o = os.path.join(B, 'obj'); os.makedirs(o, exist_ok=True); hd = newest_header(); jobs = []; objs = []
    for sub in ('model', 'harness'):
        for f in sorted(os.listdir(os.path.join(V, sub))):
            if not f.endswith('.cc') or f == 'shim.cc': continue
            src = os.path.join(V, sub, f); ob = os.path.join(o, f[:-3] + '.o'); objs.append(ob)
            if not os.path.exists(ob) or os.path.getmtime(ob) < max(hd, os.path.getmtime(src)): jobs.append((src, ob, ['-O1']))
    sd = {}
    for s in shims:
        ob = os.path.join(o, 'shim%s.o' % s.replace('-D', '_')); sd[s] = ob; src = os.path.join(V, 'harness', 'shim.cc')
        if not os.path.exists(ob) or os.path.getmtime(ob) < max(hd, os.path.getmtime(src)): jobs.append((src, ob, ['-O2'] + ([s] if s else [])))
    def one(j):
        tmp = j[1] + '.tmp%d' % os.getpid(); sh(['g++', '-std=c++17', '-g1', '-w', '-I' + os.path.join(REPO, 'include'), '-c', j[0], '-o', tmp] + j[2]); os.rename(tmp, j[1])
    with cf.ThreadPoolExecutor(NP) as ex: list(ex.map(one, jobs))
    return objs, sd

def build_cli(v):
    # the command line tool again, with harness/clitrace.c in front of the library
    d = os.path.join(B, v); out = 'tools/dav1d-trace'; src = os.path.join(V, 'harness', 'clitrace.c'); tool = os.path.join(d, 'tools', 'dav1d'); po = os.path.join(d, out)
    if os.path.exists(po) and os.path.getmtime(po) > max(os.path.getmtime(tool), os.path.getmtime(src)): return
    if os.path.exists(po): os.unlink(po)
    try:
        sh(['gcc', '-O1', '-w', '-I' + os.path.join(REPO, 'include'), '-c', src, '-o', os.path.join(d, 'clitrace.o')])
        cmd = subprocess.run(['ninja', '-C', d, '-t', 'commands', 'tools/dav1d'], stdout=subprocess.PIPE, env=ENV, timeout=60).stdout.decode().strip().split('\n')[-1].split()
        cmd[cmd.index('-o') + 1] = out; cmd += ['clitrace.o'] + ['-Wl,--wrap=' + w for w in ('dav1d_open', 'dav1d_send_data', 'dav1d_set_cpu_flags_mask')]
        p = subprocess.run(cmd, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode: print('NOTE: no traced tool: ' + p.stdout.decode('utf8', 'replace')[-300:])
    except (BuildError, ValueError, subprocess.SubprocessError) as e: print('NOTE: no traced tool: %s' % str(e)[-300:])
need_cli = set()
def build(variants):
    os.makedirs(B, exist_ok=True)
    with open(os.path.join(B, '.lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with cf.ThreadPoolExecutor(len(variants) + 1) as ex:
            fo = ex.submit(build_objs, sorted({VARIANTS[v]['shim'] for v in variants})); fl = {v: ex.submit(build_lib, v) for v in variants}
            objs, sd = fo.result(); libs = {v: f.result() for v, f in fl.items()}
        for v in variants:
            if v in need_cli: build_cli(v)
        exe = {}
        def link(v):
            c = VARIANTS[v]; out = os.path.join(B, 'vchk-' + v); srcs = objs + [sd[c['shim']], libs[v]]
            if not os.path.exists(out) or any(os.path.getmtime(x) >= os.path.getmtime(out) for x in srcs):
                sh([c['link'], '-o', out] + c['lflags'] + objs + [sd[c['shim']]] + ['-Wl,--wrap=' + w for w in c['wrap']] + [libs[v], '-lpthread', '-ldl', '-lm', '-rdynamic'])
            return out
        with cf.ThreadPoolExecutor(4) as ex:
            for v, r in zip(variants, ex.map(link, variants)): exe[v] = r
    return exe

SENV = dict(ENV, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=32', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=77', TSAN_OPTIONS='halt_on_error=0:exitcode=66:report_thread_leaks=0:history_size=4:suppressions=')

def known():
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = {}; rest = l[8:].strip()
                for part in rest.split(' | '):
                    k, _, v = part.partition('='); d[k.strip()] = v.strip()
                out.append(d)
    return out

def main():
    ap = argparse.ArgumentParser(); ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1)); ap.add_argument('--replay'); ap.add_argument('--case'); ap.add_argument('--time', type=float); ap.add_argument('--cases', type=int); ap.add_argument('--leg'); ap.add_argument('-v', action='store_true'); ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args(); ID = a.id; ck = CHECKS[ID]; tier = 'thorough' if a.tier == 'thorough' else 'quick'; t0 = time.time()
    legs = [l for l in ck['legs'] if (tier == 'thorough' or not l.get('thorough_only')) and (not a.leg or l['name'] == a.leg)]
    try:
        need_cli.update(l['variant'] for l in legs if l.get('cli'))
        exe = build(sorted({l['variant'] for l in legs}))
    except BuildError as e:
        print('BUILD-ERROR: ' + str(e)); return 2
    tb = time.time() - t0; scratch = tempfile.mkdtemp(prefix='vchk-%s-' % ID); cli = lambda v: os.path.join(B, v, 'tools', 'dav1d')
    try:
        if a.replay or a.case:
            txt = open(a.replay).read() if a.replay else ''
            case = a.case; var = None; legname = a.leg
            for l in txt.split('\n'):
                if l.startswith('case '): case = l[5:]
                if l.startswith('variant '): var = l[8:].strip()
            if not var: var = legs[0]['variant']
            if var not in exe: exe.update(build([var]))
            p = subprocess.run([exe[var], '--case', case, '--scratch', scratch, '--cli', cli(var), '--variant', var, '-v'], env=SENV); return p.returncode
        total = dict(evals=0, nontrivial=0, inconclusive=0, n={}, inc={}, legs=[]); flaky = []; fps = set(); samples = []; rules = []; viol = None
        for leg in legs:
            cid = leg.get('check', ID); cases = a.cases if a.cases is not None else leg[tier]; cap = a.time or leg.get('cap_' + tier, 150 if tier == 'quick' else 3000); W = leg.get('workers', NP); t1 = time.time()
            procs = []
            for w in range(W):
                d = os.path.join(scratch, '%s-%d' % (leg['name'], w)); os.makedirs(d); out = os.path.join(d, 'out.json')
                cmd = [exe[leg['variant']], cid, '--seed', str(a.seed), '--worker', str(w), '--workers', str(W), '--cases', str(cases), '--time', str(cap), '--out', out, '--scratch', d, '--cli', cli(leg['variant']), '--variant', leg['variant'], '--case-limit', str(leg.get('case_limit', 60)), '--shrink', '40' if tier == 'quick' else '300'] + (['--thorough'] if tier == 'thorough' else []) + (['--racy'] if ck.get('racy') else [])
                procs.append((w, out, subprocess.Popen(cmd, env=SENV, stdout=subprocess.DEVNULL if not a.v else None)))
            broke = None
            stop_at = None
            while True:
                alive = [p for _, _, p in procs if p.poll() is None]
                done_viol = any(p.poll() == 1 for _, _, p in procs)
                if not alive: break
                if done_viol and stop_at is None: stop_at = time.time() + 20
                if stop_at and time.time() > stop_at:
                    for p in alive: p.kill()
                    for p in alive: p.wait()
                    break
                if time.time() - t1 > cap + 400:
                    for p in alive: p.kill()
                    for p in alive: p.wait()
                    broke = 'worker hung'; break
                time.sleep(0.05)
            le = dict(name=leg['name'], variant=leg['variant'], evaluations=0, nontrivial=0, inconclusive=0)
            for w, out, p in procs:
                if p.returncode not in (0, 1) and not stop_at: broke = broke or 'worker %d of leg %s ended with %s' % (w, leg['name'], p.returncode)
                if not os.path.exists(out): continue
                j = json.load(open(out)); le['evaluations'] += j['evals']; le['nontrivial'] += j['nontrivial']; le['inconclusive'] += j['inconclusive']
                for h in j['fps']: fps.add(leg['name'] + h)
                for k, x in j['n'].items(): total['n'][k] = total['n'].get(k, 0) + x
                for k, x in j['inc'].items(): total['inc'][k] = total['inc'].get(k, 0) + x
                if w < 2: samples += ['[%s] %s' % (leg['variant'], s) for s in j['samples'][:2]]
                if j['rule'] not in rules: rules.append(j['rule'])
                flaky += [dict(f, variant=leg['variant'], leg=leg['name']) for f in j.get('flaky', [])]
                if 'viol' in j:
                    vv = dict(j['viol'], variant=leg['variant'], leg=leg['name'])
                    if viol is None or (vv['reproduced'] > viol['reproduced']): viol = vv
            le['wall_s'] = round(time.time() - t1, 1); total['legs'].append(le)
            for k in ('evals', 'nontrivial', 'inconclusive'): total[k] += le['evaluations' if k == 'evals' else k]
            if broke: print('CHECK-ERROR: ' + broke); return 2
            if viol: break
        code = 0; nviol = 0
        # what did not show again in 15 repetitions is reported only when it came up more than once
        for f in flaky: total['inc']['seen once, not reproduced: ' + f['msg'][:200]] = 1; print('NOTE: not seen again in 15 repetitions: %s\n  case %s' % (f['msg'], f['case']))
        hard = [f for f in flaky if 'did not end' not in f['msg']]
        if not viol and len(hard) > 1: viol = dict(hard[0], orig=hard[0]['case'], reproduced=0, shrink_runs=0)
        kf = [k for k in known() if k.get('property') == ID]
        for k in kf: print('KNOWN-FINDING: property=%s %s' % (ID, k.get('what', '')))
        if viol:
            nviol = 1; code = 1; rd = os.path.join(V, 'replays'); os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, '%s-%s.txt' % (ID, hashlib.sha1(viol['case'].encode()).hexdigest()[:10]))
            with open(path, 'w') as f: f.write('property %s\nvariant %s\nleg %s\ncase %s\noriginal %s\nmessage %s\nreproduced %d of 3, shrink runs %d\nrun: python3 %s/run.py %s --replay %s\n' % (ID, viol['variant'], viol['leg'], viol['case'], viol['orig'], viol['msg'], viol['reproduced'], viol['shrink_runs'], V, ID, path))
            print('violation: %s' % viol['msg']); print('VIOLATION property=%s replay=%s' % (ID, path))
        ev = dict(property=ID, tier=tier, seed=a.seed, level=ck.get('level', 'exploration'), wall_s=round(time.time() - t0, 1), violations=nviol,
                  coverage=dict(evaluations=total['evals'], distinct_nontrivial=len(fps), rule='; '.join(rules), samples=samples[:8], inconclusive=total['inconclusive'], inconclusive_reasons=total['inc'], build_s=round(tb, 1), legs=total['legs'], classes=dict(sorted(total['n'].items()))),
                  assumptions=ck.get('assumptions', []))
        if not a.no_evidence:
            os.makedirs(os.path.join(V, 'evidence'), exist_ok=True); json.dump(ev, open(os.path.join(V, 'evidence', ID + '.json'), 'w'), indent=1)
        print('%s %s seed %d: %d cases, %d distinct non-trivial, %d inconclusive, build %.0f s, total %.0f s%s' % (ID, tier, a.seed, total['evals'], len(fps), total['inconclusive'], tb, time.time() - t0, '' if code else ', held'))
        if not code and total['evals'] and total['inconclusive'] * 4 > total['evals']: print('CHECK-ERROR: too many inconclusive cases: %s' % total['inc']); return 2
        return code
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
if __name__ == '__main__': sys.exit(main())
