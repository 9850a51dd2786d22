#!/usr/bin/env python3
"""Run the check of one property:  run.py <ID> [--only JOB] [--keep] [--cores N]
Compiles the repository's current sources to LLVM bitcode, links each harness, explores it
symbolically with engine/ushsym, replays counterexamples natively, writes evidence."""
import sys, os, json, time, subprocess, tempfile, shutil, threading, glob, shlex, re, hashlib, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
H = os.path.join(VERIF, 'harness')
ENGINE = os.path.join(VERIF, 'build', 'ushsym')
CLANG = shutil.which('clang-18') or shutil.which('clang') or 'clang'
def tool(n):
    for c in (n + '-18', n, '/usr/lib/llvm-18/bin/' + n):
        p = shutil.which(c)
        if p: return p
    return n
sys.path.insert(0, HERE)
import specs

BASEFLAGS = ['-std=gnu11', '-w', '-g', '-I' + REPO + '/src', '-I' + REPO + '/src/inc', '-I' + H, '-DUSH_CONFIG_CUSTOM_FILE="ush_cfg.h"']
SYMFLAGS = ['-O0', '-Xclang', '-disable-O0-optnone', '-fno-builtin', '-emit-llvm', '-c', '-DUSHSYM', '-fno-stack-protector', '-D_FORTIFY_SOURCE=0', '-U_FORTIFY_SOURCE']
NATFLAGS = ['-O0', '-fsanitize=address,undefined', '-fno-sanitize=function,vla-bound,alignment', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer', '-c']
MSANFLAGS = [f for f in NATFLAGS if 'sanitize' not in f] + ['-fsanitize=memory', '-fno-sanitize-recover=all']
def natflags(variant): return MSANFLAGS if variant[0] == 'msan' else [f for f in NATFLAGS if 'sanitize' not in f] if variant[0] == 'plain' else NATFLAGS + list(variant)
class BuildError(Exception): pass
def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def must(cmd):
    r = sh(cmd)
    if r.returncode: raise BuildError(' '.join(map(shlex.quote, cmd)) + '\n' + r.stdout[-3000:])

class Builder:
    def __init__(s, tmp): s.tmp, s.lock, s.done = tmp, threading.Lock(), {}
    def once(s, key, fn):
        with s.lock:
            if key not in s.done: s.done[key] = [threading.Lock(), None]
            ent = s.done[key]
        with ent[0]:
            if ent[1] is None: ent[1] = ('ok', fn()) if True else None
            return ent[1][1]
    def libsrc(s): return sorted(glob.glob(REPO + '/src/src/**/*.c', recursive=True))
    def lib(s, cfg, native):
        def go():
            d = tempfile.mkdtemp(prefix='lib', dir=s.tmp); objs = []; cmds = []
            for f in s.libsrc():
                o = os.path.join(d, os.path.basename(f) + ('.o' if native else '.bc')); objs.append(o)
                cmds.append([CLANG] + BASEFLAGS + (natflags(native) if native else SYMFLAGS) + list(cfg) + [f, '-o', o])
            with cf.ThreadPoolExecutor(8) as ex: list(ex.map(must, cmds))
            if not native:
                out = os.path.join(d, 'lib.bc'); must([tool('llvm-link')] + objs + ['-o', out]); return [out]
            return objs
        return s.once(('lib', tuple(cfg), tuple(native) if native else 0), go)
    def one(s, f, flags, native):
        def go():
            o = os.path.join(tempfile.mkdtemp(prefix='o', dir=s.tmp), 'x.' + ('o' if native else 'bc'))
            must([CLANG] + BASEFLAGS + (natflags(native) if native else SYMFLAGS) + flags + [f, '-o', o]); return o
        return s.once(('one', f, tuple(flags), tuple(native) if native else 0), go)
    def sym(s, job):
        flags = job.cfg + job.defs
        parts = [s.one(os.path.join(H, job.src), flags + job.extra_flags, None), s.one(os.path.join(H, 'libc.c'), [], None)]
        for f in job.extra: parts.append(s.one(os.path.join(REPO, f) if not f.startswith('/') else f, flags + job.extra_flags, None))
        if job.lib: parts += s.lib(tuple(job.cfg), None)
        base = os.path.join(tempfile.mkdtemp(prefix='s', dir=s.tmp), 'm')
        must([tool('llvm-link')] + parts + ['-o', base + '0.bc']); must([tool('opt'), '-passes=mem2reg', base + '0.bc', '-o', base + '.bc']); os.unlink(base + '0.bc')
        return base + '.bc'
    def native(s, job, variant=('-ftrivial-auto-var-init=pattern',)):
        def go():
            flags = job.cfg + job.defs
            parts = [s.one(os.path.join(H, job.src), flags + job.extra_flags, variant), s.one(os.path.join(H, 'native.c'), [], variant)]
            for f in job.extra: parts.append(s.one(os.path.join(REPO, f) if not f.startswith('/') else f, flags + job.extra_flags, variant))
            if job.lib: parts += s.lib(tuple(job.cfg), variant)
            exe = os.path.join(tempfile.mkdtemp(prefix='n', dir=s.tmp), 'h')
            san = [f for f in natflags(variant) if f.startswith('-fsanitize')]
            must([CLANG] + san + parts + ['-Wl,' + ','.join('--wrap=' + f for f in ('malloc', 'calloc', 'realloc', 'strdup', 'strndup')), '-o', exe]); return exe
        return s.once(('nat', job.name, variant), go)

ASAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=96:detect_odr_violation=0:detect_stack_use_after_return=1:strict_string_checks=0:allocator_may_return_null=1:color=never', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=95'}
def run_native(exe, inputs, tmp):
    fd, inf = tempfile.mkstemp(dir=tmp); os.write(fd, ('\n'.join(str(v) for n, v in inputs if not n.startswith('undef:')) + '\n').encode()); os.close(fd)
    log = inf + '.log'; env = dict(os.environ, **ASAN, SYM_LOG=log)
    try: r = subprocess.run([exe, inf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=60, errors='replace')
    except subprocess.TimeoutExpired: return 98, 'HANG (timeout)', [], inf
    lv = []
    if os.path.exists(log): lv = [int(x) for x in open(log)]
    return r.returncode, r.stdout, lv, inf

def load_results(base):
    n = open(base).read().strip() if os.path.exists(base) else ''
    if n.startswith('{'): return [json.load(open(base))]
    if not n or int(n) == 0: return None
    return [json.load(open(base + '.%d' % i)) for i in range(int(n))]

def explore(job, bc, tmp, timeout, smt=None):
    out = os.path.join(tmp, 'res-' + re.sub(r'\W', '_', job.name))
    cmd = [ENGINE, '--entry', 'harness', '--out', out, '--timeout', str(int(timeout)), '--jobs', str(job.jobs), '--maxsteps', str(job.maxsteps), bc]
    if smt: cmd += ['--dump-smt', smt, '--dump-max', '40']
    t = time.time(); p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True)
    try: o, _ = p.communicate(timeout=timeout + 120)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9); p.wait(); return {'incomplete': ['engine timeout'], 'violations': [], 'samples': [], 'reach': [], 'functions': [], 'wall': time.time() - t}
    rs = load_results(out)
    if rs is None: return {'incomplete': ['engine failed: rc=%s %s' % (p.returncode, o[-400:])], 'violations': [], 'samples': [], 'reach': [], 'functions': [], 'wall': time.time() - t}
    m = {'wall': time.time() - t, 'incomplete': [], 'violations': [], 'samples': [], 'reach': [], 'stderr': o[-400:]}
    fn = {}
    for r in rs:
        for k in ('paths', 'forks', 'insts', 'checks', 'memchecks', 'queries', 'z3calls', 'sat', 'unsat', 'unknown', 'cached', 'solver_s'): m[k] = m.get(k, 0) + r[k]
        m['maxsteps'] = max(m.get('maxsteps', 0), r['maxsteps'])
        for k in ('incomplete', 'violations', 'samples', 'reach'): m[k] += r[k]
        for n, f, c, t_, bbs in r['functions']:
            e = fn.setdefault(n, [f, set(), t_]); e[1] |= set(bbs)
    m['functions'] = [(n, e[0], len(e[1]), e[2]) for n, e in sorted(fn.items())]
    m['incomplete'] = sorted(set(m['incomplete'])); m['reach'] = sorted(set(m['reach']))
    return m

def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt'); out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                d = dict(re.findall(r'(\w+)="([^"]*)"', l)); d['line'] = l; out.append(d)
    return out

def main():
    pid = sys.argv[1]; only = None; keep = '--keep' in sys.argv
    if '--only' in sys.argv: only = sys.argv[sys.argv.index('--only') + 1]
    cores = int(sys.argv[sys.argv.index('--cores') + 1]) if '--cores' in sys.argv else min(8, os.cpu_count() or 8)
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    spec = specs.SPECS[pid]; t0 = time.time()
    budget = float(os.environ.get('VERIF_BUDGET', 780 if tier == 'quick' else 6 * 3600))
    jobs = [j for j in spec.jobs if (j.tier in ('both', tier)) and (only is None or re.search(only, j.name))]
    if not os.path.exists(ENGINE) or os.path.getmtime(ENGINE) < max(os.path.getmtime(f) for f in glob.glob(VERIF + '/engine/*')):
        r = sh(['bash', os.path.join(VERIF, 'setup.sh')])
        if r.returncode: print('cannot build the engine:\n' + r.stdout); return 3
    tmp = tempfile.mkdtemp(prefix='ushchk-%s-' % pid); B = Builder(tmp)
    sem_lock = threading.Condition(); free = [cores]; stop = threading.Event()
    results = {}; confirmed = []; unconfirmed = []; known_hit = []; errors = []; kf = [k for k in known_findings() if k.get('property') == pid]
    evdir = os.path.join(VERIF, 'evidence'); os.makedirs(evdir, exist_ok=True)
    smt = None
    if '--smt' in sys.argv or os.environ.get('VERIF_SMT'): smt = os.path.join(tmp, 'smt'); os.makedirs(smt, exist_ok=True)
    for d in ([] if '--replay' in sys.argv else glob.glob(os.path.join(evdir, 'replay', pid + '-*'))): shutil.rmtree(d, ignore_errors=True)

    def save_replay(job, v, i, rc, out):
        d = os.path.join(evdir, 'replay', '%s-%s-%d' % (pid, re.sub(r'\W', '_', job.name), i)); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        open(d + '/inputs.txt', 'w').write('\n'.join(str(x) for n, x in v['inputs'] if not n.startswith('undef:')) + '\n')
        json.dump({'property': pid, 'job': job.name, 'harness': job.src, 'defs': job.defs, 'cfg': job.cfg, 'extra': job.extra, 'violation': {k: v[k] for k in ('kind', 'msg', 'where', 'stack')}, 'inputs': v['inputs'], 'native_exit': rc, 'native_output': out[-4000:]}, open(d + '/violation.json', 'w'), indent=1)
        open(d + '/replay.sh', 'w').write('#!/bin/sh\n# rebuilds the harness natively against the current repository sources and replays the counterexample\nexec python3 %s/checks/run.py %s --replay %s\n' % (VERIF, pid, d))
        os.chmod(d + '/replay.sh', 0o755); return d

    def confirm(job, v):
        variants = [('-ftrivial-auto-var-init=pattern',)]
        if any(n.startswith('undef:') for n, _ in v['inputs']): variants += [('-ftrivial-auto-var-init=zero',), ('msan',)]   # garbage of another value: MemorySanitizer confirms the dependence
        if 'stack' in v['msg']: variants += [('plain',)]   # real stack use, without the sanitizers' frames
        last = (0, '')
        for var in variants:
            exe = B.native(job, var)
            for fill in ('', '1'):
                env_fill = {'ASAN_OPTIONS': ASAN['ASAN_OPTIONS'] + (':max_malloc_fill_size=1000000:malloc_fill_byte=0' if fill else ':max_malloc_fill_size=1000000:malloc_fill_byte=165')}
                sv = dict(ASAN); ASAN.update(env_fill)
                try: rc, out, lv, inf = run_native(exe, v['inputs'], tmp)
                finally: ASAN.clear(); ASAN.update(sv)
                last = (rc, out)
                if var[0] == 'msan' and 'use-of-uninitialized-value' not in out and rc not in (97, 98, 99): continue
                if rc not in (0, 77, 2): return True, rc, out
        return False, last[0], last[1]

    def do(job):
        job.jobs = min(job.jobs, cores)
        with sem_lock:
            while free[0] < job.jobs and not stop.is_set(): sem_lock.wait(1)
            if stop.is_set(): return
            free[0] -= job.jobs
        try:
            bc = B.sym(job)
            left = budget - (time.time() - t0)
            if left < 5: results[job.name] = {'incomplete': ['no time left'], 'violations': [], 'samples': [], 'reach': [], 'functions': [], 'wall': 0}; return
            r = explore(job, bc, tmp, min(left, job.timeout or left), smt); results[job.name] = r
            os.unlink(bc)
            for i, v in enumerate(r['violations']):
                k = [x for x in kf if (not x.get('job') or re.fullmatch(x['job'], job.name)) and x.get('where', '') in v['where'] and x.get('msg', '') in v['msg']]
                if k: known_hit.append((job, v, k[0])); continue
                ok, rc, out = confirm(job, v)
                if ok: confirmed.append((job, v, save_replay(job, v, i, rc, out))); stop.set() if not only else None
                else: unconfirmed.append((job, v, rc, out))
            missing = [l for l in job.reach if l not in r['reach']]
            if missing and not r['violations'] and not r['incomplete']: r['incomplete'] = r['incomplete'] + ['vacuous: never reached ' + ', '.join(missing)]
            if not r['violations'] and r['samples'] and not stop.is_set():
                exe = B.native(job); r['traces'] = 0; r['trace_bad'] = []
                for s in r['samples'][:job.nsamples]:
                    rc, out, lv, inf = run_native(exe, s['inputs'], tmp)
                    und = any(n.startswith('undef:') for n, _ in s['inputs'])
                    if rc == 0 and (lv == s['log']): r['traces'] += 1
                    elif und and rc == 0: pass
                    else: r['trace_bad'].append({'inputs': s['inputs'], 'rc': rc, 'native_log': lv[:400], 'sym_log': s['log'][:400], 'out': out[-1500:]})
        except BuildError as e: errors.append('build: ' + str(e)); stop.set()
        except Exception as e:
            import traceback; errors.append(traceback.format_exc())
        finally:
            with sem_lock: free[0] += job.jobs; sem_lock.notify_all()

    if '--replay' in sys.argv:
        d = sys.argv[sys.argv.index('--replay') + 1]; info = json.load(open(d + '/violation.json'))
        job = [j for j in spec.jobs if j.name == info['job']][0]; ok, rc, out = confirm(job, {'inputs': info['inputs']}); print(out); print('exit status', rc, 'reproduced' if ok else 'NOT reproduced'); shutil.rmtree(tmp); return 1 if ok else 0
    th = [threading.Thread(target=do, args=(j,)) for j in jobs]
    for t in th: t.start()
    for t in th: t.join()
    rc = 0; msgs = []
    bad_traces = [(n, b) for n, r in results.items() for b in r.get('trace_bad', [])]
    incomplete = [(n, i) for n, r in results.items() for i in r['incomplete']]
    # evidence
    agg = {k: sum(r.get(k, 0) for r in results.values()) for k in ('paths', 'forks', 'insts', 'checks', 'memchecks', 'queries', 'z3calls', 'sat', 'unsat', 'unknown', 'cached')}
    fns = {}
    for r in results.values():
        for n, f, c, tot in r['functions']:
            if '/harness/' in f or f.startswith('libc') or not f or n in ('harness',) or f.startswith(H): continue
            o = fns.setdefault(n, [0, tot]); o[0] = max(o[0], c)
    samples = []
    for n, r in results.items():
        for s in r['samples'][:2]: samples.append({'job': n, 'inputs': [[a, b] for a, b in s['inputs']][:80], 'observations': s['log'][:80]})
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.level, 'wall_s': round(time.time() - t0, 2), 'violations': len(confirmed),
          'coverage': {'states': agg['paths'] + agg['forks'], 'transitions': agg['insts'], 'traces_validated_against_impl': sum(r.get('traces', 0) for r in results.values()), 'samples': samples[:24],
                       'explanation': 'symbolic paths explored to completion; states = completed paths + symbolic forks, transitions = IR instructions executed symbolically; every branch and assertion decided by Z3 for all values on the path',
                       'exhaustive': not incomplete and not confirmed and not unconfirmed, 'paths': agg['paths'], 'forks': agg['forks'], 'assertions_discharged': agg['checks'], 'memory_accesses_checked': agg['memchecks'], 'solver_queries': agg['queries'], 'solver_calls_z3': agg['z3calls'], 'queries_answered_from_cache': agg['cached'], 'sat': agg['sat'], 'unsat': agg['unsat'], 'unknown': agg['unknown'], 'solver_time_s': round(sum(r.get('solver_s', 0) for r in results.values()), 3),
                       'functions_encoded': {n: '%d/%d blocks' % (c, t) for n, (c, t) in sorted(fns.items())}, 'jobs': {n: {'paths': r.get('paths', 0), 'z3_calls': r.get('z3calls', 0), 'wall_s': round(r['wall'], 2), 'max_steps_per_path': r.get('maxsteps', 0), 'reached': r['reach'], 'incomplete': r['incomplete'], 'traces_validated': r.get('traces', 0)} for n, r in sorted(results.items())},
                       'bounds': {j.name: j.bounds for j in jobs}},
          'assumptions': specs.COMMON_ASSUMPTIONS + spec.assumptions}
    if smt:
        res = {}; files = sorted(glob.glob(smt + '/*.smt2'))
        for nm, cmd in (('cvc5', ['cvc5', '--lang', 'smt2']), ('z3-new', ['z3-new'])):
            if not shutil.which(cmd[0]): continue
            agree = 0; dis = []
            def one(f):
                e = open(f).readline().split()[-1]; r = sh(cmd + [f]).stdout.strip().split('\n')[-1]; return f, e, r
            with cf.ThreadPoolExecutor(8) as ex:
                for f, e, r in ex.map(one, files):
                    if e == r: agree += 1
                    else: dis.append([os.path.basename(f), e, r])
            res[nm] = {'queries': len(files), 'agree': agree, 'disagree': dis[:5]}
        ev['coverage']['cross_solver'] = res
        if any(r['disagree'] for r in res.values()): errors.append('solver disagreement: %s' % res)
    if not only: json.dump(ev, open(os.path.join(evdir, pid + '.json'), 'w'), indent=1)
    for n in sorted(results):
        r = results[n]; print('%-34s paths=%-8d z3=%-7d cached=%-9d solver=%.1fs wall=%.1fs traces=%d reach=%d%s' % (n, r.get('paths', 0), r.get('z3calls', 0), r.get('cached', 0), r.get('solver_s', 0), r['wall'], r.get('traces', 0), len(r['reach']), ' INCOMPLETE %s' % r['incomplete'] if r['incomplete'] else ''))
    seenk = set()
    for job, v, k in known_hit:
        if k['line'] in seenk: continue
        seenk.add(k['line']); print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', v['msg'])))
    for job, v, d in confirmed:
        print('%s: %s at %s\n   stack: %s\n   inputs: %s' % (job.name, v['msg'], v['where'], v['stack'], [x for _, x in v['inputs']]))
        print('VIOLATION property=%s replay=%s' % (pid, d)); rc = 1
    if rc == 0:
        if errors: print('ERROR: ' + '\n'.join(errors)[:4000]); rc = 3
        elif unconfirmed:
            for job, v, nrc, out in unconfirmed[:5]: print('UNCONFIRMED counterexample (not reproduced natively, exit %s) %s: %s at %s\n  %s\n  inputs %s\n%s' % (nrc, job.name, v['msg'], v['where'], v['stack'], v['inputs'], out[-600:]))
            rc = 2
        elif bad_traces:
            print('TRACE MISMATCH (encoding disagrees with the native run): %s' % json.dumps(bad_traces[:2])[:3000]); rc = 2
        elif incomplete: print('INCOMPLETE: %s' % incomplete[:10]); rc = 2
        else: print('OK property=%s: all %d paths explored, %d assertions and %d memory accesses hold' % (pid, agg['paths'], agg['checks'], agg['memchecks']))
    elif errors: print('note: ' + errors[0][:500])
    if not keep: shutil.rmtree(tmp, ignore_errors=True)
    else: print('kept', tmp)
    return rc
if __name__ == '__main__': sys.exit(main())
