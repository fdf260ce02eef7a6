#!/usr/bin/env python3
"""Builds and runs the monitors of one property against /repo's working tree.

usage: run_check.py <ID> [--tier quick|thorough] [--seed N] [--only SCENARIO] [--keep]
       run_check.py --replay FILE
exit 0: held on everything observed; exit 1 + VIOLATION line: broken;
exit 3: the check itself could not reach a verdict (build failure, nothing observed).
"""
import sys, os, json, time, subprocess, hashlib, shutil, argparse, re, tempfile, threading
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 8)))
COMPILERS = ['clang++', 'g++']   # the first that compiles a source is used for it; objects are compatible
BASE = ['-std=gnu++14', '-w', '-I', os.path.join(HERE, 'harness'), '-I', os.path.join(REPO, 'include'),
        '-I/usr/include/hdf5/serial', '-DWITH_BOOST', '-DWITH_HDF5']
VARIANTS = {
    'asan': ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr,nonnull-attribute', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-DOPENGM_DEBUG'],
    'asanrel': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr,nonnull-attribute', '-D_GLIBCXX_SANITIZE_VECTOR', '-DNDEBUG'],
    'leak': ['-O0', '-g1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize-recover=all',
             '-fno-sanitize=vptr,nonnull-attribute', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_SANITIZE_VECTOR', '-DNDEBUG', '-DVF_NO_REFUSALS'],
    'valgrind': ['-O0', '-g1', '-DNDEBUG', '-DVF_NO_REFUSALS'],
    'tsan': ['-O1', '-g1', '-fno-omit-frame-pointer', '-fsanitize=thread', '-DOPENGM_DEBUG'],
    'plain': ['-O1', '-g1', '-DNDEBUG'],
}
LINK = {'leak': ['-fsanitize=address,undefined'], 'valgrind': [], 'asan': ['-fsanitize=address,undefined'], 'asanrel': ['-fsanitize=address,undefined'], 'tsan': ['-fsanitize=thread'], 'plain': []}
VALGRIND = ['valgrind', '-q', '--error-exitcode=86', '--exit-on-first-error=yes', '--leak-check=no', '--undef-value-errors=yes']
SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=0:exitcode=86:detect_leaks=0:detect_stack_use_after_return=1:allocator_may_return_null=0:max_allocation_size_mb=4096',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=86',
    'TSAN_OPTIONS': 'halt_on_error=1:exitcode=86:second_deadlock_stack=1',
    'OMP_NUM_THREADS': '2',
}
COMPILING = threading.Semaphore(JOBS)
def log(*a):
    print(*a, file=sys.stderr, flush=True)

class CheckError(Exception):
    pass

def config(cid):
    p = os.path.join(HERE, 'checks', cid, 'config.json')
    c = json.load(open(p)) if os.path.exists(p) else {}
    return c

def sources(cid, cfg):
    d = os.path.join(HERE, 'checks', cid)
    src = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.cpp')]
    return src

def build(cid, cfg, variant, bdir, srcs=None, opt=None):
    """compile all TUs of the check in parallel; object cache keyed by preprocessed content"""
    srcs = srcs or sources(cid, cfg)
    cache = os.path.join(HERE, '.cache')
    os.makedirs(cache, exist_ok=True)
    flags = BASE + VARIANTS[variant] + cfg.get('cxxflags', [])
    if opt: flags = [opt if f in ('-O0', '-O1') else f for f in flags]
    main = os.path.join(HERE, 'harness', 'main.cpp')
    comp = cfg.get('compilers', COMPILERS)
    def one(s):
        msgs = []
        for cxx in comp:
            fl = list(flags)
            r = subprocess.run([cxx, '-E'] + fl + [s], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            if r.returncode:
                msgs.append('%s: preprocessing %s failed:\n%s' % (cxx, s, r.stderr.decode(errors='replace')[-3000:])); continue
            h = hashlib.sha256(('\0'.join([cxx] + fl)).encode() + r.stdout).hexdigest()[:32]
            o = os.path.join(cache, h + '.o')
            if os.path.exists(o):
                os.utime(o); return o
            t = os.path.join(bdir, os.path.basename(s) + '.' + h + '.o')
            t0 = time.time()
            with COMPILING: r = subprocess.run([cxx] + fl + ['-c', s, '-o', t], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                msgs.append('%s: compiling %s failed:\n%s' % (cxx, s, r.stdout.decode(errors='replace')[:5000])); continue
            log('  compiled %s (%s, %s) in %.1fs' % (os.path.basename(s), variant, cxx, time.time() - t0))
            try: shutil.copy(t, o + '.%d' % os.getpid()); os.replace(o + '.%d' % os.getpid(), o)
            except OSError: return t
            return o
        raise CheckError('\n'.join(msgs))
    with ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(one, [main] + srcs))
    exe = os.path.join(bdir, cid + '.' + variant)
    r = subprocess.run([comp[0]] + LINK[variant] + objs + ['-o', exe] + cfg.get('ldflags', []) + ['-lpthread'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise CheckError('linking failed:\n' + r.stdout.decode(errors='replace')[:4000])
    # keep the object cache small
    fs = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
    while len(fs) > 700:
        try: os.unlink(fs.pop(0))
        except OSError: pass
    return exe

FRAME = re.compile(r'#\d+ 0x[0-9a-f]+ in (.+?) (/\S+?):(\d+)')
def crash_key(err, rc):
    """a stable description of a sanitizer report / crash: kind + outermost library file"""
    kind = 'crash'
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', err)
    if m: kind = 'asan:' + m.group(1)
    else:
        m = re.search(r'runtime error: (.+)', err)
        if m:
            t = re.sub(r'0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?', 'N', m.group(1))
            kind = 'ubsan:' + re.sub(r'[^\w]+', '-', t)[:60]
        else:
            if 'ERROR: LeakSanitizer' in err: kind = 'leak'
            m = re.search(r'WARNING: ThreadSanitizer: ([\w -]+?)(?: \(|$)', err, re.M)
            if m: kind = 'tsan:' + m.group(1).strip().replace(' ', '-')
            elif kind == 'leak': pass
            elif re.search(r'^==\d+== ', err, re.M): kind = 'valgrind:' + re.sub(r'[^\w]+', '-', re.search(r'^==\d+== (.*)', err, re.M).group(1))[:50]
            elif 'terminate called' in err: kind = 'terminate'
            elif 'Assertion' in err: kind = 'assertion'
            elif rc < 0: kind = 'signal%d' % -rc
            else: kind = 'exit%d' % rc
    where = ''
    for m in FRAME.finditer(err):
        if '/opengm/' in m.group(2):
            where = os.path.basename(m.group(2)); break
    return kind + ('@' + where if where else '')

def run_proc(cmd, timeout, env, cwd):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stderr.decode(errors='replace'), p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stderr or b'').decode(errors='replace'), ''

class Run:
    def __init__(self, cid, tier, seed, cfg, bdir):
        self.cid, self.tier, self.seed, self.cfg, self.bdir = cid, tier, seed, cfg, bdir
        self.viol = []; self.counters = {}; self.cases = self.evals = self.trivial = self.skipped = 0
        self.digests = set(); self.samples = []; self.scen = {}; self.lock = threading.Lock(); self.n = 0
        self.inconclusive = []
        self.env = dict(os.environ); self.env.update(SAN_ENV); self.env.update(cfg.get('env', {}))
        self.env.pop('VERIF_TIER', None)
        self.case_timeout = cfg.get('case_timeout', 60)
        self.crashes = {}

    def cmd(self, exe, scn, a, b, seed, out=None, st=None):
        scn = scn.split(':')[-1]   # a part of another check is called PART:scenario
        c = (VALGRIND if exe.endswith('.valgrind') else []) + [exe, '--scenario', scn, '--from', str(a), '--to', str(b), '--seed', str(seed), '--tier', self.tier]
        if out: c += ['--out', out]
        if st: c += ['--status', st]
        return c

    def shard(self, variant, exe, scn, a, b, sanonly=False):
        with self.lock:
            self.n += 1; n = self.n
        wd = os.path.join(self.bdir, 'w%d' % n); os.makedirs(wd)
        retried_hang = False
        while a < b:
            out = os.path.join(wd, 'out.json'); st = os.path.join(wd, 'status')
            if os.path.exists(out): os.unlink(out)
            rc, err, _ = run_proc(self.cmd(exe, scn, a, b, self.seed, out, st), self.shard_timeout, self.env, wd)
            if rc == 0 and os.path.exists(out):
                self.merge(json.load(open(out)), variant, sanonly); break
            try: cur = int(open(st).read().split()[0])
            except Exception: raise CheckError('%s: harness did not start (rc=%s): %s' % (scn, rc, err[-2000:]))
            # results of the cases before the failing one
            if cur > a:
                rc2, err2, _ = run_proc(self.cmd(exe, scn, a, cur, self.seed, out, st), self.shard_timeout, self.env, wd)
                if rc2 == 0 and os.path.exists(out): self.merge(json.load(open(out)), variant, sanonly)
                else: self.note_inconclusive('%s cases %d..%d could not be repeated (rc=%s)' % (scn, a, cur, rc2))
            if rc is None:   # hang: rerun that case alone before saying so
                if os.path.exists(out): os.unlink(out)
                rc3, err3, _ = run_proc(self.cmd(exe, scn, cur, cur + 1, self.seed, out, st), self.case_timeout, self.env, wd)
                if rc3 is None:
                    self.add_viol({'key': scn + '/hang', 'case': cur, 'msg': 'the case does not finish within %d s when run alone' % self.case_timeout}, variant)
                elif rc3 == 0:
                    self.merge(json.load(open(out)), variant, sanonly)
                else:
                    self.add_crash(scn, cur, rc3, err3, variant)
            else:
                self.add_crash(scn, cur, rc, err, variant)
            a = cur + 1
            with self.lock:
                k = self.crashes[scn] = self.crashes.get(scn, 0) + 1
            if k > 12:
                break
        shutil.rmtree(wd, ignore_errors=True)

    def note_inconclusive(self, m):
        with self.lock: self.inconclusive.append(m)

    def add_crash(self, scn, case, rc, err, variant):
        tail = err.strip()
        i = max(tail.find('==ERROR'), tail.find('runtime error'), tail.find('WARNING: ThreadSanitizer'))
        if i >= 0: tail = tail[max(0, i - 200):]
        self.add_viol({'key': '%s/%s' % (scn, crash_key(err, rc)), 'case': case, 'msg': tail[:2500]}, variant)

    def add_viol(self, v, variant):
        v = dict(v); v['variant'] = variant
        with self.lock: self.viol.append(v)

    def merge(self, r, variant, sanonly):
        if isinstance(sanonly, str): r = dict(r, scenario=sanonly + ':' + r['scenario'])
        with self.lock:
            self.cases += r['cases']; self.evals += r['evals']; self.trivial += r['trivial']; self.skipped += r['skipped']
            for k, v in r['counters'].items(): self.counters[k] = self.counters.get(k, 0) + v
            self.digests.update((r['scenario'], d) for d in r['digests'])
            s = self.scen.setdefault(r['scenario'], {'cases': 0, 'evaluations': 0})
            s['cases'] += r['cases']; s['evaluations'] += r['evals']
            if sum(1 for x in self.samples if x['scenario'] == r['scenario']) < 2:
                for x in r['samples'][:1]: self.samples.append({'scenario': r['scenario'], 'case': x})
            if not sanonly:
                for v in r['violations']:
                    v = dict(v); v['variant'] = variant; self.viol.append(v)

    def run(self, exes, only=None):
        work = []
        for ex in exes:
            variant, exe, scale = ex[:3]; part = ex[3] if len(ex) > 3 else None
            rc, err, out = run_proc([exe, '--list'], 60, self.env, self.bdir)
            if rc != 0: raise CheckError('cannot list scenarios: ' + err[-1500:])
            for line in out.split('\n'):
                if not line.strip(): continue
                name, q, t = line.split()
                if part: name = part + ':' + name
                if only and name not in only.split(','): continue
                n = int(q) if self.tier == 'quick' else int(t)
                if n == 0: continue
                n = max(1, int(n * scale))
                pieces = min(n, JOBS * 2 if n < 400 else JOBS * 3)
                if self.cfg.get('exclusive'): pieces = 1
                for k in range(pieces):
                    a, b = n * k // pieces, n * (k + 1) // pieces
                    if a < b: work.append((variant, exe, name, a, b) + ((part,) if part else (variant == 'valgrind',)))
        self.shard_timeout = self.cfg.get('shard_timeout', 300 if self.tier == 'quick' else 3000)
        errs = []
        def go(w):
            try: self.shard(*w)
            except CheckError as e: errs.append(str(e))
        with ThreadPoolExecutor(1 if self.cfg.get('exclusive') else JOBS) as ex: list(ex.map(go, work))
        if errs: raise CheckError(errs[0])

def known_findings():
    p = os.path.join(HERE, 'known_findings.jsonl')
    r = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and l.startswith('{'): r.append(json.loads(l))
    return r

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only'); ap.add_argument('--replay')
    a = ap.parse_args()
    if a.replay:
        rp = json.load(open(a.replay)); a.id, a.tier, a.seed = rp['property'], rp['tier'], rp['seed']
    cid = a.id; cfg = config(cid); t0 = time.time()
    os.makedirs(os.path.join(HERE, '.build'), exist_ok=True)
    bdir = tempfile.mkdtemp(prefix=cid + '.', dir=os.path.join(HERE, '.build'))
    try:
        if 'script' in cfg:   # checks whose monitor is a program of its own
            sys.path.insert(0, os.path.join(HERE, 'checks', cid)); sys.path.insert(0, HERE)
            mod = __import__(cfg['script'])
            run = Run(cid, a.tier, a.seed, cfg, bdir); run.module = sys.modules['__main__']
            mod.run(run, a)
        else:
            run = Run(cid, a.tier, a.seed, cfg, bdir)
            exes = []
            for v in cfg.get('variants', ['asan']):
                name, scale = (v, 1.0) if isinstance(v, str) else (v[0], v[1])
                exes.append((name, build(cid, cfg, name, bdir, opt=cfg.get('opt') or ('-O1' if a.tier == 'thorough' else None)), scale))
            # parts of other checks, run for what the sanitizers say only
            inc = cfg.get('include', {})
            def part(key):
                cid2, _, variant = key.partition('+'); variant = variant or cfg['include_variant']   # CID or CID+variant
                c2 = config(cid2); sub = dict(c2); sub['compilers'] = cfg.get('compilers', COMPILERS); o = inc[key]
                d2 = os.path.join(bdir, key); os.makedirs(d2)
                src = [f for f in sources(cid2, c2) if not o.get('files') or os.path.basename(f) in o['files']]
                return (variant, build(cid2, sub, variant, d2, srcs=src), o.get('scale', cfg.get('include_scale', 0.1)), key)
            with ThreadPoolExecutor(JOBS) as ex: exes += list(ex.map(part, sorted(inc)))
            tb = time.time() - t0
            log('%s: built in %.1fs' % (cid, tb))
            if a.replay:
                v = rp
                exe = [e[1] for e in exes if e[0] == v['variant'] and (':' not in v['scenario'] or e[3:] == (v['scenario'].split(':')[0],))][0]
                rc, err, out = run_proc(run.cmd(exe, v['scenario'], v['case'], v['case'] + 1, a.seed) + ['--verbose', '1'], 600, run.env, bdir)
                print(out); print(err); print('exit', rc); return 0 if rc == 0 and '"violations":[]' in out else 1
            run.run(exes, a.only)
    except CheckError as e:
        log('CHECK ERROR (%s): %s' % (cid, e)); return 3
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    return finish(run, cid, cfg, a, t0)

def finish(run, cid, cfg, a, t0):
    wall = time.time() - t0
    kf = [k for k in known_findings() if k['property'] == cid and k.get('status', 'known') == 'known']
    by = {}
    for v in run.viol: by.setdefault(v['key'], []).append(v)
    unknown, knownhit = {}, {}
    for k, vs in by.items():
        hit = [f for f in kf if f['key'] == k]
        if hit: knownhit.setdefault(k, hit[0])
        else: unknown[k] = vs
    evd = os.path.join(HERE, 'evidence'); os.makedirs(evd, exist_ok=True)
    distinct = len(run.digests)
    ev = {'property': cid, 'tier': a.tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': run.cases, 'distinct_nontrivial': distinct,
                       'rule': cfg.get('rule', 'each case is drawn from (seed, scenario, case number); it is non-trivial when at least one oracle comparison was made on it, distinct by a digest of the generated input'),
                       'samples': run.samples[:40] or ['none'], 'oracle_comparisons': run.evals, 'trivial_cases': run.trivial, 'skipped_out_of_domain': run.skipped,
                       'scenarios': run.scen, 'events': dict(sorted(run.counters.items())),
                       'inconclusive': run.inconclusive, 'repo': REPO},
          'assumptions': cfg.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': len(unknown)}
    json.dump(ev, open(os.path.join(evd, cid + '.json'), 'w'), indent=1)
    log('%s: %d cases, %d distinct, %d oracle comparisons, %.1fs, scenarios %d' % (cid, run.cases, distinct, run.evals, wall, len(run.scen)))
    for f in kf:
        print('KNOWN-FINDING: property=%s %s%s' % (cid, f['what'], '' if f['key'] in knownhit else ' (not reached in this run)'))
    if unknown:
        rd = os.path.join(evd, 'replays'); os.makedirs(rd, exist_ok=True)
        for i, (k, vs) in enumerate(sorted(unknown.items())):
            v = vs[0]
            rp = os.path.join(rd, '%s-%d.json' % (cid, i))
            json.dump({'property': cid, 'tier': a.tier, 'seed': a.seed, 'variant': v['variant'], 'scenario': v['key'].split('/')[0], 'case': v['case'], 'key': k, 'msg': v['msg'], 'occurrences': len(vs), 'how': 'python3 run_check.py --replay ' + os.path.relpath(rp, HERE)}, open(rp, 'w'), indent=1)
            if i < 12: log('--- %s (%d): %s' % (k, len(vs), v['msg'][:int(os.environ.get('VERIF_MSG', '400'))]))
            print('VIOLATION property=%s replay=%s' % (cid, os.path.relpath(rp, HERE)), flush=True)
        return 1
    need = cfg.get('min_cases', 1)
    if run.cases < need or distinct == 0 or run.evals == 0:
        log('CHECK ERROR (%s): nothing observed' % cid); return 3
    if run.inconclusive:
        log('CHECK ERROR (%s): inconclusive: %s' % (cid, run.inconclusive[:3])); return 3
    print('OK property=%s cases=%d distinct=%d comparisons=%d' % (cid, run.cases, distinct, run.evals))
    return 0

if __name__ == '__main__':
    sys.exit(main())
