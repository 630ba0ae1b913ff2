"""Orchestration shared by all checks: build from /repo, run drivers, run TLC, evidence.

Verdicts are TLC's: Python only moves files around.
"""
import concurrent.futures as cf, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARN = os.path.join(ROOT, 'harness')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(ROOT, 'build'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CXX = 'g++'
NCPU = os.cpu_count() or 4
SCALE = float(os.environ.get('VERIF_SCALE', '1') or 1)      # only for mutation analysis (tools/mutate.py)


class CheckError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


def rd(p):
    with open(p, 'rb') as f:
        return f.read()


def sh(cmd, timeout=900):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode('utf8', 'replace')


# ----------------------------------------------------------------- build
BASE_FLAGS = ['-std=c++17', '-O0', '-ftrivial-auto-var-init=pattern', '-w', '-fPIC', '-DMDFLIB_VERIF=1']


def header_hash():
    hs = sorted(glob.glob(REPO + '/include/**/*.h', recursive=True) + glob.glob(REPO + '/mdflib/src/*.h')
                + glob.glob(REPO + '/mdflib/src/*.hpp'))
    return sha(*[x for h in hs for x in (os.path.relpath(h, REPO), rd(h))])


PCH = ''.join('#include <%s>\n' % h for h in
              'algorithm any array atomic chrono condition_variable cstring ctime deque filesystem fstream functional '
              'iomanip iostream limits locale map memory mutex optional set sstream string thread type_traits '
              'unordered_map utility vector'.split())


def compile_one(src, flags, key, objdir, pchdir):
    obj = os.path.join(objdir, key + '.o')
    if os.path.exists(obj):
        return obj
    tmp = obj + '.%d.tmp' % os.getpid()
    rc, out = sh([CXX] + flags + (['-include', os.path.join(pchdir, 'pch.h')] if pchdir else []) + ['-c', src, '-o', tmp])
    if rc != 0:
        raise CheckError('compile failed: %s\n%s' % (src, out[-3000:]))
    os.replace(tmp, obj)
    return obj


def build(drivers, extra_src=(), extra_flags=(), progs=(), link=None):
    """Build the library objects from REPO's working tree and the named drivers; returns {driver: exe}."""
    os.makedirs(BUILD + '/obj', exist_ok=True)
    lock = open(BUILD + '/.lock', 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        t0 = time.time()
        flags = BASE_FLAGS + list(extra_flags) + ['-I' + REPO + '/include', '-I' + REPO + '/mdflib/include', '-I' + REPO + '/mdflib/src', '-I' + HARN]
        fkey = sha(*flags)
        pchdir = BUILD + '/pch_' + sha(fkey, PCH)
        if not os.path.exists(pchdir + '/pch.h.gch'):
            os.makedirs(pchdir, exist_ok=True)
            open(pchdir + '/pch.h', 'w').write(PCH)
            rc, out = sh([CXX] + flags + ['-x', 'c++-header', pchdir + '/pch.h', '-o', pchdir + '/pch.h.gch'])
            if rc != 0:
                raise CheckError('pch: ' + out[-2000:])
        hh = header_hash()
        vh = sha(*[rd(h) for h in sorted(glob.glob(HARN + '/*.h'))])
        libsrc = sorted(glob.glob(REPO + '/mdflib/src/*.cpp'), key=lambda p: -os.path.getsize(p))
        jobs = [(s, sha(fkey, hh, os.path.basename(s), rd(s))) for s in libsrc]
        hsrc = [HARN + '/common.cpp', HARN + '/vclock.cpp'] + [HARN + '/%s.cpp' % d for d in drivers] + list(extra_src)
        hjobs = [(s, sha(fkey, hh, vh, os.path.basename(s), rd(s))) for s in hsrc]
        psrc = {p: sorted(glob.glob(REPO + '/%s/src/*.cpp' % p)) for p in progs}
        pflags = ['-std=c++20'] + [x for x in flags if not x.startswith('-std')]
        pjobs = []
        for p in progs:
            ph = sha(*[x for h in sorted(glob.glob(REPO + '/%s/src/*.h' % p)) for x in (os.path.basename(h), rd(h))])
            pjobs += [(s, sha(fkey, hh, ph, p, os.path.basename(s), rd(s))) for s in psrc[p]]
        with cf.ThreadPoolExecutor(NCPU) as ex:
            pfuts = {s: ex.submit(compile_one, s, pflags, k, BUILD + '/obj', None) for s, k in pjobs}
            futs = {s: ex.submit(compile_one, s, flags, k, BUILD + '/obj', pchdir) for s, k in hjobs + jobs}
            objs = {s: f.result() for s, f in futs.items()}
            pobjs = {s: f.result() for s, f in pfuts.items()}
        exes = {}
        libo = [objs[s] for s, _ in jobs]
        lkey = sha(*sorted(libo))
        lib = BUILD + '/libmdf_%s.a' % lkey
        if not os.path.exists(lib):
            for old in glob.glob(BUILD + '/libmdf_*.a'):
                if time.time() - os.path.getmtime(old) > 3600:
                    os.remove(old)
            tmp = lib + '.tmp%d' % os.getpid()
            rc, out = sh(['ar', 'rcs', tmp] + libo)
            if rc != 0:
                raise CheckError('ar: ' + out)
            os.replace(tmp, lib)
        for d in list(drivers) + list(progs):
            xs = [pobjs[s] for s in psrc[d]] if d in psrc else [objs[s] for s in hsrc[:2] + [HARN + '/%s.cpp' % d] + list(extra_src)]
            exe = BUILD + '/%s_%s' % (d, sha(lkey, *xs))
            if not os.path.exists(exe):
                for old in glob.glob(BUILD + '/%s_????????????????????????????????' % d):
                    if time.time() - os.path.getmtime(old) > 3600:
                        os.remove(old)
                rc, out = sh([CXX] + list(extra_flags if link is None else link) + xs + [lib, '-o', exe + '.tmp', '-lz', '-lexpat', '-lpthread', '-ldl'] + (['-lboost_program_options'] if d in psrc else []))
                if rc != 0:
                    raise CheckError('link %s: %s' % (d, out[-3000:]))
                os.replace(exe + '.tmp', exe)
            exes[d] = exe
        log('build %.1fs' % (time.time() - t0))
        return exes
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def log(*a):
    print('[%s]' % time.strftime('%H:%M:%S'), *a, file=sys.stderr, flush=True)


# ----------------------------------------------------------------- drivers
def run_driver(exe, scenarios, work, nproc=NCPU, timeout=600, env=None, onfile=None):
    """Run scenarios (list of dicts with unique integer 'id'); returns {id: trace record}.

    A crash or hang of the code under test shows up as a CRASH event, which no specification accepts."""
    os.makedirs(work, exist_ok=True)
    nproc = max(1, min(nproc, len(scenarios)))
    chunks = [scenarios[i::nproc] for i in range(nproc)]
    e = dict(os.environ)
    e['TZ'] = 'UTC'
    e['MALLOC_PERTURB_'] = '165'     # no help from memory that happens to be zero
    if env:
        e.update(env)

    def one(ci):
        todo = chunks[ci]
        res = {}
        rnd = 0
        while todo:
            sd = os.path.join(work, 'd%d_%d' % (ci, rnd))
            os.makedirs(sd, exist_ok=True)
            inp, out = sd + '/in.ndjson', sd + '/out.ndjson'
            with open(inp, 'w') as f:
                for s in todo:
                    f.write(json.dumps(s, separators=(',', ':')) + '\n')
            try:
                p = subprocess.run([exe, inp, out, sd], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=e)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = -999
            if os.path.exists(out):
                for ln in open(out, errors='replace'):
                    try:
                        r = json.loads(ln)
                    except ValueError:
                        continue
                    res[r['id']] = r
            if onfile:
                for s in todo:
                    for p in glob.glob('%s/?%d.m*' % (sd, s['id'])):
                        onfile(s['id'], p)
            left = [s for s in todo if s['id'] not in res]
            if left and rc == 2:
                raise CheckError('driver usage error')
            if left and (rc not in (42,)):
                # died without a record: blame the first unanswered scenario
                res[left[0]['id']] = {'id': left[0]['id'], 'ev': [{'op': 'CRASH', 'sig': rc}]}
                left = left[1:]
            if left and sum(1 for r in res.values() if r['ev'] and r['ev'][-1].get('op') == 'CRASH') >= 3:
                # enough rejected executions; the rest is not run (a hang costs its whole time limit)
                for s in left:
                    res[s['id']] = {'id': s['id'], 'ev': [], 'skipped': True}
                left = []
            shutil.rmtree(sd, ignore_errors=True)
            todo = left
            rnd += 1
            if rnd > 200:
                for s in todo:
                    res[s['id']] = {'id': s['id'], 'ev': [{'op': 'CRASH', 'sig': -1}]}
                break
        return res
    out = {}
    with cf.ThreadPoolExecutor(nproc) as ex:
        for r in ex.map(one, range(nproc)):
            out.update(r)
    return out


# ----------------------------------------------------------------- TLC
class TlcResult:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', out)
        self.generated = int(m[-1][0].replace(',', '')) if m else 0
        self.distinct = int(m[-1][1].replace(',', '')) if m else 0
        if not m:
            m = re.findall(r'The number of states generated: ([\d,]+)', out)
            if m:
                self.generated = int(m[-1].replace(',', ''))
        self.ok = rc == 0 and ('No error has been found' in out or 'Finished in' in out or 'The number of states generated' in out)
        self.deadlock = 'Deadlock reached' in out
        m = re.search(r'Invariant (\S+) is violated', out)
        self.invariant = m.group(1) if m else None
        self.violated = rc in (10, 11, 12, 13)   # assumption, deadlock, safety, liveness

    def state_field(self, name):
        m = re.findall(r'/\\ %s = (.*)' % name, self.out)
        return m[-1].strip() if m else None


def tlc(module, cfg, work, env=None, workers=NCPU, args=(), timeout=800, heap='6g', extra_files=()):
    """Run TLC in a scratch copy of spec/.  cfg is the text of the configuration."""
    d = tempfile.mkdtemp(prefix='tlc_', dir=work)
    for f in glob.glob(SPEC + '/*.tla'):
        shutil.copy(f, d)
    for f in extra_files:
        shutil.copy(f, d)
    with open(d + '/M.cfg', 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', d + '/meta', '-noGenerateSpecTE', '-config', 'M.cfg'] + list(args) + [module + '.tla']
    try:
        p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e)
        r = TlcResult(p.returncode, p.stdout.decode('utf8', 'replace'))
    except subprocess.TimeoutExpired as x:
        r = TlcResult(-1, (x.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT')
    r.dir = d
    return r


def write_nd(path, recs):
    with open(path, 'w') as f:
        for r in recs:
            f.write(json.dumps(r, separators=(',', ':')) + '\n')


# ----------------------------------------------------------------- check frame
class Check:
    """Collects coverage and the verdict of one property's check."""

    def __init__(self, pid, tier, level):
        self.pid, self.tier, self.level = pid, tier, level
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random('%s/%d' % (pid, self.seed))
        self.t0 = time.time()
        self.work = tempfile.mkdtemp(prefix='mdfv_%s_' % pid)
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violation = None
        old = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % pid)
        if os.path.exists(old):
            os.remove(old)
        self.known = []
        self.known_hits = []

    def thorough(self):
        return self.tier == 'thorough'

    def n(self, quick, thorough):
        v = thorough if self.thorough() else quick
        return int(v * SCALE) if v >= 100 else v

    def model(self, module, cfg, what, expect_states=1, **kw):
        """Exhaustive/simulated check of the specification itself; a failure is an error of the model, not of the code."""
        if SCALE < 1:
            return None
        r = tlc(module, cfg, self.work, **kw)
        if not r.ok:
            raise CheckError('specification check %s failed (rc=%s)\n%s' % (what, r.rc, r.out[-6000:]))
        self.cov['states'] += r.distinct or r.generated
        self.cov['transitions'] += r.generated
        self.cov.setdefault('model_runs', []).append({'what': what, 'distinct_states': r.distinct, 'states_generated': r.generated})
        if (r.distinct or r.generated) < expect_states:
            raise CheckError('specification check %s explored too little: %d' % (what, r.distinct))
        log('%s: %d distinct states' % (what, r.distinct))
        shutil.rmtree(r.dir, ignore_errors=True)
        return r

    def validate(self, module, cfg, traces, what, env=None, shards=None, timeout=700, rerun=None, heap='3g', tla_files=()):
        """Trace validation: every record of traces must be a behaviour of the spec.  Deadlock/invariant = rejection.
        rerun(ids) -> fresh traces for those ids (to confirm a rejection)."""
        traces = [t for t in traces if not t.get('skipped')]
        if not traces:
            raise CheckError('no traces for ' + what)
        shards = shards or min(NCPU, max(1, len(traces) // 20))
        parts = [traces[i::shards] for i in range(shards)]

        def one(i, recs, tag=''):
            f = os.path.join(self.work, 'tr_%s_%s%d.ndjson' % (re.sub(r'\W', '_', what), tag, i))
            write_nd(f, recs)
            e = dict(env or {})
            e['TRACE'] = f
            r = tlc(module, cfg, self.work, env=e, workers=1 if shards > 1 else NCPU, timeout=timeout, heap=heap)
            os.remove(f)
            return r
        t0 = time.time()
        with cf.ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda p: one(*p), enumerate(parts)))
        for i, r in enumerate(rs):
            self.cov['states'] += r.distinct
            self.cov['transitions'] += r.generated
            if r.ok:
                self.cov['traces_validated_against_impl'] += len(parts[i])
                shutil.rmtree(r.dir, ignore_errors=True)
                continue
            # a step the specification cannot even evaluate (a field or index that does not exist) is a rejection too
            stuck = 'Error: The behavior up to this point is' in r.out and r.state_field('sid') and \
                re.search(r'Attempted to|nonexistent|out of domain|outside|verflow', r.out)
            if not (r.deadlock or r.violated or stuck):
                raise CheckError('TLC failed on %s (rc=%s)\n%s\n...\n%s' % (what, r.rc, ''.join(re.findall(r'(?s)Error: .{0,600}', r.out)[:2]), r.out[-3000:]))
            sid = r.state_field('sid')
            bad = [t for t in parts[i] if str(t['id']) == str(sid)]
            if not bad:
                raise CheckError('cannot identify rejected trace (%s)\n%s' % (sid, r.out[-4000:]))
            bad = bad[0]
            # confirm on a fresh execution
            if rerun is not None:
                fresh = rerun([bad['id']])
                r2 = one(i, fresh, 'again')
                if r2.ok:
                    raise CheckError('rejection of trace %s not reproduced' % sid)
                r = r2
                bad = fresh[0]
            self.report(what, bad, r.out)
            break
        log('%s: %d traces validated in %.1fs' % (what, self.cov['traces_validated_against_impl'], time.time() - t0))

    def report(self, what, trace, out):
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        p = os.path.join(ROOT, 'evidence', 'replay', '%s.json' % self.pid)
        with open(p, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'scenario': getattr(self, 'scn', {}).get(trace.get('id')), 'trace': trace, 'rejected_event': (re.findall(r'/\\ pc = (\d+)', out) or ['?'])[-1], 'tlc_tail': out[-6000:]}, f, indent=1)
        self.violation = p

    def sample(self, x):
        if len(self.cov['samples']) < 3:
            self.cov['samples'].append(x)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': self.cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': 1 if self.violation else 0}
        with open(os.path.join(ROOT, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k in self.known_hits:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        if self.violation:
            print('VIOLATION property=%s replay=%s' % (self.pid, self.violation))
            return 1
        print('OK property=%s traces=%d states=%d wall=%.1fs' % (self.pid, self.cov['traces_validated_against_impl'], self.cov['states'], time.time() - self.t0))
        return 0
