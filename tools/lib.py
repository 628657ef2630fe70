"""Common machinery: build the code under test, play scripts on it, validate
the recorded traces with TLC, write evidence."""
import atexit, concurrent.futures, glob, hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'Source')
SPEC = os.path.join(VERIF, 'spec')
HARN = os.path.join(VERIF, 'harness')
BUILD = os.path.join(VERIF, 'build')
CLASSES = os.path.join(BUILD, 'classes')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
_t0 = time.time()

class MachineryError(Exception):
    """The check could not be carried out: says nothing about the property."""

_scratch = None
_lock = threading.RLock()
def scratch():
    global _scratch
    with _lock:
        if _scratch is None:
            _scratch = tempfile.mkdtemp(prefix='verif_')
            atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
        return _scratch
_n = 0
def scratch_dir(label='d'):
    global _n
    with _lock:
        _n += 1
        d = os.path.join(scratch(), '%s%d' % (label, _n))
    os.makedirs(d)
    return d

def log(*a):
    print('[%5.1f]' % (time.time() - _t0), *a, flush=True)

# --------------------------------------------------------------------------
# build
def _sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]
def _src_digest():
    h = hashlib.sha256()
    for f in sorted(glob.glob(SRC + '/*')) + sorted(glob.glob(HARN + '/**/*', recursive=True)):
        if os.path.isfile(f) and not f.endswith('.o'):
            h.update(f.encode()); h.update(open(f, 'rb').read())
    return h.hexdigest()

RADIAL = ['cheb', 'finite_diff']
FULL = ['cheb', 'finite_diff', 'sphere', 'grid', 'params', 'field', 'initial_data', 'scalar_eom', 'io']
KNOWN_UNITS = FULL + ['main', 'unit_manager']
PROD = ['-std=c++11', '-O2', '-fopenmp', '-DNDEBUG']
DEBUG = ['-std=c++11', '-O1', '-g', '-fopenmp', '-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS']

def run(cmd, timeout=300, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, **kw)

def compile_one(src, obj, flags):
    p = run(['g++'] + flags + ['-I' + SRC, '-I' + HARN, '-I' + HARN + '/shtns', '-c', src, '-o', obj])
    if p.returncode:
        raise MachineryError('does not compile: %s\n%s' % (src, p.stdout.decode(errors='replace')[-3000:]))

def build(driver, units, flags=PROD, defines=(), extra=(), libs=(), cxx_driver_flags=(), unit_flags=(), inst=(), link=None):
    """Compile units of /repo and the driver; cached by content of every source."""
    key = _sha(_src_digest(), driver, units, flags, defines, extra, libs, cxx_driver_flags, unit_flags, inst, link)
    cache = os.path.join(BUILD, 'cache')
    exe = os.path.join(cache, key, os.path.basename(driver).replace('.cpp', ''))
    with _lock:
        lk = _build_locks.setdefault(key, threading.Lock())
    with lk:
        if os.path.exists(exe): return exe
        os.makedirs(cache, exist_ok=True)
        olds = sorted((d for d in glob.glob(cache + '/*') if os.path.isdir(d)), key=os.path.getmtime)
        for d in olds[:-60]: shutil.rmtree(d, ignore_errors=True)
        tmp = tempfile.mkdtemp(dir=cache, prefix='tmp')
        fl = list(flags) + ['-D' + d for d in defines]
        more = []
        jobs = [(os.path.join(SRC, u + '.cpp'), os.path.join(tmp, u + '.o'), fl + list(unit_flags)) for u in units]
        hfl = [f for f in fl if not f.startswith('-std=')] + ['-std=c++17'] + list(cxx_driver_flags)
        for x in [driver] + list(extra):
            jobs.append((os.path.join(HARN, x), os.path.join(tmp, 'h_' + os.path.basename(x).replace('.cpp', '.o')), hfl + (list(unit_flags) if x in inst else [])))
        # source files the repository has gained: linked where something refers to them
        for u in sorted(os.path.basename(f)[:-4] for f in glob.glob(SRC + '/*.cpp')):
            if u not in KNOWN_UNITS: more.append((os.path.join(SRC, u + '.cpp'), os.path.join(tmp, 'x_' + u + '.o'), fl + list(unit_flags)))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda j: compile_one(*j), jobs + more))
        ar = []
        if more:
            ar = [os.path.join(tmp, 'more.a')]
            p = run(['ar', 'rcs'] + ar + [j[1] for j in more])
            if p.returncode: raise MachineryError('ar: ' + p.stdout.decode())
        e = os.path.join(tmp, os.path.basename(exe))
        p = run(['g++'] + (fl if link is None else list(link)) + ['-o', e] + [j[1] for j in jobs] + ar + ['-lfftw3', '-lm'] + list(libs))
        if p.returncode:
            raise MachineryError('does not link: %s\n%s' % (driver, p.stdout.decode(errors='replace')[-3000:]))
        for o in glob.glob(tmp + '/*.[oa]'): os.remove(o)
        os.rename(tmp, os.path.join(cache, key))
        return exe
_build_locks = {}

def full_driver(cheb, contig, flags=PROD, extra_libs=()):
    d = (['USE_CHEB'] if cheb else []) + (['SHTNS_CONTIGUOUS_LONGITUDES'] if contig else [])
    return build('full_drv.cpp', FULL, flags, d, ['shtns/shtns_standin.cpp'], list(extra_libs))
def program(cheb, contig, flags=PROD):
    """the program itself, with the stand-in for SHTns"""
    d = (['USE_CHEB'] if cheb else []) + (['SHTNS_CONTIGUOUS_LONGITUDES'] if contig else [])
    return build('shtns/shtns_standin.cpp', FULL + ['main'], flags, d)
WRAPS = ['malloc', 'calloc', 'realloc', 'free', 'posix_memalign', 'aligned_alloc', 'fftw_malloc', 'fftw_alloc_real', 'fftw_alloc_complex', 'fftw_free', 'fftw_plan_r2r_1d', 'fftw_destroy_plan',
         'fftw_execute_r2r', 'fftw_execute', 'memcpy', 'memmove', 'memset', 'pthread_mutex_lock', 'pthread_mutex_unlock', '__cxa_guard_acquire', '__cxa_guard_release']
def team_build(cheb, contig, main=False):
    """the driver (or the program) on the checking OpenMP runtime of harness/team"""
    d = (['USE_CHEB'] if cheb else []) + (['SHTNS_CONTIGUOUS_LONGITUDES'] if contig else [])
    st, rt = 'shtns/shtns_standin.cpp', 'team/team_rt.cpp'
    return build(rt if main else 'full_drv.cpp', FULL + (['main'] if main else []), ['-std=c++11', '-O2', '-fopenmp', '-DNDEBUG'], d, [st] if main else [st, rt], ['-ldl', '-pthread'],
                 unit_flags=['-fsanitize=thread', '-mmemcpy-strategy=libcall:-1:noalign', '-mmemset-strategy=libcall:-1:noalign'], inst=(st,), link=['-rdynamic', '-Wl,--wrap=' + ',--wrap='.join(WRAPS)])
LIFE = ['fftw_plan_r2r_1d', 'fftw_plan_r2r', 'fftw_plan_dft_r2c_1d', 'fftw_plan_dft_c2r_1d', 'fftw_plan_dft_1d', 'fftw_destroy_plan', 'fftw_execute', 'fftw_execute_r2r', 'fftw_execute_dft_r2c', 'fftw_execute_dft_c2r',
        'fftw_execute_dft', 'fftw_cleanup', 'fftw_cleanup_threads', 'fftw_malloc', 'fftw_alloc_real', 'fftw_alloc_complex', 'fftw_free', 'shtns_create', 'shtns_set_grid', 'shtns_destroy', 'shtns_reset',
        'spat_to_SH', 'SH_to_spat', 'spat_to_SH_l', 'SH_to_spat_l', 'spat_cplx_to_SH', 'SH_to_spat_cplx']
def life_build(cheb, contig, main=False):
    """the driver (or the program), sanitized, recording the life of plans, configurations and FFTW's memory"""
    d = (['USE_CHEB'] if cheb else []) + (['SHTNS_CONTIGUOUS_LONGITUDES'] if contig else [])
    st, rt = 'shtns/shtns_standin.cpp', 'life/life_rt.cpp'
    return build(rt if main else 'full_drv.cpp', FULL + (['main'] if main else []), DEBUG, d, [st] if main else [st, rt], link=DEBUG + ['-Wl,--wrap=' + ',--wrap='.join(LIFE)])
def radial_driver(flags=PROD):
    return build('radial_drv.cpp', RADIAL, flags)

# --------------------------------------------------------------------------
# numbers
def bits(x): return struct.unpack('>Q', struct.pack('>d', x))[0]
def hx(x): return 'x%016x' % bits(float(x))
def vec(v): return '%d %s' % (len(v), ' '.join(hx(x) for x in v))
def pair(x):
    b = bits(float(x)); hi, lo = b >> 32, b & 0xffffffff
    return [hi - (1 << 32) if hi >> 31 else hi, lo - (1 << 32) if lo >> 31 else lo]
def unpair(p): return struct.unpack('>d', struct.pack('>II', p[0] & 0xffffffff, p[1] & 0xffffffff))[0]

# --------------------------------------------------------------------------
# playing scripts
def play(exe, script, env=None, timeout=240, cwd=None):
    """Run a driver on a script; returns the list of traces (lists of events).
    A death of the driver is an event of its own, which no specification allows."""
    d = scratch_dir('play')
    sf, of = os.path.join(d, 'script'), os.path.join(d, 'events')
    open(sf, 'w').write(script)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=16777216:malloc_fill_byte=192', UBSAN_OPTIONS='halt_on_error=1:exitcode=99')
    e.setdefault('OMP_NUM_THREADS', '1'); e.setdefault('OMP_WAIT_POLICY', 'passive')
    e.setdefault('MALLOC_PERTURB_', '63')      # new and released memory is not zero
    if env: e.update({k: str(v) for k, v in env.items()})
    how = None
    try:
        with open(os.path.join(d, 'noise'), 'w') as nz:
            p = subprocess.run([exe, sf, of], stdin=subprocess.DEVNULL, stdout=nz, stderr=subprocess.STDOUT, env=e, timeout=timeout, cwd=cwd or d)
        if p.returncode == 3:
            raise MachineryError('driver refused its script: ' + open(os.path.join(d, 'noise')).read()[-500:])
        if p.returncode: how = 'died with status %d' % p.returncode
    except subprocess.TimeoutExpired:
        how = 'did not finish in %d s' % timeout
    noise = open(os.path.join(d, 'noise'), errors='replace').read()
    traces, ended = [], False
    if os.path.exists(of):
        for line in open(of, errors='replace'):
            if line.startswith('#trace'): traces.append([])
            elif line.startswith('#end'): ended = True
            elif line.endswith('}\n'): traces[-1].append(json.loads(line))
    if how is None and not ended: how = 'stopped early'
    if how:
        m = re.search(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error:[^\n]*|[^\n]*Assertion[^\n]*|terminate called[^\n]*(\n[^\n]*what[^\n]*)?)', noise)
        if not traces: traces.append([])
        traces[-1].append(dict(e='crash', how=how, said=(m.group(0)[:300] if m else noise[-200:])))
    shutil.rmtree(d, ignore_errors=True)
    return traces

# --------------------------------------------------------------------------
# TLC
def ensure_classes():
    with _lock:
        src = os.path.join(VERIF, 'tools', 'F64Overrides.java')
        stamp = os.path.join(CLASSES, 'stamp')
        want = _sha(open(src, 'rb').read())
        if os.path.exists(stamp) and open(stamp).read() == want: return
        tmp = tempfile.mkdtemp(prefix='verif_cls_')
        p = run(['javac', '-cp', JARS, '-d', tmp, src])
        if p.returncode: raise MachineryError('javac: ' + p.stdout.decode())
        open(os.path.join(tmp, 'stamp'), 'w').write(want)
        shutil.rmtree(CLASSES, ignore_errors=True)
        os.makedirs(BUILD, exist_ok=True)
        shutil.move(tmp, CLASSES)

class TLC:
    def __init__(self, module, cfg=None, env=None, workers=1, timeout=600, args=(), heap='3g'):
        ensure_classes()
        md = scratch_dir('tlc')
        cfg = cfg or os.path.join(SPEC, module + '.cfg')
        cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap,
               '-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:F64Overrides',
               '-Djava.io.tmpdir=' + md,
               '-cp', CLASSES + ':' + JARS, 'tlc2.TLC', '-metadir', md + '/m', '-noGenerateSpecTE',
               '-workers', str(workers), '-nowarning', '-config', cfg] + list(args) + [module + '.tla']
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        if env: e.update(env)
        t = time.time()
        try:
            p = subprocess.run(cmd, cwd=SPEC, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise MachineryError('TLC on %s did not finish in %d s' % (module, timeout))
        self.rc, self.out, self.wall = p.returncode, p.stdout.decode(errors='replace'), time.time() - t
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r'([0-9,]+) states generated(?: \([^)]*\))?, ([0-9,]+) distinct', self.out)
        self.generated, self.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
        self.ok = p.returncode == 0 and 'No error has been found' in self.out
        self.deadlock = 'Deadlock reached' in self.out
        self.violated = re.findall(r'(?:Invariant|property|Assumption) ([^\n]*?) (?:is|was) (?:violated|false)', self.out)
    def last_alias(self):
        """the last state (ALIAS) of the error trace"""
        i = self.out.rfind('State ')
        if i < 0: return ''
        s = self.out[i:]
        j = re.search(r'\n\n|\n[0-9,]+ states generated', s)
        return re.sub(r'[ \n]+', ' ', s[:j.start()] if j else s)[:1500]

# --------------------------------------------------------------------------
# checks
class Check:
    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.states = self.transitions = self.ntraces = self.nevents = 0
        self.samples, self.violations, self.models, self.assumptions = [], [], [], []
        self.kinds = {}
        self.known = load_known(pid)
        self.known_hit = []
        self.lock = threading.Lock()
        self.extra = {}
    def rng(self, label=''):
        return random.Random('%d/%s/%s' % (SEED, self.pid, label))
    def model(self, module, cfg=None, workers=2, timeout=600, env=None, expect_min=2):
        """Exhaustive TLC run of a specification; it does not look at the code."""
        r = TLC(module, cfg and os.path.join(SPEC, cfg), env=env, workers=workers, timeout=timeout)
        if not r.ok: raise MachineryError('the specification %s does not satisfy its own properties:\n%s' % (cfg or module, r.out[-3000:]))
        if r.distinct < expect_min: raise MachineryError('%s: only %d states' % (module, r.distinct))
        with self.lock:
            self.states += r.distinct; self.transitions += r.generated
            self.models.append(dict(spec=cfg or module, distinct_states=r.distinct, states_generated=r.generated, wall_s=round(r.wall, 2)))
        log('model %s: %d distinct states, %.1f s' % (cfg or module, r.distinct, r.wall))
        return r
    def refuted(self, module, cfg, timeout=300):
        """A variant of a specification that must fail: its invariants can tell."""
        r = TLC(module, os.path.join(SPEC, cfg), workers=2, timeout=timeout)
        if r.ok or not r.violated: raise MachineryError('%s was expected to violate its invariant:\n%s' % (cfg, r.out[-2000:]))
        with self.lock: self.models.append(dict(spec=cfg, refuted=True, distinct_states=r.distinct, states_generated=r.generated, wall_s=round(r.wall, 2)))
        log('model %s: refuted as it must be' % cfg)
    def validate(self, module, traces, cfg=None, workers=4, timeout=800, env=None):
        """None if every trace is a behaviour of the specification, else what was rejected."""
        if not traces or not all(traces): raise MachineryError('empty trace for ' + module)
        d = scratch_dir('tr')
        tf = os.path.join(d, 'traces.json')
        with open(tf, 'w') as f: json.dump(traces, f)
        r = TLC(module, cfg and os.path.join(SPEC, cfg), env=dict(env or {}, TRACES=tf), workers=workers, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        n = sum(len(t) + 1 for t in traces)
        if r.ok:
            if r.distinct != n:
                raise MachineryError('%s: %d states for %d trace positions' % (module, r.distinct, n))
            return None, r
        if r.deadlock or r.violated:
            return r.last_alias() or 'rejected', r
        raise MachineryError('TLC failed on %s:\n%s' % (module, r.out[-3000:]))
    def conform(self, module, gen, label='', cfg=None, workers=4, env=None, chunk=None, timeout=800):
        """gen() plays scripts on the real code and returns traces, which TLC validates against the specification"""
        traces = gen()
        bad, r = self.validate(module, traces, cfg, workers, timeout, env)
        with self.lock:
            self.states += r.distinct; self.transitions += r.generated
            self.ntraces += len(traces); self.nevents += sum(map(len, traces))
            for t in traces:
                for e in t:
                    k = e['e'] + (':' + str(e['op']) if 'op' in e else '')
                    self.kinds[k] = self.kinds.get(k, 0) + 1
            if traces and len(self.samples) < 6:
                self.samples.append(dict(spec=module, label=label, trace=shorten(traces[len(traces) // 2])))
        if bad is None:
            log('%s %s: %d traces, %d events accepted, TLC %.1f s' % (module, label, len(traces), sum(map(len, traces)), r.wall))
            return True
        # played again up to four times; if it never comes back the first recording is
        # validated once more and counts by itself: what a run did depends on its schedule
        for i in range(4):
            log('%s %s: REJECTED %s; playing it again' % (module, label, bad))
            traces2 = gen()
            bad2, r2 = self.validate(module, traces2, cfg, workers, timeout, env)
            if bad2 is not None: break
        else:
            traces2 = traces
            bad2, r2 = self.validate(module, traces2, cfg, workers, timeout, env)
            if bad2 is None: raise MachineryError('%s %s: one recording rejected once, accepted when validated again' % (module, label))
            bad2 = '(in one of five runs) ' + bad2
        m = re.search(r'\btrace\b[^0-9]{0,8}(\d+)', bad2)
        k = int(m.group(1)) - 1 if m else 0
        self.violation('%s %s: %s' % (module, label, bad2), dict(spec=module, label=label, rejected=bad2, trace=traces2[min(k, len(traces2) - 1)]))
        return False
    def violation(self, what, replay):
        with self.lock:
            for k in self.known:
                if k and k in what:
                    self.known_hit.append((k, what)); return
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations) + 1))
            with open(f, 'w') as h: json.dump(dict(property=self.pid, what=what, seed=SEED, tier=TIER, **replay), h)
            self.violations.append((what, f))
            print('%s: %s' % (self.pid, what), flush=True)
            print('VIOLATION property=%s replay=%s' % (self.pid, f), flush=True)
    def parallel(self, *jobs, width=4):
        """run jobs (callables) side by side; the first machinery error wins unless a violation was found"""
        errs = []
        with concurrent.futures.ThreadPoolExecutor(width) as ex:
            for f in [ex.submit(j) for j in jobs]:
                try: f.result()
                except MachineryError as e: errs.append(e)
        if errs and not self.violations: raise errs[0]
    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.ntraces,
                   events_validated=self.nevents, events_by_kind=dict(sorted(self.kinds.items())), models=self.models, samples=self.samples)
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=TIER, seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - _t0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
        for k, w in self.known_hit:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k))
        log('%s: %d states, %d traces, %d events, %d violations' % (self.pid, self.states, self.ntraces, self.nevents, len(self.violations)))
        return 1 if self.violations else 0

def shorten(x, n=6):
    if isinstance(x, list):
        if len(x) == 2 and all(isinstance(y, int) for y in x): return unpair(x) if abs(x[0]) > 1000000 or x == [0, 0] else x
        y = [shorten(v, n) for v in x[:n]]
        return y + ['... %d in all' % len(x)] if len(x) > n else y
    if isinstance(x, dict): return {k: shorten(v, n) for k, v in x.items()}
    return x

def load_known(pid):
    out = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', line.strip())
            if m and m.group(1) == pid: out.append(m.group(2))
    return out

def main(checks):
    pid = sys.argv[1]
    c = Check(pid)
    try:
        checks[pid](c)
        rc = c.finish()
    except MachineryError as e:
        print('ERROR %s: %s' % (pid, e), flush=True)
        rc = 1 if c.violations else 2
        if c.violations: c.finish()
    except Exception:
        traceback.print_exc(file=sys.stdout)
        rc = 1 if c.violations else 2
    sys.stdout.flush()
    sys.exit(rc)
