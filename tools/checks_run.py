"""C20-C22: output files, whole runs, parameter files."""
from lib import *
from gen import *
from checks_grid import VARIANTS, STANDIN, F64NOTE, name

def c21(c):
    def data(r, g):
        k = r.random()
        if k < .3: return g.any(r)
        if k < .5:      # around the floor of the spectra
            return [10.0 ** r.uniform(-12, -5) * x for x in g.band(r, 1.0, radial='wide')]
        if k < .7: return [r.choice([1, -1]) * 10.0 ** r.uniform(-300, 150) for _ in range(g.n)]
        if k < .85: return g.band(r, 10.0 ** r.choice([0, 0, -9, 9]))
        return [r.choice([0.0, 1.0, -1.0, 1 / 3, -1e-4, 1e4, 12345.678901234567, 1e-16, 2.0 ** -53, -0.0]) for _ in range(g.n)]
    def bounds(r, g, v):
        a = sorted(abs(x) for x in v)
        vmin = r.choice([-1.0, 0.0, a[len(a) // 3], 1e-4, a[0]]); vmax = r.choice([math.inf, a[-1], a[2 * len(a) // 3], 1e4, a[-1] * 2 + 1e-300])
        rmin = r.choice([-1.0, 0.0, g.lo, g.lo * .9, r.uniform(g.lo, g.up)]); rmax = r.choice([math.inf, g.up, g.up * 1.1, r.uniform(g.lo, g.up)])
        return [vmin, vmax, rmin, rmax]
    def job(v, flags, n, tag, th):
        def gen():
            r = c.rng(tag + name(v)); s = []
            if tag == 'threads':        # tables of grids that share all but one thing
                g = small_shape(r, *v); gs = [g] + [sibling(r, g, k) for k in r.sample(KIN, len(KIN))]; d = data(r, g)
                x = ['trace', 'threads %d %d' % th] + [h.new('g%d' % k) for k, h in enumerate(gs)]
                for w in ['XYZ', 'RPsl'] + ['NPsl'] * v[0]:
                    for k, h in enumerate(gs):
                        x.append('put a ' + vec(d if h.n == g.n else h.any(r)))
                        if w != 'XYZ': x.append('call g%d %s a ps' % (k, 'power' if w == 'RPsl' else 'nl'))
                        x.append('csv %s g%d t%d 1 3 a ps' % (w, k, k) + (' ' + ' '.join(map(hx, [-1.0, math.inf, -1.0, math.inf])) if w == 'XYZ' else ''))
                s.append('\n'.join(x + ['look', 'files']))
            for i in range(n):
                g = grid_shape(r, *v, big=1.0)
                x = ['trace', 'threads %d %d' % th, g.new()]; used = set()
                x.append('mkdir sub')
                for _ in range(9):
                    nm = r.choice(['f', 'rho', 'sub/f', 'sub/rho', 'a.b', 'f_1', 'f_RPsl', './f2']); k = r.choice([0, 1, 2, 11, 120, 99999, 1000000])
                    w = r.choice(['RPsl', 'RPsl', 'RPsl', 'XYZ', 'XYZ', 'plain'] + ['NPsl', 'NPsl'] * v[0])
                    key = nm.replace('./', '') + dict(plain='').get(w, '_' + w) + '_%d' % k     # f_RPsl as a plain table is f as a spectrum
                    if key in used: continue
                    used.add(key)
                    d = data(r, g)
                    x.append('put a ' + vec(d if w != 'plain' else vector(r, r.choice([0, 1, 5, 40]))))
                    if w in ('RPsl', 'NPsl'): x.append('call g %s a ps' % ('power' if w == 'RPsl' else 'nl'))
                    x.append('csv %s g %s %d %d a %s' % (w, nm.replace('./', ''), r.random() < .7, k, 'ps') + (' ' + ' '.join(map(hx, bounds(r, g, d))) if w == 'XYZ' else ''))
                    if r.random() < .3: x.append('files')
                x += ['look', 'files']
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    def rare(v):
        def gen():
            r = c.rng('rare' + name(v)); s = []
            g = small_shape(r, *v)
            s.append('\n'.join(['trace', g.new(), 'put a ' + vec(vector(r, r.randint(66000, 90000), 'wide')), 'csv plain g f 1 3 a ps', 'files']))
            g = long_shape(r, *v, points=r.randint(0, 12000)); d = g.any(r)
            s.append('\n'.join(['trace', 'threads 3 2', g.new(), 'put a ' + vec(d), 'call g power a ps', 'csv RPsl g f 1 7 a ps',
                                'csv XYZ g f 1 7 a ps ' + ' '.join(map(hx, [r.choice([-1.0, sorted(map(abs, d))[len(d) // 2]]), math.inf, -1.0, math.inf])), 'files']))
            return play(full_driver(*v), '\n'.join(s))
        return lambda: c.conform('Trace_System', gen, '%s: long tables' % name(v))
    jobs = [lambda: c.model('CsvMC')]
    for v in VARIANTS[:3]: jobs.append(rare(v))
    for v in VARIANTS[:3]: full_driver(*v)
    n = 40 if THOROUGH else 8
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, n // 2, 'threads', (4, 3)))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, n // 3, 'sanitized', (2, 2)))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

# --------------------------------------------------------------------------
INTS = 'nt nx nl nm nlat nphi t_step_save l_ang m_ang'.split()
REALS = 'dt compactification_length Rmax Rmin black_hole_mass black_hole_spin km1 k0 k1 k2 V2 V3 V4 amp rl ru'.split()
WORDS = ['initial_data_type', 'initial_data_direction']
KEYS = INTS + REALS + WORDS
def number(r):
    x = r.choice([r.uniform(-10, 10), 10.0 ** r.uniform(-250, 250), r.choice([1, -1]) * 10.0 ** r.uniform(-9, 9), r.gauss(0, 1), 0.0, 1.0, 1 / 3, 0.1, 1e22, 2.0 ** 53 + 2])
    k = r.randrange(9)
    if k < 3: return repr(x)
    if k == 3: return '%.17g' % x
    if k == 4: return '%.16e' % x
    if k == 5: return ('%.17e' % x).replace('e', 'E')
    if k == 6: return '%+.10f' % r.uniform(-100, 100)
    if k == 7: return r.choice(['5.', '.5', '-.25', '+7', '0', '-0.0', '1e5', '1E-5', '00012.50', '3'])
    return str(r.randint(-1000, 1000))
def value(r, k):
    if k in ('nt', 't_step_save') and r.random() < .3: return str(r.choice([2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + 5, 6710886400, 2 ** 53, r.randint(10 ** 9, 10 ** 13)]))
    if k in INTS: return r.choice(['0', '1', '7', '12', '8193', '2000000000', str(r.randint(1, 99999)), '007', '+3'] + (['-2', '-15'] if k in ('l_ang', 'm_ang') else []))
    if k in REALS: return number(r)
    return r.choice(['compact_pulse', 'ingoing', 'outgoing', 'time_symmetric', 'nx', 'a-b_c', '1.5', 'x' * 40])
def param_lines(r, missing=()):
    keys = [k for k in KEYS if k not in missing]
    r.shuffle(keys)
    def line(k, v=None):
        v = v or value(r, k)
        z = r.random()
        if z < .6: return '%s %s' % (k, v)
        if z < .75: return '%s   %s' % (k, v)
        if z < .85: return '%s %s  # %s 99' % (k, v, r.choice(KEYS))
        if z < .9: return '%s \t%s\t' % (k, v)
        if z < .95: return '%s %s ' % (k, v)
        return '%s %s %s' % (k, v, value(r, k))
    out = [line(k) for k in keys]
    for _ in range(r.choice([0, 3, 8, 15])):
        k = r.choice(KEYS); z = r.randrange(12)
        if z == 0: d = ''
        elif z == 1: d = '# %s %s' % (k, value(r, k))
        elif z == 2: d = '%s%s %s' % (k, r.choice('x_0 s'.split() + ['_0', 'l']), value(r, k))
        elif z == 3: d = '%s %s' % (k[:-1], value(r, k))
        elif z == 4: d = ' %s %s' % (k, value(r, k))
        elif z == 5: d = 'my%s %s' % (k, value(r, k))
        elif z == 6: d = '\t%s %s' % (k, value(r, k))
        elif z == 7: d = '%s\t%s' % (k, value(r, k))
        elif z == 8: d = '%s %s' % (k.upper() if k.upper() != k else k.lower(), value(r, k))
        elif z == 9: d = 'home_dir /x/%s %s' % (k, k)
        elif z == 10 and k not in missing: d = line(k)      # a second line for the same name: the first one counts
        else: d = '%s=%s' % (k, value(r, k))
        out.insert(r.randrange(len(out) + 1), d)
    return out
def c22(c):
    exe = build('params_drv.cpp', ['params'], PROD)
    exed = build('params_drv.cpp', ['params'], DEBUG)
    def job(exe, n, tag):
        def gen():
            r = c.rng(tag); d = scratch_dir('par'); s = []; whole = []
            for i in range(n):
                z = r.random()
                if z < .7: miss = ()
                elif z < .9: miss = (r.choice(KEYS),)
                else: miss = tuple(r.sample(KEYS, r.choice([2, 5, len(KEYS)])))
                f = os.path.join(d, 'p%d.txt' % i)
                ls = param_lines(r, miss)
                e = r.choice(['\n', '\n', '\n', '\r\n'])
                with open(f, 'w', newline='') as h: h.write(e.join(ls) + r.choice([e, '']))
                if i % 8 == 0: s.append('trace')
                s.append('after %s %s' % (r.choice(whole), f) if whole and r.random() < .35 else 'file ' + f)
                if not miss: whole.append(f)
            t = play(exe, '\n'.join(s))
            shutil.rmtree(d)
            return t
        return lambda: c.conform('Trace_Params', gen, tag)
    # each parameter missing in turn
    def each():
        def gen():
            r = c.rng('each'); d = scratch_dir('par'); s = ['trace']
            for i, k in enumerate(KEYS):
                f = os.path.join(d, 'p%d.txt' % i)
                with open(f, 'w') as h: h.write('\n'.join(param_lines(r, (k,))) + '\n')
                s.append('file ' + f)
            t = play(exe, '\n'.join(s))
            shutil.rmtree(d)
            return t
        return c.conform('Trace_Params', gen, 'each parameter missing')
    n = 1200 if THOROUGH else 160
    c.parallel(lambda: c.model('ParamFileMC'), job(exe, n, 'files'), job(exed, n // 4, 'sanitized'), each, width=4)

# --------------------------------------------------------------------------
def tree(d, skip=()):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.relpath(os.path.join(p, f), d)
            if q not in skip: out[q] = open(os.path.join(p, f), errors='replace').read()
    return out
def cells(text):
    ls = text.split('\n')
    if ls[-1] == '': ls.pop()
    else: ls[-1] += '<no newline>'
    return [l.split(',') for l in ls]
def numbers(line):
    out = []
    for w in line.split():
        try: out.append(float(w))
        except ValueError: pass
    return out
def params_text(r, q, g, nt, s, idp):
    dr, amp, rl, ru, l, m = idp
    kv = dict(zip('dt black_hole_mass black_hole_spin km1 k0 k1 k2 V2 V3 V4'.split(), q))
    kv.update(nt=nt, t_step_save=s, nx=g.nx, nl=g.nl, nm=g.nm, nlat=g.nlat, nphi=g.nphi, compactification_length=g.cl, Rmax=g.up, Rmin=g.lo,
              initial_data_type='compact_pulse', initial_data_direction=dr, amp=amp, rl=rl, ru=ru, l_ang=l, m_ang=m)
    ks = list(kv); r.shuffle(ks)
    return '\n'.join('%s %s' % (k, kv[k] if isinstance(kv[k], (int, str)) else repr(float(kv[k]))) for k in ks) + '\n'
def pulse_for(r, g):
    """a pulse that is well resolved on the grid"""
    pts = [((g.lo + g.up) / 2 + (g.up - g.lo) / 2 * math.cos(math.pi * j / (g.nx - 1))) if g.cheb else g.lo + j * (g.up - g.lo) / (g.nx - 1) for j in range(g.nx)]
    pts = sorted(p for p in pts if 1 - p / g.cl > 1e-9)
    rr = [p / (1 - p / g.cl) for p in pts]
    a = r.randrange(0, max(1, len(rr) - 5)); b = r.randrange(a + 3, len(rr))
    rl, ru = rr[a] * r.uniform(.8, 1.0), rr[b] * r.uniform(1.0, 1.2)
    ms = [q for q in g.s.modes() if max(map(abs, g.s.field({q: (1.0, 0.0)}))) > 1e-2]
    l, m = r.choice(ms)
    return r.choice(['ingoing', 'outgoing', 'time_symmetric']), r.choice([.3, .1, -.2, 1e-3]), rl, ru, l, m
def run_program(exe, text, r, env, label, outputs=(), block=None):
    """block: one in so many outputs cannot be opened; 1: the output directory is missing"""
    d = scratch_dir('run')
    out = r.choice(['.', 'out', 'out/deep', d + '/abs'] if block != 1 else ['out', 'out/deep', d + '/abs'])
    sub = out if out in ('.',) else os.path.relpath(os.path.join(d, out), d)
    if out != '.' and block != 1: os.makedirs(os.path.join(d, out))
    if block == 1: blocked = list(outputs)
    elif block: blocked = [x for x in outputs if r.random() < 1 / block] or [r.choice(outputs)]
    else: blocked = []
    if block != 1:
        for x in blocked: os.mkdir(os.path.join(d, out, x))
    pf = r.choice(['params.txt', './params.txt', d + '/params.txt'])
    open(os.path.join(d, 'params.txt'), 'w').write(text)
    e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99', UBSAN_OPTIONS='halt_on_error=1:exitcode=99', **{k: str(v) for k, v in env.items()})
    try:
        p = subprocess.run([exe, pf, out], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        st, said = p.returncode, p.stdout.decode(errors='replace')
    except subprocess.TimeoutExpired:
        st, said = -1, ''
    t = tree(d, ('params.txt',))
    pre = '' if out == '.' else sub + '/'
    shutil.rmtree(d)
    return dict(status=st, died=st < 0 or st in (99, 134, 139), blocked=[pre + x for x in blocked], named=[pre + x for x in blocked if re.search(r'(?<![\w.])' + re.escape(x) + r'(?![\w])', said)], dir=pre, names=sorted(t), texts=[cells(t[f]) for f in sorted(t)], said=[[pair(x) for x in numbers(l)] for l in said.splitlines() if len(numbers(l)) >= 3])
def c20(c): runs(c)
def c29(c): runs(c, True)
def runs(c, faults=False):
    PAIRS = [(1, 1), (2, 1), (2, 3), (5, 2), (7, 3), (9, 4), (6, 1), (8, 7), (8, 8), (10, 3), (12, 5), (4, 9), (13, 4), (11, 2), (1, 1), (1, 4)]
    def job(v, flags, n, tag, th):
        def gen():
            r = c.rng(tag + name(v)); s, runs = [], []
            exe, drv = program(*v, flags), full_driver(*v, flags)
            for i in range(n):
                g = grid_shape(r, *v, big=.8)
                while g.nphi < 2 or g.nlat < 2: g = grid_shape(r, *v, big=.8)
                m = 1.0; rp = m * r.uniform(1, 2); g.cl = r.choice([10.0, 20.0, 50.0]); g.lo, g.up = rp / (1 + rp / g.cl), g.cl
                from checks_evolve import eom_par, eom_new
                count = tag == 'count'     # more saved states than 8 bits count, more steps than 16 bits do
                long = False if faults or count else n < 4 and i == n - 1 and not flags == DEBUG or n >= 4 and i % 5 == 4
                if long: g.nx = min(g.nx, 12); g.n = g.nx * g.n2
                q = eom_par(r, g); q[1] = 1.0; q[2] = r.choice([0.0, .7, -.9, 1.0]); q[0] = r.choice([.01, .003, 1e-3, .02])
                nt, sv = PAIRS[r.randrange(len(PAIRS))] if i >= len(PAIRS) or n < 4 else PAIRS[(i + 3 * VARIANTS.index(v)) % len(PAIRS)]
                if count: g = small_shape(r, *v); g.cl, g.lo, g.up = 20.0, 1.5, 20.0; q[0] = 1e-5; nt, sv = [(r.randint(516, 560), 2), (r.randint(65560, 66000), r.choice([21850, 32770, 13111]))][i]
                if long: nt, sv = r.choice([(r.randint(30, 60), 1), (r.randint(40, 140), r.randint(6, 60)), (r.randint(101, 140), r.choice([10, 25, 7]))]); q[0] = r.choice([1e-3, 3e-4])
                idp = pulse_for(r, g)
                if q[3:7] == [0.0, 1.0, 0.0, 0.0] and r.random() < .4: idp = (idp[0], r.choice([1.0, -1.0])) + tuple(idp[2:])    # f = -1 somewhere
                dr, amp, rl, ru, l, mm = idp
                x = ['trace', 'threads %d %d' % th, g.new(), eom_new('e', 'g', q)]
                x += ['new F field %d %s' % (g.n, hx(0)), 'new P field %d %s' % (g.n, hx(0))]
                x.append('id g %s %s %s %s %d %d f p' % (dr, hx(amp), hx(rl), hx(ru), l, mm))
                for lv in ('n', 'np1'): x += ['flput F %s f' % lv, 'flput P %s p' % lv]
                def mark(k): return ['fget F n fn.%d' % k, 'fget F np1 fnp1.%d' % k, 'fget P n pn.%d' % k, 'fget P np1 pnp1.%d' % k,
                                     'rho e g fnp1.%d pnp1.%d rho' % (k, k), 'call g power fnp1.%d fps.%d' % (k, k), 'call g power rho rps.%d' % k]
                x += mark(0)
                for k in range(1, nt) if not count else range(sv, nt, sv):
                    x.append('step e g F P' if not count else 'evolve e g F P %d' % sv)
                    if k % sv == 0: x += mark(k)
                    x += ['shift F', 'shift P']
                s.append('\n'.join(x))
                runs.append((params_text(r, q, g, nt, sv, idp), nt, sv, q[0]))
            t = play(drv, '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
            for tr, (text, nt, sv, dt) in zip(t, runs):
                outs = ['%s_RPsl_%d.csv' % (x, j) for j in range((nt - 1) // sv + 1) for x in ('f', 'rho')]
                for b in r.sample([1, 2, 4, 9, 100], 3) if faults else [None]:
                    tr.append(dict(e='run', o='g', nt=nt, s=sv, dt=pair(dt), **run_program(exe, text, r, dict(OMP_NUM_THREADS=th[0], OMP_MAX_ACTIVE_LEVELS=th[1]), tag, outs, b)))
            return t
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    jobs = [lambda: c.model('RunMC', 'RunFaultMC.cfg' if faults else None)]
    for v in VARIANTS[:3]: full_driver(*v); program(*v)
    n = (20 if THOROUGH else 3) if faults else 42 if THOROUGH else 5
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, max(2, n // 2), 'threads', (4, 3)))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, 2, 'sanitized', (2, 2)))
    if not faults: jobs.insert(0, job(VARIANTS[SEED % 3], PROD, 2, 'count', (1, 1)))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

# --------------------------------------------------------------------------
def run_params(r, v, pairs, big=.7, most=420):
    """a grid around a black hole and the text of a parameter file for a run on it"""
    from checks_evolve import eom_par
    g = grid_shape(r, *v, big=big)
    while g.nphi < 2 or g.nlat < 2 or g.n > most: g = grid_shape(r, *v, big=big)
    rp = r.uniform(1, 2); g.cl = r.choice([10.0, 20.0, 50.0]); g.lo, g.up = rp / (1 + rp / g.cl), g.cl
    q = eom_par(r, g); q[1] = 1.0; q[2] = r.choice([0.0, .7, -.9, 1.0]); q[0] = r.choice([.003, 1e-3])
    nt, sv = r.choice(pairs)
    return g, q, nt, sv, pulse_for(r, g)
def shape_of(text):
    """lines that have ended, and cells (0 when a line has not)"""
    ls = text.split('\n')
    return len(ls) - 1, sum(len(l.split(',')) for l in ls[:-1]) if ls[-1] == '' else 0
def c28(c):
    PAIRS = [(14, 1), (13, 2), (15, 4), (20, 6), (16, 7), (17, 16), (14, 20), (31, 10)]
    def job(v, n, tag, th, kills):
        def gen():
            r = c.rng(tag + name(v)); exe = program(*v); out = []
            for i in range(n):
                g, q, nt, sv, idp = run_params(r, v, PAIRS, .7, 300)
                text = params_text(r, q, g, nt, sv, idp)
                def go(**env):
                    d = scratch_dir('sv'); o = os.path.join(d, 'out'); os.makedirs(o)
                    open(os.path.join(d, 'p.txt'), 'w').write(text)
                    e = dict(os.environ, OMP_NUM_THREADS=str(th[0]), OMP_MAX_ACTIVE_LEVELS=str(th[1]), **{k: x.replace('@', d) for k, x in env.items()})
                    p = subprocess.run([exe, 'p.txt', 'out'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                    log = os.path.join(d, 'seen')
                    ev = [json.loads(x) for x in open(log)] if os.path.exists(log) else []
                    fs = {f: open(os.path.join(o, f), errors='replace').read() for f in sorted(os.listdir(o))}
                    shutil.rmtree(d)
                    return p.returncode, ev, [[f, *shape_of(x)] for f, x in fs.items()]
                rc, ev, tables = go(SHTNS_STANDIN_WATCH='@/out', SHTNS_STANDIN_SEEN='@/seen')
                t = [dict(e='begin', nt=nt, s=sv)] + ev
                if rc: t.append(dict(e='crash', how='the program ended with status %d' % rc))
                elif not ev or ev[-1]['e'] != 'end': t.append(dict(e='crash', how='no transform was ever made'))
                else:
                    ev[-1]['tables'] = tables
                    # killed here and there, most often about when the disk changes
                    spots = [e['at'] for e in ev[:-1]]
                    ks = sorted({min(max(1, r.choice([r.choice(spots) + r.choice([0, 0, 1, 2, 5, -1]), r.randint(1, ev[-1]['at'])])), ev[-1]['at']) for _ in range(kills)})
                    for k in ks:
                        rc, _, left = go(SHTNS_STANDIN_KILL=str(k))
                        t.append(dict(e='killed', at=k, files=left) if rc == -9 else dict(e='crash', how='the program ended with status %d before it was killed' % rc))
                out.append(t)
            return out
        return lambda: c.conform('Trace_Survive', gen, '%s: %s' % (name(v), tag))
    for v in VARIANTS[:3]: program(*v)
    jobs = [lambda: c.model('SurviveMC', 'Survive_closed.cfg')] + [lambda w=w: c.refuted('SurviveMC', 'Survive_%s.cfg' % w) for w in ('held', 'open', 'late', 'anew')]
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, 40 if THOROUGH else 6, 'one thread', (1, 1), 12 if THOROUGH else 6))
        jobs.append(job(v, 16 if THOROUGH else 2, 'threads', (4, 2), 6 if THOROUGH else 3))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, 'the operating system keeps what it was handed when a process ends']

CHECKS = dict(C20=c20, C21=c21, C22=c22, C28=c28, C29=c29)
