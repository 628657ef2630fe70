"""C27: making, using and destroying objects in every order."""
from lib import *
from gen import *
from checks_grid import VARIANTS, STANDIN, F64NOTE, name, op_lines
from checks_sphere import one
from checks_evolve import eom_par, eom_new, state, bh_grid
from checks_run import params_text, pulse_for

RADIAL_OPS = dict(fd=['der', 'der2', 'filter'], cheb=['der', 'filter', 'toch', 'topo'])
SPHERE_OPS = ['toylm', 'tosph', 'ctoylm', 'ctosph', 'lap', 'dphi', 'raise', 'lower', 'X', 'filter', 'power']
GRID_OPS = ['dR', 'dr', 'ddr', 'dphi', 'lap', 'X', 'filter', 'power']

class World:
    """objects that are alive and the script that got them there"""
    def __init__(self, r, v, big):
        self.r, self.v, self.big = r, v, big
        self.x, self.live, self.dead, self.k = ['trace'], {}, [], 0
    def fresh(self): self.k += 1; return 'o%d' % self.k
    def like(self, kind):
        """a former or present object of a kind, to be made again"""
        c = [d for k, d in list(self.live.values()) + self.dead if k == kind]
        return self.r.choice(c) if c and self.r.random() < .55 else None
    def make(self, kind):
        r, o = self.r, self.fresh()
        if kind in ('fd', 'cheb'):
            d, minn = self.like(kind), 9 if kind == 'fd' else 5
            n, iv = d or (r.choice([minn, minn + 1, 12, 16, 17, 24, 33]), interval(r))
            if d:       # the same size, the same interval, or both
                k = r.randrange(4)
                if k == 0: n = r.choice([minn, 13, 21, n + 1, max(minn, n - 1)])
                elif k == 1: iv = interval(r)
            d = (n, iv); self.x.append('new %s %s %d %s %s' % (o, kind, n, hx(iv[0]), hx(iv[1])))
        elif kind == 'sphere':
            d = self.like(kind) or Sph(*sph_shape(r, 5), self.v[1])
            if r.random() < .3: d = Sph(d.nl, r.randint(0, d.nl), d.nlat, max(d.nphi, 2 * d.nl + 1), self.v[1])
            self.x.append('new %s sphere %d %d %d %d' % (o, d.nl, d.nm, d.nlat, d.nphi))
        elif kind == 'grid':
            d = self.like(kind)
            if not d:
                d = bh_grid(r, self.v, self.big)
                while d.n > 500: d = bh_grid(r, self.v, self.big)
            elif r.random() < .4:
                q = bh_grid(r, self.v, self.big)
                d = Grd(*((q.cl, q.lo, q.up, d.nx) if r.random() < .5 else (d.cl, d.lo, d.up, q.nx)), d.nl, d.nm, d.nlat, d.nphi, *self.v)
            self.x.append(d.new(o))
        else:
            gs = [p for p, (k, _) in self.live.items() if k == 'grid']
            g = r.choice(gs); d = (g, self.live[g][1]); self.x.append(eom_new(o, g, eom_par(r, d[1])))
        self.live[o] = (kind, d)
    def use(self, o):
        r, (kind, d) = self.r, self.live[o]
        if kind in RADIAL_OPS:
            op = r.choice(RADIAL_OPS[kind])
            self.x += ['put a ' + vec(vector(r, d[0])), 'call %s %s a %s' % (o, op, 'a' if op == 'filter' else 'b%d' % r.randrange(2))]
        elif kind == 'sphere': self.x += one(r, d, r.choice(SPHERE_OPS), 'a', 'b%d' % r.randrange(2), o)
        elif kind == 'grid':
            self.x += op_lines(r, d, r.choice(GRID_OPS + ['nl'] * self.v[0]), o, 'a', 'b%d' % r.randrange(2))
            if r.random() < .2: self.x.append('pts ' + o)
        else:
            self.x += ['put f ' + vec(state(r, d[1], .2)), 'put p ' + vec(state(r, d[1], .3)), r.choice(['setk %s %s f p fk pk', 'rho %s %s f p rho']) % (o, d[0])]
    def drop(self, o):
        # equations refer to their grid: they go with it
        for e in [e for e, (k, d) in self.live.items() if k == 'eom' and d[0] == o]: self.drop(e)
        self.x.append('del ' + o); self.dead.append(self.live.pop(o))
    def kinds(self): return ['fd', 'cheb', 'sphere', 'grid'] + ['eom'] * any(k == 'grid' for k, _ in self.live.values())
def orders(r, v, kind):
    """two objects, every order of making, using and destroying them, smaller and larger first"""
    out = []
    for swap in (0, 1, 2):
        for first in (0, 1):
            w = World(r, v, .7)
            for _ in range(2): w.make(kind)
            a, b = list(w.live)
            if swap == 1: w.x[-2:] = w.x[:-3:-1]       # the second made first
            if swap == 2: w.x[-1:] = [w.x[-2].replace('new ' + a, 'new ' + b, 1)]; w.live[b] = w.live[a]
            for o in r.sample([a, b, a, b], 4): w.use(o)
            w.drop((a, b)[first]); o = (b, a)[first]
            w.use(o); w.use(o); w.make(kind)
            for o in list(w.live): w.use(o)
            for o in r.sample(list(w.live), 2): w.drop(o)
            out.append('\n'.join(w.x))
    return out
def mixed(r, v, length, top, big):
    w = World(r, v, big)
    for _ in range(length):
        x = r.random()
        if len(w.live) < 2 or (x < .25 and len(w.live) < top): w.make(r.choice(w.kinds()))
        elif x < .4: w.drop(r.choice(list(w.live)))
        elif x < .43:
            while w.live: w.drop(r.choice(list(w.live)))
            continue
        if w.live: w.use(r.choice(list(w.live)))
    ls = list(w.live); r.shuffle(ls)
    for o in ls:
        if o in w.live: w.drop(o)
    return '\n'.join(w.x + ['look'])
def lives(f):
    traces = []
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('#trace'): traces.append([])
            elif line.endswith('}\n'):
                if not traces: traces.append([])
                traces[-1].append(json.loads(line))
    for t in traces:
        if not t or t[-1]['e'] != 'end': t.append(dict(e='end'))
    return [t for t in traces if len(t) > 1]
def c27(c):
    def script(v, n, tag, th):
        r = c.rng(tag + name(v)); s = []
        for kind in ('fd', 'cheb', 'sphere', 'grid'):
            for x in orders(r, v, kind): s.append(x)
        for i in range(n): s.append(mixed(r, v, 45, r.choice([3, 6, 9]), .7))
        return '\n'.join(x.replace('trace', 'trace\nthreads %d 2' % th, 1) for x in s)
    def values(v, n, tag, th, exe):
        return lambda: c.conform('Trace_System', lambda: play(exe(*v), script(v, n, tag, th), env=dict(OMP_NUM_THREADS=th)), '%s: %s, values' % (name(v), tag))
    def life(v, n, tag, th):
        def gen():
            d = scratch_dir('life'); f = os.path.join(d, 'log')
            ts = play(life_build(*v), script(v, n, tag, th), env=dict(OMP_NUM_THREADS=th, LIFE_LOG=f))
            out = lives(f); shutil.rmtree(d)
            return out + [t[-1:] for t in ts if t and t[-1]['e'] == 'crash']
        return lambda: c.conform('Trace_Life', gen, '%s: %s, lives' % (name(v), tag))
    def programs(v, n):
        def gen():
            r = c.rng('program' + name(v)); out = []
            for _ in range(n):
                g = bh_grid(r, v, .7)
                while g.n > 420: g = bh_grid(r, v, .7)
                g.cl = 20.0; g.lo, g.up = 1.5 / (1 + 1.5 / g.cl), g.cl
                q = eom_par(r, g); q[0] = .003
                d = scratch_dir('prog'); f = os.path.join(d, 'log')
                with open(os.path.join(d, 'p.txt'), 'w') as h: h.write(params_text(r, q, g, 3, 1, pulse_for(r, g)))
                e = dict(os.environ, OMP_NUM_THREADS='2', LIFE_LOG=f, ASAN_OPTIONS='detect_leaks=0:exitcode=99')
                p = subprocess.run([life_build(*v, main=True), 'p.txt', '.'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                out += lives(f)
                if p.returncode: out.append([dict(e='crash', how='the program ended with status %d' % p.returncode, said=p.stdout.decode(errors='replace')[-200:])])
                shutil.rmtree(d)
            return out
        return lambda: c.conform('Trace_Life', gen, '%s: programs' % name(v))
    vs = VARIANTS if THOROUGH else VARIANTS[:3]
    jobs = [lambda: c.model('LifeMC', 'Life_own.cfg'), lambda: c.model('LifeMC', 'Life_counted.cfg')]
    jobs += [lambda w=w: c.refuted('LifeMC', 'Life_%s.cfg' % w) for w in ('shared', 'largest', 'copied', 'cleaner')]
    for v in vs: life_build(*v); life_build(*v, main=True); full_driver(*v)
    n = 60 if THOROUGH else 8
    for v in vs:
        jobs += [values(v, n, 'histories', 1, full_driver), values(v, n, 'histories', 2, life_build), life(v, n, 'histories', 2), programs(v, 6 if THOROUGH else 2)]
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE, 'FFTW and SHTns use only the arrays they are handed, up to the sizes their manuals give (they are not instrumented; the arrays are measured instead)']
CHECKS = dict(C27=c27)
