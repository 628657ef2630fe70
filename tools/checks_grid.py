"""C10-C14: the three-dimensional grid, decided with spec/System.tla."""
from lib import *
from gen import *
VARIANTS = [(True, True), (False, True), (False, False), (True, False)]
STANDIN = 'SHTns is not installed: its documented interface is provided by harness/shtns (direct sums), and what SHTns does inside is not examined'
F64NOTE = 'IEEE-754 double arithmetic of the Java virtual machine evaluates module F64'
def name(v): return ('Chebyshev' if v[0] else 'finite differences') + (', theta fastest' if v[1] else ', phi fastest')

def op_lines(r, g, op, o='g', a='a', b='b'):
    v = g.ladder(r) if op == 'X' else g.any(r)
    x = ['put %s %s' % (a, vec(v))]
    return x + ['call %s %s %s %s' % (o, op, a, a if op == 'filter' else b)]

def grid_ops(c, ops, extra=None, models=(), nq=9, cheb_only=(), threads=(1, 4), long=0, also=()):
    """single grids, several grids alive together, sanitized builds, thread counts; all four variants"""
    def job(v, flags, n, tag, big, th):
        def gen():
            r = c.rng(tag + name(v))
            s = []
            mine = [x for x in ops if v[0] or x not in cheb_only]
            for i in range(n):
                g = grid_shape(r, *v, big=big)
                x = ['trace', 'threads %d %d' % th, g.new()]
                if extra: x += extra(r, g)
                for op in mine:
                    x += op_lines(r, g, op, a=r.choice(['a', 'a2']), b=r.choice(['b', 'b2', 'b3']))
                    if r.random() < .3: x += op_lines(r, g, r.choice(mine), a='a', b='b')
                x.append('look')
                s.append('\n'.join(x))
            more = []
            for i in range(1 + n // 4):         # grids that differ in one thing only, each call on one after the other
                g = [grid_shape(r, *v, big=.7)]
                if i == 0 and tag == 'threads':
                    g = [small_shape(r, *v)]; g += [sibling(r, g[0], k) for k in r.sample(KIN, len(KIN))]
                while len(g) < 3: g.append(sibling(r, r.choice(g)))
                x = ['trace', 'threads %d %d' % th] + [q.new('g%d' % k) for k, q in enumerate(g)]
                for op in (r.sample(mine, min(len(mine), 4)) if i or tag != 'threads' else mine) if mine else [None]:
                    same = None
                    for k, q in enumerate(g):
                        if op is None: x += extra(r, q, 'g%d' % k) if extra else []; continue
                        if same is None or q.n != same or op == 'X': x += op_lines(r, q, op, 'g%d' % k, 'a%d' % k, 'b'); w = x[-2]; same = q.n
                        else: x += ['put a%d' % k + w[w.index(' ', 4):], 'call g%d %s a%d %s' % (k, op, k, 'a%d' % k if op == 'filter' else 'b')]
                more.append('\n'.join(x))
            s = more + s if tag != 'one thread' else s + more
            for i in range(1 + n // 4):
                live, x, k = {}, ['trace', 'threads %d %d' % th], 0
                for _ in range(7):
                    if len(live) < 2 or r.random() < .2:
                        g = grid_shape(r, *v, big=.8) if not live or r.random() < .5 else r.choice(list(live.values()))
                        k += 1; live['g%d' % k] = g; x.append(g.new('g%d' % k))
                    elif len(live) > 2:
                        o = r.choice(list(live)); del live[o]; x.append('del ' + o)
                    if mine:
                        o = r.choice(list(live)); x += op_lines(r, live[o], r.choice(mine), o, 'a', 'b%d' % r.randrange(2))
                    elif extra:
                        o = r.choice(list(live)); x += extra(r, live[o], o)
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    def rare(v, k):
        def gen():
            r = c.rng('rare%d' % k + name(v)); s = []
            shapes = [long_shape(r, *v)] + ([long_shape(r, *v, points=r.randint(33000, 70000))] if long else []) + [wide_labels(r, *v)]
            for g in shapes:
                x = ['trace', 'threads %d 2' % (1 + 3 * k), g.new()]
                if extra: x += extra(r, g)
                for op in ops:
                    if v[0] or op not in cheb_only: x += op_lines(r, g, op)
                s.append('\n'.join(x))
            return play(full_driver(*v), '\n'.join(s), env=dict(OMP_NUM_THREADS=1 + 3 * k))
        return lambda: c.conform('Trace_System', gen, '%s: long grids %d' % (name(v), k))
    jobs = [(lambda m=m: c.model(m)) for m in models]
    n = nq * (6 if THOROUGH else 1)
    for v in VARIANTS[:3]: full_driver(*v)
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', 1.0, (1, 1)))
        jobs.append(job(v, PROD, max(3, n // 2), 'threads', 1.0, (4, 3)))
        for k in range(4 if THOROUGH else 1): jobs.append(rare(v, k % 2))
        if THOROUGH: jobs.append(job(v, PROD, 8, 'larger', 2.5, (8, 2)))
    for v in VARIANTS[:2] if not THOROUGH else VARIANTS:
        jobs.append(job(v, DEBUG, 3 if not THOROUGH else 12, 'sanitized', .7, (2, 2)))
    c.parallel(*jobs, *also, width=8)
    c.assumptions += [STANDIN, F64NOTE]

ROWS = ['R', 'th', 'ph', 'R_th', 'R_ph', 'th_ph', 'n', 'l']
def huge(c, what):
    """what a grid with more points than 16 bits count says about some of them"""
    def job(v):
        def gen():
            r = c.rng('huge' + name(v)); s = []
            for g in [huge_shape(r, *v)] + ([] if v[0] else [huge_shape(r, *v, labels=True)]):
                x = ['trace', 'threads 1 1', g.new()]
                last = (g.nx - 1, g.nlat - 1, g.nphi - 1, g.nl - 1)
                if 'points' in what:
                    for p in [last, (0, 0, 0, 0)] + [tuple(r.choice([q, r.randint(0, q), r.randint(0, q)]) for q in last) for _ in range(60)]: x.append('probe g %d %d %d %d' % p)
                if 'rows' in what:
                    for w, (i, k) in dict(R=last[1:3], th=(last[0], last[2]), ph=last[:2], n=(last[3], 0), l=(last[0], 0), R_th=(last[2], 0), R_ph=(last[1], 0), th_ph=(last[0], 0)).items():
                        x += ['rowat g %s %d %d' % (w, i, k), 'rowat g %s %d %d' % (w, r.randint(0, i), r.randint(0, k))]
                s.append('\n'.join(x))
            return play(full_driver(*v), '\n'.join(s))
        return lambda: c.conform('Trace_System', gen, '%s: huge grids' % name(v))
    for v in VARIANTS[:3]: full_driver(*v)
    return [job(v) for v in (VARIANTS if THOROUGH else VARIANTS[:3])]
def c10(c):
    def rows(r, g, o='g'):
        x = ['pts %s' % o]
        ln = dict(R=g.nx, th=g.nlat, ph=g.nphi, n=g.nx, l=g.nl, R_th=g.nx * g.nlat, R_ph=g.nx * g.nphi, th_ph=g.n2)
        ij = lambda w: dict(R=(g.nlat, g.nphi), th=(g.nx, g.nphi), ph=(g.nx, g.nlat), n=(g.nl, 1), l=(g.nx, 1), R_th=(g.nphi, 1), R_ph=(g.nlat, 1), th_ph=(g.nx, 1))[w]
        x += ['put W ' + vec([float(i) for i in range(g.n)]), 'put L ' + vec([float(i) + .5 for i in range(g.nx * g.nl)])]
        for w in ROWS:
            ni, nk = ij(w); buf = 'L' if w in 'nl' else 'W'
            some = {(0, 0), (ni - 1, nk - 1), (0, nk - 1), (ni - 1, 0), (r.randrange(ni), r.randrange(nk)), (r.randrange(ni), r.randrange(nk))}
            for i, k in sorted(some):
                if w != 'l': x.append('row %s get %s %d %d %s q%s' % (o, w, i, k, buf, w))
                if r.random() < .6:
                    x.append('put p%s %s' % (w, vec([-1.0 - r.randrange(10 ** 6) for _ in range(ln[w])])))
                    x.append('row %s set %s %d %d %s p%s' % (o, w, i, k, buf, w))
        return x
    grid_ops(c, [], rows, models=['LayoutMC'], nq=8, also=huge(c, ['points', 'rows']))
def c11(c):
    def pts(r, g, o='g'):
        R = [g.cl, g.cl * (1 - 2.0 ** -52), g.cl * (1 - 2.0 ** -53), g.cl * (1 + 2.0 ** -52), 0.0, g.cl / 2, g.cl * (1 - 1e-9)] + [g.cl * (1 + r.choice([-1, -1, -1, 1]) * 10.0 ** r.uniform(-15.3, -2)) for _ in range(6)] + [r.uniform(0, g.cl) for _ in range(6)]
        return ['pts %s' % o, 'rtor %s %s' % (o, vec(R))]
    grid_ops(c, [], pts, models=['ChebyshevMC'], nq=16, also=huge(c, ['points']))
def c12(c):
    grid_ops(c, ['dR', 'dr', 'ddr', 'dphi', 'lap', 'X', 'nl', 'power'], cheb_only=('nl',), models=['GridMC'], nq=9)
def c13(c):
    grid_ops(c, ['filter', 'filter', 'filter'], models=['GridMC'], nq=14)
def c14(c):
    def diag(r, g, o='g'):
        x = []
        for _ in range(6 if g.n < 20000 else 2):
            d = [g.any(r), g.any(r), g.any(r)]
            if r.random() < .4:      # nothing has changed at some or all points; p may be tiny
                q = r.choice([.2, .8, 1.0]); e = 10.0 ** r.choice([0, -6, -14, -40])
                d = [d[0], [a if r.random() < q else b for a, b in zip(*d[:2])], [e * p for p in d[2]]]
            x += ['put d%d ' % (k + 1) + vec(w) for k, w in enumerate(d)] + ['tv %s d1' % o]
            x.append('res %s %s d1 d2 d3' % (o, hx(r.choice([1.0, 1e-3, 0.25, 3.7, 10.0 ** r.uniform(-5, 2)]))))
        return x
    grid_ops(c, [], diag, models=['LayoutMC'], nq=12, long=1)

CHECKS = dict(C10=c10, C11=c11, C12=c12, C13=c13, C14=c14)
