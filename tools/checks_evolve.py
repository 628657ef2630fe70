"""C15-C19: initial data, evolution equation, time step, energy density, fields."""
from lib import *
from gen import *
from checks_grid import VARIANTS, STANDIN, F64NOTE, name

def eom_par(r, g, q=None):
    m = r.choice([0.5, 1.0, 1.0, r.uniform(.1, 3)])
    a = m * r.choice([0.0, 1.0, -1.0, 0.5, -.9, r.uniform(-1, 1), .999999, r.choice([1, -1]) * 10.0 ** r.uniform(-9, -1), r.choice([1, -1]) * (1 - 10.0 ** r.uniform(-9, -1))])
    k = r.random()
    if k < .25: c = [0, 1, 0, 0, 0, 0, 0]
    elif k < .4: c = [0, 1, 0, 0, r.uniform(0, 2), 0, 0]
    elif k < .55: c = [1, 0, 0, 0, 0, 0, 0]
    else: c = [r.choice([0, r.uniform(-.3, .8)]), r.uniform(.8, 2), r.choice([0, r.uniform(-1, 1)]), r.choice([0, r.uniform(-1, 2)]),
               r.choice([0, r.uniform(-1, 2)]), r.choice([0, r.uniform(-2, 2)]), r.choice([0, r.uniform(-3, 3)])]
    dt = r.choice([1e-3, 0.01, 1e-4, r.uniform(1e-4, 3e-2)])
    return [dt, m, a] + [float(x) for x in c]
def eom_new(o, g, q): return 'new %s eom %s %s' % (o, g, ' '.join(hx(x) for x in q))
def state(r, g, amp=None):
    """values of a field whose K and 1+f stay away from zero"""
    amp = amp if amp is not None else r.choice([.3, .1, .4, 1e-3, 1e-9, 0.0])
    k = r.random()
    if k < .5: return g.band(r, amp, radial=r.choice(['smooth', 'poly', 'normal']))
    if k < .75: return [amp * r.uniform(-1, 1) for _ in range(g.n)]
    if k < .85: return [amp] * g.n
    v = [0.0] * g.n
    for _ in range(3): v[r.randrange(g.n)] = amp * r.choice([1, -1])
    return v
def bold_par(r, q):
    """couplings whose K stays away from zero for every f (km1 = 0), or for every f > -1"""
    q = list(q)
    k0 = r.uniform(.8, 2); k1 = r.choice([0.0, r.uniform(-1, 1)]); k2 = r.choice([0.0, r.uniform(0, 2)]) if k1 == 0 else k1 * k1 / k0 * r.uniform(1, 3)
    q[3:7] = [0.0, k0, k1, k2] if r.random() < .6 else [0.0, 1.0, 0.0, 0.0] if r.random() < .5 else [r.choice([1.0, r.uniform(.1, 2)]), r.choice([0.0, k0]), 0.0, r.choice([0.0, r.uniform(0, 2)])]
    if r.random() < .25: q[4:7] = [-x for x in q[4:7]]; q[3] = -q[3]     # K < 0 everywhere
    return q
def bold(r, g, q):
    """large fields: both sides of f = -1, and that value itself, where only K with km1 /= 0 is singular"""
    v = state(r, g, r.choice([1.0, 1.5, 4.0, 30.0, 1e4]))
    if q[3] != 0: return [abs(x) for x in v]
    for _ in range(r.choice([0, 1, 3, 8])): v[r.randrange(g.n)] = r.choice([-1.0, -1.0, 1.0, -1 - 2.0 ** -52, -2.0])
    return v if r.random() < .9 else [-1.0] * g.n
def par_siblings(r, q):
    """equations that differ from q (which has a simple coupling) in one number only"""
    out = []
    for i in range(10):
        w = list(q)
        w[i] = [w[0] * 2, w[1] * r.uniform(1.1, 2), -w[2] if w[2] else .5 * w[1], .3, 1.7, r.choice([-.6, .8]), 1.5, 1.2, -1.1, 2.3][i]
        out.append(w)
    return out
def kin_traces(r, v, th, what):
    """equations and grids that share all but one thing; `what`: lines for equation e on grid g with fields f, p"""
    s = []
    g = bh_grid(r, v, shape=Grd(*domain(r), 9, 2, r.choice([1, 2]), 4, 6, *v)); q = eom_par(r, g); q[2] = q[1] * r.choice([.9, .6, -.4, -.8]); q[3:] = [0.0, 1.0] + [0.0] * 5
    x = ['trace', 'threads %d %d' % th, g.new('g0')]; q = [q] + par_siblings(r, q)
    f, p = vec([.3 * r.uniform(-1, 1) for _ in range(g.n)]), vec([r.uniform(-1, 1) for _ in range(g.n)])
    for k, w in enumerate(q): x += [eom_new('e%d' % k, 'g0', w), 'put f ' + f, 'put p ' + p] + what('e%d' % k, 'g0', 'f', 'p', g)
    for k in r.sample(range(len(q)), 3): x += what('e%d' % k, 'g0', 'f', 'p', g)
    s.append('\n'.join(x))
    gs = [g] + [sibling(r, g, k) for k in r.sample(KIN, len(KIN))]
    x = ['trace', 'threads %d %d' % th]
    for k, h in enumerate(gs): x += [h.new('g%d' % k), eom_new('e%d' % k, 'g%d' % k, q[0])]
    for k, h in enumerate(gs): x += ['put f%d ' % k + (f if h.n == g.n else vec(state(r, h, .3))), 'put p%d ' % k + (p if h.n == g.n else vec(state(r, h, 1.0)))] + what('e%d' % k, 'g%d' % k, 'f%d' % k, 'p%d' % k, h)
    s.append('\n'.join(x))
    return s
def bh_grid(r, v, big=1.0, shape=None):
    g = shape or grid_shape(r, *v, big=big)
    if r.random() < .45:
        m = r.choice([.5, 1.0]); rp = m * r.uniform(1, 2); cl = r.choice([10.0, 20.0, 50.0]); g.cl, g.lo, g.up = cl, rp / (1 + rp / cl), cl
    return g

def c16(c, cmd='setk'):
    def job(v, flags, n, tag, th, big=1.0):
        def gen():
            r = c.rng(tag + name(v)); s = []
            if tag == 'threads': s += kin_traces(r, v, th, lambda e, g, f, p, h: ['setk %s %s %s %s fk pk' % (e, g, f, p) if cmd == 'setk' else 'rho %s %s %s %s r' % (e, g, f, p)])
            for i in range(n):
                g = bh_grid(r, v, big)
                x = ['trace', 'threads %d %d' % th, g.new()]
                for k in range(2):
                    x.append(eom_new('e%d' % k, 'g', eom_par(r, g)))
                    for _ in range(2):
                        x += ['put f ' + vec(state(r, g)), 'put p ' + vec(state(r, g, r.choice([1.0, .2, 1e-5, 0.0, 30.0])))]
                        o = 'e%d' % r.randrange(k + 1)
                        x.append('setk %s g f p fk pk' % o if cmd == 'setk' else 'rho %s g f p r' % o)
                        if r.random() < .3: x.append('rho %s g f p r' % o if cmd == 'setk' else 'setk %s g f p fk pk' % o)
                x.append('look')
                s.append('\n'.join(x))
            for i in range(max(2, n // 4)):     # large fields
                g = bh_grid(r, v, .9); q = bold_par(r, eom_par(r, g)); x = ['trace', 'threads %d %d' % th, g.new(), eom_new('e', 'g', q)]
                for _ in range(3):
                    x += ['put f ' + vec(bold(r, g, q)), 'put p ' + vec(state(r, g, r.choice([1.0, .2, 0.0]))), 'setk e g f p fk pk' if cmd == 'setk' else 'rho e g f p r']
                s.append('\n'.join(x))
            # two grids with their equations alive together
            for i in range(max(1, n // 4)):
                x = ['trace', 'threads %d %d' % th]; gs = []
                for k in range(2):
                    g = bh_grid(r, v, .8); gs.append(g); x += [g.new('g%d' % k), eom_new('e%d' % k, 'g%d' % k, eom_par(r, g))]
                for _ in range(5):
                    k = r.randrange(2); g = gs[k]
                    x += ['put f%d ' % k + vec(state(r, g)), 'put p%d ' % k + vec(state(r, g))]
                    x.append(('setk e%d g%d f%d p%d fk pk' if cmd == 'setk' else 'rho e%d g%d f%d p%d r') % (k, k, k, k))
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    def rare(v, k):
        def gen():
            r = c.rng('rare%d' % k + name(v)); s = []
            call = lambda o: 'setk %s g f p fk pk' % o if cmd == 'setk' else 'rho %s g f p r' % o
            # long grids, and a long history on small ones
            for points in (0, r.randint(33000, 40000)) if THOROUGH else (r.choice([0, 0, 17000]),):
                g = bh_grid(r, v, shape=long_shape(r, *v, points=points))
                s.append('\n'.join(['trace', 'threads %d 2' % (1 + 3 * k), g.new(), eom_new('e', 'g', eom_par(r, g)),
                                    'put f ' + vec(state(r, g)), 'put p ' + vec(state(r, g, 1.0)), call('e')]))
            x = ['trace', 'threads 1 1']; g = bh_grid(r, v, shape=small_shape(r, *v)); x.append(g.new())
            for j in range(3): x.append(eom_new('e%d' % j, 'g', eom_par(r, g)))
            for j in range(140):
                if j % 3 == 0: x += ['put f ' + vec(state(r, g)), 'put p ' + vec(state(r, g, r.choice([1.0, .2, 0.0])))]
                x.append(call('e%d' % r.choice([0, 0, 1, 2])))
            s.append('\n'.join(x))
            return play(full_driver(*v), '\n'.join(s), env=dict(OMP_NUM_THREADS=1 + 3 * k))
        return lambda: c.conform('Trace_System', gen, '%s: long %d' % (name(v), k))
    jobs = [lambda: c.model('KerrMC')]
    for i, v in enumerate(VARIANTS[:3]): jobs.append(rare(v, (SEED + i) % 2))
    for v in VARIANTS[:3]: full_driver(*v)
    n = 60 if THOROUGH else 14
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, n // 2, 'threads', (4, 3)))
        if THOROUGH: jobs.append(job(v, PROD, 6, 'larger', (8, 3), 2.0))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, n // 3, 'sanitized', (2, 2), .8))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

def c17(c):
    def job(v, flags, n, tag, th, big=.9):
        def gen():
            r = c.rng(tag + name(v)); s = []
            def step(e, g, f, p, h):
                x = []
                for F, w in (('F', f), ('P', p)): x += ['new %s%s field %d %s' % (F, e, h.n, hx(0)), 'flevel %s%s n %s' % (F, e, vec(state(r, h, .2)))]
                return x + ['step %s %s F%s P%s' % (e, g, e, e), 'flook F%s' % e, 'flook P%s' % e]
            if tag == 'threads':
                for y in kin_traces(r, v, th, step):
                    seen, z = set(), []     # a field is made once
                    for l in y.split('\n'):
                        if l.startswith('new ') and ' field ' in l:
                            if l.split()[1] in seen: continue
                            seen.add(l.split()[1])
                        z.append(l)
                    s.append('\n'.join(z))
            for i in range(n):
                g = bh_grid(r, v, big)
                e, d = eom_par(r, g), eom_par(r, g)
                if r.random() < .25: d[0] = -d[0]       # backwards in time
                x = ['trace', 'threads %d %d' % th, g.new(), eom_new('e', 'g', e), eom_new('d', 'g', d)]
                x += ['new F field %d %s' % (g.n, hx(0)), 'new P field %d %s' % (g.n, hx(r.uniform(-1, 1)))]
                for k in range(3):
                    # leftovers in every other level, from nowhere or from the last step
                    if k == 0 or r.random() < .5:
                        for F in 'FP':
                            x.append('flevel %s n %s' % (F, vec(state(r, g, .2))))
                            for lv in ('l', 'np1', 'k'):
                                if r.random() < .8: x.append('flevel %s %s %s' % (F, lv, vec([r.choice([1e3, -7.0, 1e30]) * r.uniform(-1, 1)] * g.n)))
                    else: x += ['shift F', 'shift P']
                    x.append('step %s g F P' % ('e' if r.random() < .7 else 'd'))
                    x += ['flook F', 'flook P']
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    def rare(v, k):
        def gen():
            r = c.rng('rare%d' % k + name(v)); s = []
            for g, steps in ((bh_grid(r, v, shape=small_shape(r, *v)), 130), (bh_grid(r, v, shape=long_shape(r, *v)), 1)):
                q = eom_par(r, g); q[0] = 1e-4
                x = ['trace', 'threads %d 2' % (1 + 3 * k), g.new(), eom_new('e', 'g', q)]
                for F in 'FP': x += ['new %s field %d %s' % (F, g.n, hx(0)), 'flevel %s n %s' % (F, vec(state(r, g, .2)))]
                for j in range(steps):
                    x.append('step e g F P')
                    if r.random() < .7: x += ['shift F', 'shift P']
                    elif r.random() < .5: x += ['flevel %s n %s' % (F, vec(state(r, g, .2))) for F in 'FP']
                s.append('\n'.join(x))
            return play(full_driver(*v), '\n'.join(s), env=dict(OMP_NUM_THREADS=1 + 3 * k))
        return lambda: c.conform('Trace_System', gen, '%s: long %d' % (name(v), k))
    jobs = [lambda: c.model('StepMC')]
    for i, v in enumerate(VARIANTS[:3]): full_driver(*v); jobs.append(rare(v, (SEED + i) % 2))
    n = 30 if THOROUGH else 8
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, n // 2, 'threads', (4, 3)))
        if THOROUGH: jobs.append(job(v, PROD, 4, 'larger', (8, 3), 1.6))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, max(1, n // 4), 'sanitized', (2, 2), .8))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

def c15(c):
    def job(v, flags, n, tag, th, big=1.2):
        def gen():
            r = c.rng(tag + name(v)); s = []
            if tag == 'threads':        # pulses and grids that share all but one thing
                g = Grd(20.0, 2 / 1.1, 20.0, 17, 3, 2, 5, 7, *v); gs = [g] + [sibling(r, g, k) for k in KIN]
                q0 = ['ingoing', 1.0, 2.5, 30.0, 2, 1]
                qs = [q0] + [q0[:i] + [w] + q0[i + 1:] for i, w in ((0, 'outgoing'), (0, 'time_symmetric'), (1, .5), (1, -1.0), (2, 3.5), (3, 60.0), (4, 3), (4, 1), (5, 2), (5, 0))]
                x = ['trace', 'threads %d %d' % th] + [h.new('g%d' % k) for k, h in enumerate(gs)]
                for k, q in [(0, q) for q in qs] + [(k, q0) for k in range(1, len(gs))] + [(0, q0)] + [(r.randrange(len(gs)), r.choice(qs[:8])) for _ in range(6)]:
                    if q[4] > gs[k].nl or q[5] > gs[k].nm or gs[k].lo / (1 - gs[k].lo / gs[k].cl) > 6: continue
                    x.append('id g%d %s %s %s %s %d %d f p' % (k, q[0], hx(q[1]), hx(q[2]), hx(q[3]), q[4], q[5]))
                s.append('\n'.join(x))
            for i in range(n):
                g = bh_grid(r, v, big)
                x = ['trace', 'threads %d %d' % th, g.new()]
                rmin = g.lo / (1 - g.lo / g.cl)
                gap = 1 - g.up / g.cl
                rmax = g.up / gap if gap > 1e-12 else 1e12
                for _ in range(6):
                    k = r.randrange(6)
                    if k == 0: rl, ru = 1.1 * rmin, 3 * rmin
                    elif k == 1: rl, ru = rmin * .5, rmin * r.uniform(3, 30)      # begins inside the horizon: horizon point included
                    elif k == 2: rl, ru = rmin * 1.01, max(rmax * 2, 40.0) if rmax < 1e11 else r.uniform(20, 2000)
                    elif k == 3: rl, ru = -1.0, r.uniform(5, 80)
                    elif k == 4: rl, ru = r.uniform(2, 9), r.uniform(20, 300)
                    else: rl, ru = rmin * r.uniform(.9, 2), rmin * r.uniform(4, 40)
                    # is it resolved at all?
                    from_pts = [((g.lo + g.up) / 2 + (g.up - g.lo) / 2 * math.cos(math.pi * j / (g.nx - 1))) if g.cheb else g.lo + j * (g.up - g.lo) / (g.nx - 1) for j in range(g.nx)]
                    def bump(R):
                        gp = 1 - R / g.cl
                        if abs(gp) < 1e-14: return 0
                        q = R / gp; y = (q - rl) / (ru - rl)
                        if not 0 < y < 1: return 0
                        return y ** 4 * (1 - y) ** 4 * math.exp(-1 / y - 2 / (1 - y))
                    b = max(map(bump, from_pts))
                    if r.random() < .25:     # the pulse only grazes a grid point or two
                        rs = sorted(q for q in (R / (1 - R / g.cl) for R in from_pts if 1 - R / g.cl > 1e-9) if q > 0)
                        if len(rs) > 3:
                            q = r.randrange(len(rs) - 1); d = rs[q + 1] - rs[q]; y = r.uniform(.045, .12)
                            rl, ru = (rs[q] + d * y, rs[q + 1] + d * y * y * .5) if r.random() < .5 else (rs[q] - d * y, rs[q + 1] - d * y)
                            b = max(map(bump, from_pts))
                    l, m = r.choice(g.s.modes())
                    # the harmonic vanishes on every point: amplitude undefined
                    if b < 1e-14 or max(map(abs, g.s.field({(l, m): (1.0, 0.0)}))) < 1e-3: continue
                    d = r.choice(['ingoing', 'outgoing', 'time_symmetric', 'ingoing', 'outgoing', 'static'])
                    x.append('id g %s %s %s %s %d %d f p' % (d, hx(r.choice([1.0, .1, -.5, 1e-8, 100.0, r.uniform(0, 1)])), hx(rl), hx(ru), l, m))
                x.append('look')
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    jobs = [lambda: c.model('PulseMC')]
    for v in VARIANTS[:3]: full_driver(*v)
    n = 80 if THOROUGH else 24
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, n // 2, 'threads', (4, 3)))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, n // 3, 'sanitized', (2, 2), .8))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

def c19(c):
    def job(v, flags, n, tag, th, top):
        def gen():
            r = c.rng(tag); s = []
            for i in range(n):
                x = ['trace', 'threads %d %d' % th]; live = {}
                k = 0
                for _ in range(30):
                    if len(live) < 2 or (len(live) < 4 and r.random() < .2):
                        k += 1; n_ = r.choice([1, 2, 3, 7, 8, 16, 31, r.randint(1, top)]); live['F%d' % k] = n_
                        x.append('new F%d field %d %s' % (k, n_, hx(r.choice([0.0, 1.0, -3.5, 1e300]))))
                        x.append('flook F%d' % k)
                    o = r.choice(list(live)); z = r.random()
                    if z < .5: x.append('flevel %s %s %s' % (o, r.choice(['n', 'l', 'np1', 'np1', 'k']), vec(vector(r, live[o]))))
                    elif z < .85: x += ['shift ' + o]
                    elif len(live) > 2: x.append('del ' + o); del live[o]; continue
                    for q in live:
                        if r.random() < .7: x.append('flook ' + q)
                s.append('\n'.join(x))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, tag)
    def huge():
        r = c.rng('huge'); n = r.randint(100001, 170000)
        x = ['trace', 'threads 4 1', 'new F field %d %s' % (n, hx(.5)), 'flevel F np1 ' + vec(vector(r, n, 'uniform')), 'shift F', 'flook F']
        return play(full_driver(*VARIANTS[0]), '\n'.join(x), env=dict(OMP_NUM_THREADS=4))
    full_driver(*VARIANTS[0])
    n = 80 if THOROUGH else 12
    jobs = [lambda: c.model('StepMC'), lambda: c.conform('Trace_System', huge, 'huge')]
    jobs += [job(VARIANTS[0], PROD, n, 'one thread', (1, 1), 60), job(VARIANTS[0], PROD, n, 'three threads', (3, 1), 200), job(VARIANTS[0], PROD, max(2, n // 4), 'eight threads', (8, 1), 3000),
             job(VARIANTS[0], PROD, 1, 'large', (4, 2), 100000 if THOROUGH else 30000),
             job(VARIANTS[0], DEBUG, n // 2, 'sanitized', (2, 2), 80)]
    c.parallel(*jobs, width=6)
    c.assumptions += [F64NOTE]

CHECKS = dict(C15=c15, C16=c16, C17=c17, C18=lambda c: c16(c, 'rho'), C19=c19)
