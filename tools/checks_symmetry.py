"""C30: the evolution has the symmetries of the equation."""
import copy
from lib import *
from gen import *
from checks_grid import VARIANTS, STANDIN, F64NOTE, name
from checks_evolve import bh_grid, eom_new

def say(**e): return 'say ' + json.dumps(e, separators=(',', ':'))[:-1]
# words of module Symmetry
def move_grid(w, g):
    h = copy.copy(g)
    if w[0] == 'size': k = 2.0 ** w[1]; h.cl, h.lo, h.up = g.cl * k, g.lo * k, g.up * k
    return h
def move_q(w, q):
    q = list(q)
    if w[0] == 'mirror': q[2] = 0.0 - q[2]
    if w[0] == 'sign': q[5] = 0.0 - q[5]; q[8] = 0.0 - q[8]
    if w[0] == 'size':
        k = 2.0 ** w[1]
        q = [x * k for x in q[:3]] + q[3:7] + [x / k / k for x in q[7:]]
    return q
def carry(w, g, v):
    out = [0.0] * g.n
    for ix in range(g.nx):
        for it in range(g.nlat):
            for ip in range(g.nphi):
                jp = (ip - w[1]) % g.nphi if w[0] == 'turn' else -ip % g.nphi if w[0] == 'mirror' else ip
                jt = g.nlat - 1 - it if w[0] == 'flip' else it
                out[g.n2 * ix + g.s.at(it, ip)] = v[g.n2 * ix + g.s.at(jt, jp)]
    return out
def move_f(w, g, v): return [-x for x in v] if w[0] == 'sign' else carry(w, g, v) if w[0] != 'size' else v
def move_p(w, g, v): return [x / 2.0 ** w[1] for x in v] if w[0] == 'size' else move_f(w, g, v)
def moved(ws, g, q, f, p):
    for w in ws:
        f, p = move_f(w, g, f), move_p(w, g, p)
        q = move_q(w, q); g = move_grid(w, g)
    return g, q, f, p
def word(r, g, q):
    ks = ['turn', 'turn', 'flip', 'mirror', 'mirror', 'size'] + (['sign', 'sign'] if q[3] == 0 else [])
    ws = []
    for k in r.sample(ks, r.choice([1, 1, 2, 3])):
        if k == 'turn' and g.nphi == 1: continue
        ws.append([k, r.randint(1, g.nphi - 1) if k == 'turn' else r.choice([1, -1, 2, 5, -3, 8]) if k == 'size' else 0])
    return ws or [['flip', 0]]
def couplings(r):
    k = r.random()
    if k < .2: return [0, 1, 0, 0, 0, 0, 0]
    if k < .3: return [0, r.uniform(.5, 2), 0, 0, r.uniform(0, 2), 0, 0]
    if k < .4: return [r.uniform(.1, .8), r.uniform(.8, 2), r.uniform(-.5, .5), r.uniform(-1, 1), r.uniform(0, 1), r.uniform(-1, 1), r.uniform(-1, 1)]
    return [0, r.uniform(.8, 2), r.choice([0, r.uniform(-1, 1)]), r.choice([0, r.uniform(-1, 2)]), r.choice([0, r.uniform(0, 2)]), r.choice([0, r.uniform(-2, 2)]), r.choice([0, r.uniform(-3, 3)])]
def par(r, g, co):
    # the hole just reaches the grid, or less: a state of the grid where the equation is hyperbolic
    rmin = g.lo / (1 - g.lo / g.cl)
    m = rmin * r.choice([.5, .3, .5 * r.random()]); a = m * r.choice([0.0, 1.0, -1.0, .5, -.9, r.uniform(-1, 1), r.uniform(-1, 1), r.choice([1, -1]) * 10.0 ** r.uniform(-9, -1), r.choice([1, -1]) * (1 - 10.0 ** r.uniform(-9, -1))])
    if r.random() < .3: m = rmin / (1 + math.sqrt(1 - .49)); a = .7 * m * r.choice([1, -1])
    m, a = (float('%.12g' % x) for x in (m, a))
    h = (g.up - g.lo) / (g.nx * g.nx if g.cheb else 4 * g.nx)
    dt = min(h, .4 * rmin / (g.nl + 1)) * r.choice([.5, .2, .05])
    return [dt, m, a] + [float(x) for x in co]
def linear(q): return all(q[i] == 0 for i in (3, 5, 6, 8, 9))
def values(r, g, amp, modes=None): return g.band(r, amp, modes, radial=r.choice(['smooth', 'smooth', 'poly', 'const']))

def pair_script(r, g, th, bh, pick=None):
    co = couplings(r); q = par(r, g, co)
    amp = 10.0 ** r.choice([0, -3, -12, -120, 90, 8]) if linear(q) else r.choice([.3, .1, 1e-2, 1e-6])
    ws = word(r, g, q) if pick is None else pick(r, g, q)
    f, p = values(r, g, amp), values(r, g, amp * r.choice([0, 1, 1, .01]) / g.lo)
    h, q2, f2, p2 = moved(ws, g, q, f, p)
    x = ['trace', 'threads %d %d' % th, g.new('g'), eom_new('e', 'g', q)]
    if r.random() < .7 or any(w[0] == 'size' for w in ws): x += [h.new('h')]; gb = 'h'
    else: gb = 'g'
    x.append(eom_new('d', gb, q2))
    for o, v in (('F', f), ('P', p), ('A', f2), ('B', p2)):
        x.append('new %s field %d %s' % (o, g.n, hx(r.choice([0.0, 1.0, -2.5]))))
        x.append('flevel %s n %s' % (o, vec(v)))
        if r.random() < .4: x.append('flevel %s %s %s' % (o, r.choice(['l', 'np1', 'k']), vec([r.uniform(-1e6, 1e6)] * g.n)))
    x += ['fget F n f0', 'fget P n p0']
    def twin(k): return say(e='twin', A=['F', 'P', 'e'], B=['A', 'B', 'd'], w=ws, f0='f0', p0='p0', k=k)
    two = [['step e g F P'], ['step d %s A B' % gb]]
    if r.random() < .5: two.reverse()
    x += two[0] + two[1] + [twin(1)]
    k = r.randint(2, 12) if not bh else r.choice([3, 9, 25, 40]); shift = ['shift ' + o for o in 'FPAB']
    x += shift
    two = [['evolve e g F P %d' % k], ['evolve d %s A B %d' % (gb, k)]]
    if r.random() < .5: two.reverse()
    x += two[0] + two[1] + [twin(1 + k)]
    if r.random() < .5: x += shift + ['step e g F P', 'step d %s A B' % gb, twin(2 + k)]
    # the energy density of a state and its image
    f, p = (values(r, g, r.choice([.3, .1, 1e-4])), values(r, g, r.choice([.5, 1.0, 0.0])))
    _, _, f2, p2 = moved(ws, g, q, f, p)
    x += ['put u ' + vec(f), 'put v ' + vec(p), 'put y ' + vec(f2), 'put z ' + vec(p2), 'rho e g u v r', 'rho d %s y z s' % gb]
    x.append(say(e='twinrho', eo='e', fo='d', f='u', p='v', r='r', f2='y', p2='z', s='s', w=ws))
    return x
def own_script(r, g, th, bh):
    """a state that is its own image: it stays one"""
    q = par(r, g, couplings(r))
    k = r.randrange(4)
    if k == 0 and g.nphi > 1: ms = [(l, m) for l, m in g.s.modes() if m == 0]; ws = [['turn', r.randint(1, g.nphi - 1)]]
    elif k == 1: ms = [(l, m) for l, m in g.s.modes() if (l + m) % 2 == 0]; ws = [['flip', 0]]
    elif k == 2: q[2] = 0.0; ms = [(l, m) for l, m in g.s.modes() if m == 0]; ws = [['mirror', 0]]
    else: ms = [(l, m) for l, m in g.s.modes() if (l + m) % 2 == 1] or g.s.modes(); q[3] = q[5] = q[8] = 0.0; ws = [['flip', 0], ['sign', 0]] if g.nl else [['flip', 0]]
    if ws[0][0] == 'flip' and len(ws) == 2 and not any((l + m) % 2 == 1 for l, m in g.s.modes()): ws = [['flip', 0]]
    amp = r.choice([.3, .1, 1e-3])
    x = ['trace', 'threads %d %d' % th, g.new('g'), eom_new('e', 'g', q)]
    for o, v in (('F', values(r, g, amp, ms)), ('P', values(r, g, amp, ms))):
        x += ['new %s field %d %s' % (o, g.n, hx(0)), 'flevel %s n %s' % (o, vec(v))]
    x += ['fget F n f0', 'fget P n p0']
    k = r.randint(2, 12) if not bh else r.choice([5, 20, 60])
    x += ['step e g F P', 'shift F', 'shift P', 'evolve e g F P %d' % k, say(e='twin', A=['F', 'P', 'e'], B=['F', 'P', 'e'], w=ws, f0='f0', p0='p0', k=1 + k)]
    return x
def sum_script(r, g, th, bh):
    q = par(r, g, [0, r.choice([1, r.uniform(.5, 2)]), 0, 0, r.choice([0, r.uniform(0, 2)]), 0, 0])
    amp = 10.0 ** r.choice([0, 0, -9, -60, 40]); c = r.choice([1.0, -1.0, 3.0, 1e-3, -2e4, 1e8])
    x = ['trace', 'threads %d %d' % th, g.new('g')] + [eom_new(e, 'g', q) for e in 'abd']
    st = [[values(r, g, amp * s), values(r, g, amp * s * r.choice([0, 1]) / g.lo)] for s in (1, 1 / abs(c) if r.random() < .7 else 1)]
    st.append([[u + c * v for u, v in zip(*z)] for z in zip(*st)])
    for o, (f, p) in zip('abd', st):
        for n, v in (('F' + o, f), ('P' + o, p)): x += ['new %s field %d %s' % (n, g.n, hx(0)), 'flevel %s n %s' % (n, vec(v))]
        x += ['fget F%s n f%s' % (o, o), 'fget P%s n p%s' % (o, o)]
    def check(k): return say(e='sum', A=['Fa', 'Pa', 'a'], B=['Fb', 'Pb', 'b'], D=['Fd', 'Pd', 'd'], c=pair(c), f0='fa', p0='pa', g0='fb', q0='pb', k=k)
    z = list('abd'); r.shuffle(z)
    x += ['step %s g F%s P%s' % (o, o, o) for o in z] + [check(1)]
    k = r.randint(2, 12) if not bh else r.choice([3, 12, 40])
    x += ['shift %s%s' % (w, o) for o in z for w in 'FP'] + ['evolve %s g F%s P%s %d' % (o, o, o, k) for o in z] + [check(1 + k)]
    return x
def still_script(r, g, th, bh):
    co = couplings(r)
    zero = r.random() < .5
    if not zero: co[4:] = [0, 0, 0]
    q = par(r, g, co); v = 0.0 if zero else r.choice([.3, -.2, 1e-3, .45])
    x = ['trace', 'threads %d %d' % th, g.new('g'), eom_new('e', 'g', q)]
    for o, w in (('F', v), ('P', 0.0)):
        x += ['new %s field %d %s' % (o, g.n, hx(r.choice([0.0, 7.0]))), 'flevel %s n %s' % (o, vec([w] * g.n))]
    k = r.randint(2, 12) if not bh else r.choice([10, 80, 200])
    x += ['step e g F P', 'shift F', 'shift P', 'evolve e g F P %d' % k, say(e='still', A=['F', 'P', 'e'], v=pair(v), k=1 + k)]
    return x

def c30(c):
    def job(v, flags, n, tag, th, big=.9):
        def gen():
            r = c.rng(tag + name(v)); s = []
            for i in range(n):
                bh = r.random() < .5
                g = grid_shape(r, *v, big=big)
                if bh: g.cl = r.choice([10.0, 20.0, 50.0, 7.0]); rp = r.uniform(1, 2); g.lo, g.up = rp / (1 + rp / g.cl), g.cl
                k = i % 8
                s.append('\n'.join((pair_script if k < 5 else own_script if k == 5 else sum_script if k == 6 else still_script)(r, g, th, bh)))
            return play(full_driver(*v, flags), '\n'.join(s), env=dict(OMP_NUM_THREADS=th[0]))
        return lambda: c.conform('Trace_System', gen, '%s: %s' % (name(v), tag))
    jobs = [lambda: c.model('SymmetryMC', workers=3), lambda: c.refuted('SymmetryMC', 'Symmetry_half.cfg')]
    for v in VARIANTS[:3]: full_driver(*v)
    n = 64 if THOROUGH else 16
    for v in VARIANTS if THOROUGH else VARIANTS[:3]:
        jobs.append(job(v, PROD, n, 'one thread', (1, 1)))
        jobs.append(job(v, PROD, n // 2, 'threads', (4, 3)))
        if THOROUGH: jobs.append(job(v, PROD, 8, 'larger', (8, 3), 1.6))
    for v in VARIANTS[:2]: jobs.append(job(v, DEBUG, n // 2, 'sanitized', (2, 2), .8))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE]

CHECKS = dict(C30=c30)
