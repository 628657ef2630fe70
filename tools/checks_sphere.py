"""C07-C09: operators on the sphere, decided with spec/System.tla."""
from lib import *
from gen import *

VARIANTS = [(True, True), (False, True), (False, False), (True, False)]     # (cheb, contig)

def hdr(s): return ['trace', 'new o sphere %d %d %d %d' % (s.nl, s.nm, s.nlat, s.nphi)]
def complete_modes(s): return s.modes()

def one(r, s, op, a, b, o='o'):
    """lines for one call of op on a fresh argument"""
    if op == 'tosph':
        c = []
        for m in range(s.nm + 1):
            for l in range(m, s.nl + 1): c += [r.gauss(0, 1), 0.0 if m == 0 else r.gauss(0, 1)]
        return ['put %s %s' % (a, vec(c)), 'call %s tosph %s %s' % (o, a, b)]
    if op == 'ctosph':
        c = []
        for l in range(s.nl + 1):
            for m in range(-l, l + 1): c += [r.gauss(0, 1), r.gauss(0, 1)] if abs(m) <= s.nm else [0.0, 0.0]
        return ['put %s %s' % (a, vec(c)), 'call %s ctosph %s %s' % (o, a, b)]
    if op == 'ctoylm':
        v = vector(r, 2 * s.n)
        return ['put %s %s' % (a, vec(v)), 'call %s ctoylm %s %s %d' % (o, a, b, (s.nl + 1) ** 2)]
    if op in ('raise', 'lower', 'X'): v = s.random(r, s.ladder())
    else: v = vector(r, s.n) if r.random() < .6 else s.random(r, s.modes())
    x = ['put %s %s' % (a, vec(v))]
    if op == 'filter': return x + ['call %s filter %s %s' % (o, a, a)]
    if op == 'power': return x + ['call %s power %s %s %d' % (o, a, b, s.nl)]
    return x + ['call %s %s %s %s' % (o, op, a, b)]

def shapes(r, n, contig, top=9, fixed=()):
    out = [Sph(*q, contig) for q in fixed]
    while len(out) < n: out.append(Sph(*sph_shape(r, top), contig))
    return out
FIXED = [(1, 0, 2, 1), (1, 1, 2, 3), (2, 1, 3, 4), (2, 2, 4, 5), (3, 3, 4, 7), (4, 2, 5, 6), (6, 6, 8, 14), (5, 3, 9, 8), (3, 3, 7, 7), (4, 4, 6, 16)]

def units(r, s, op):
    """every resolved mode on its own, both phases"""
    out = hdr(s)
    ms = s.ladder() if op in ('raise', 'lower', 'X') else s.modes()
    for q in ms:
        for ph in ([(1.0, 0.0), (0.0, 1.0)] if q[1] else [(1.0, 0.0)]):
            a = 'a' if r.random() < .5 else 'c'
            out.append('put %s %s' % (a, vec(s.field({q: ph}))))
            out.append({'filter': 'call o filter %s %s' % (a, a), 'power': 'call o power %s b %d' % (a, s.nl)}.get(op, 'call o %s %s b' % (op, a)))
    return '\n'.join(out)

def sphere_check(c, ops, unit_ops=None, points=False, unit_top=7):
    unit_ops = unit_ops or ops
    def jobs_for(cheb, contig, flags, tag, n, top):
        def gen():
            r = c.rng(tag)
            s = []
            for sp in shapes(r, n, contig, top, FIXED if flags is PROD else FIXED[:6]):
                x = hdr(sp)
                if points: x.append('pts o')
                for op in ops:
                    for _ in range(2): x += one(r, sp, op, r.choice(['a', 'a2']), r.choice(['b', 'b2', 'b3']))
                if points:
                    for _ in range(4):
                        m = r.choice([0, sp.nm, r.randint(0, sp.nm)]); l = r.choice([m, sp.nl, r.randint(m, sp.nl)])
                        x.append('ylm o %d %d y' % (l, m))
                x.append('look')
                s.append('\n'.join(x))
            # spheres that differ in one thing only, each call on one after the other
            kin = []
            for i in range(4 if flags is PROD else 1):
                q = sph_shape(r, 4); sp = [q] + [sph_sibling(r, q, k) for k in r.sample(['nl', 'nm', 'nlat', 'nphi', 'turn'], 5)]
                sp = [Sph(*q, contig) for q in sp]
                x = ['trace'] + ['new s%d sphere %d %d %d %d' % (k, p.nl, p.nm, p.nlat, p.nphi) for k, p in enumerate(sp)]
                for op in ops:
                    for k, p in enumerate(sp): x += one(r, p, op, 'a%d' % k, 'b', 's%d' % k)
                if points: x += [z for k in range(len(sp)) for z in ('pts s%d' % k, 'ylm s%d %d %d y' % (k, sp[k].nm, sp[k].nm))]
                kin.append('\n'.join(x))
            s = kin + s
            # several spheres alive at the same time
            for _ in range(6 if flags is PROD else 2):
                live, x, k = {}, ['trace'], 0
                for _ in range(14):
                    if len(live) < 2 or r.random() < .25:
                        sp = Sph(*sph_shape(r, min(top, 6)), contig) if not live or r.random() < .6 else r.choice(list(live.values()))
                        k += 1; live['s%d' % k] = sp
                        x.append('new s%d sphere %d %d %d %d' % (k, sp.nl, sp.nm, sp.nlat, sp.nphi))
                    elif len(live) > 2 and r.random() < .3:
                        o = r.choice(list(live)); del live[o]; x.append('del ' + o)
                    o = r.choice(list(live))
                    x += one(r, live[o], r.choice(ops), 'a', 'b%d' % r.randrange(3), o)
                s.append('\n'.join(x))
            return play(full_driver(cheb, contig, flags), '\n'.join(s))
        return lambda: c.conform('Trace_System', gen, tag)
    def unit_job(cheb, contig, tag):
        def gen():
            r = c.rng('u' + tag)
            s = []
            top = 12 if THOROUGH else unit_top
            for nl in range(1, top + 1):
                for nm in sorted({0, nl // 2, nl - 1, nl}):
                    if r.random() < (1 if THOROUGH or nl < 4 else .5):
                        sp = Sph(nl, nm, nl + 1 + r.randint(0, 2), 2 * nm + 1 + r.randint(0, 3), contig)
                        for op in unit_ops: s.append(units(r, sp, op))
            return play(full_driver(cheb, contig), '\n'.join(s))
        return lambda: c.conform('Trace_System', gen, 'each mode ' + tag)
    jobs = [lambda: c.model('SphereMC')]
    big = 32 if THOROUGH else 11
    jobs.append(jobs_for(True, True, PROD, 'shapes, theta fastest', 70 if THOROUGH else 22, big))
    jobs.append(jobs_for(False, False, PROD, 'shapes, phi fastest', 70 if THOROUGH else 22, big))
    jobs.append(jobs_for(True, True, DEBUG, 'shapes, theta fastest, sanitized', 24 if THOROUGH else 8, 5))
    jobs.append(jobs_for(False, False, DEBUG, 'shapes, phi fastest, sanitized', 24 if THOROUGH else 8, 5))
    jobs.append(unit_job(True, True, 'theta fastest'))
    jobs.append(unit_job(False, False, 'phi fastest'))
    def deep(contig, tag):
        def gen():
            r = c.rng('deep' + tag)
            s = []
            for q in [(16, 16, 20, 36), (24, 8, 25, 17), (20, 20, 22, 48)] + ([(48, 48, 50, 98), (32, 16, 64, 40)] if THOROUGH else []):
                sp = Sph(*q, contig)
                x = hdr(sp)
                for op in ops: x += one(r, sp, op, 'a', 'b')
                s.append('\n'.join(x))
            return play(full_driver(contig, contig), '\n'.join(s))
        return lambda: c.conform('Trace_System', gen, 'large ' + tag)
    jobs.append(deep(True, 'theta fastest')); jobs.append(deep(False, 'phi fastest'))
    c.parallel(*jobs, width=8)
    c.assumptions += ['SHTns is not installed: its documented interface is provided by harness/shtns (direct sums), and what SHTns does inside is not examined',
                      'IEEE-754 double arithmetic of the Java virtual machine evaluates module F64']

CHECKS = {
    'C07': lambda c: sphere_check(c, ['toylm', 'tosph', 'ctoylm', 'ctosph'], ['toylm'], points=True),
    'C08': lambda c: sphere_check(c, ['lap', 'dphi', 'raise', 'lower', 'X']),
    'C09': lambda c: sphere_check(c, ['filter', 'power']),
}
