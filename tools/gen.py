"""Inputs: vectors of many shapes, intervals, sizes."""
import math
from lib import hx, vec

def vector(r, n, kind=None):
    kinds = ['normal', 'uniform', 'smooth', 'poly', 'const', 'alt', 'spike', 'edge', 'step', 'tiny', 'huge', 'wide', 'zero', 'sparse', 'offset', 'mono', 'dup', 'inner', 'ring']
    k = kind or r.choice(kinds)
    if n == 0: return []
    if k == 'normal': return [r.gauss(0, 1) for _ in range(n)]
    if k == 'uniform': return [r.uniform(-1, 1) for _ in range(n)]
    if k == 'smooth':
        a, b, c = r.uniform(0.5, 12), r.uniform(0, 7), r.uniform(-2, 2)
        return [math.exp(c * i / n) * math.sin(a * i / n + b) for i in range(n)]
    if k == 'poly':
        d = r.randint(0, 9); co = [r.uniform(-1, 1) for _ in range(d + 1)]
        return [sum(q * (2 * i / max(1, n - 1) - 1) ** j for j, q in enumerate(co)) for i in range(n)]
    if k == 'const': return [r.choice([1.0, -1.0, 3.25, 1e-7, -4e9, r.gauss(0, 1)])] * n
    if k == 'alt':
        a = r.choice([1.0, r.uniform(0.1, 9)]); return [a * (-1) ** i for i in range(n)]
    if k == 'spike':
        v = [0.0] * n; v[r.randrange(n)] = r.choice([1.0, -1.0, r.gauss(0, 3)]); return v
    if k == 'edge':
        v = [0.0] * n
        for i in range(min(9, n)): v[i if r.random() < .5 else n - 1 - i] = r.gauss(0, 1)
        return v
    if k == 'step':
        j = r.randrange(n); return [0.0 if i < j else 1.0 for i in range(n)]
    if k == 'tiny':
        s = 10.0 ** r.randint(-250, -12); return [s * r.gauss(0, 1) for _ in range(n)]
    if k == 'huge':
        s = 10.0 ** r.randint(6, 120); return [s * r.gauss(0, 1) for _ in range(n)]
    if k == 'wide': return [r.gauss(0, 1) * 10.0 ** r.randint(-12, 12) for _ in range(n)]
    if k == 'zero': return [0.0] * n
    if k == 'sparse': return [r.gauss(0, 1) if r.random() < 0.1 else 0.0 for _ in range(n)]
    if k == 'offset':
        c = r.choice([1.0, 1e3, -1e6, 1e9]); return [c + r.gauss(0, 1) for _ in range(n)]
    if k == 'mono':
        x, v = r.gauss(0, 1), []
        for _ in range(n): v.append(x); x += abs(r.gauss(0, 1))
        return v if r.random() < .5 else [-y for y in v]
    if k == 'dup':
        a, b = r.gauss(0, 1), r.gauss(0, 1); return [a if r.random() < .5 else b for _ in range(n)]
    if k == 'inner':      # a pulse: nothing near the ends
        a = r.randint(0, n // 3); b = r.randint(2 * n // 3, n); q = r.uniform(.5, 9); s = r.choice([1.0, -1.0, 1e-5])
        return [s * math.exp(-1 / (i - a) / (b - i)) * math.sin(q * i / n + 1) if a < i < b else 0.0 for i in range(n)]
    if k == 'ring':       # the same values at both ends
        v = vector(r, n, r.choice(['normal', 'smooth', 'uniform'])); m = r.choice([1, 1, 2, 4])
        for i in range(min(m, n // 2)): v[n - 1 - i] = v[i]
        return v
    raise ValueError(k)

def interval(r):
    k = r.randrange(9)
    if k == 0: return (-1.0, 1.0)
    if k == 1: return (0.0, 1.0)
    if k == 2: return (r.uniform(0.5, 2.5), 20.0)
    if k == 3:
        a = r.uniform(-50, 50); return (a, a + r.uniform(1e-3, 100))
    if k == 4:
        a = r.uniform(-3, 3); return (a, a + 10.0 ** r.uniform(-4, 0))
    if k == 5: return (-r.uniform(5, 80), -r.uniform(0.01, 4))
    if k == 6: return (0.0, 10.0 ** r.randint(-3, 6))
    if k == 7: return (float(r.randint(-9, 0)), float(r.randint(1, 9)))
    return (1.0, 2.0)

# --------------------------------------------------------------------------
# the sphere
_gl = {}
def gauss_nodes(n):
    if n not in _gl:
        xs = []
        for j in range(n):
            x = math.cos(math.pi * (j + .75) / (n + .5))
            for _ in range(60):
                p0, p1 = 1.0, x
                for k in range(2, n + 1): p0, p1 = p1, ((2 * k - 1) * x * p1 - (k - 1) * p0) / k
                if n == 1: p0, p1 = 1.0, x
                d = n * (x * p1 - p0) / (x * x - 1)
                x, o = x - p1 / d, x
                if abs(x - o) < 1e-17: break
            xs.append(x)
        _gl[n] = xs
    return _gl[n]
def legendre(l, m, x):
    """orthonormal P_l^m with Condon-Shortley phase"""
    s = math.sqrt(max(0.0, 1 - x * x))
    p = math.sqrt(1 / (4 * math.pi))
    for k in range(1, m + 1): p *= -math.sqrt((2 * k + 1) / (2 * k)) * s
    q = 0.0
    for k in range(m + 1, l + 1):
        a = math.sqrt((4 * k * k - 1) / (k * k - m * m))
        b = math.sqrt(((k - 1) ** 2 - m * m) / (4 * (k - 1) ** 2 - 1)) if k - 1 > m else 0.0
        p, q = a * (x * p - b * q), p
    return p
class Sph:
    def __init__(self, nl, nm, nlat, nphi, contig):
        self.nl, self.nm, self.nlat, self.nphi, self.contig = nl, nm, nlat, nphi, contig
        self.n = nlat * nphi
    def modes(self): return [(l, m) for m in range(self.nm + 1) for l in range(m, self.nl + 1)]
    def ladder(self): return [(l, m) for (l, m) in self.modes() if m + 1 <= self.nm or m == l]
    def at(self, it, ip): return self.nlat * ip + it if self.contig else self.nphi * it + ip
    def field(self, co):
        """the field with real-part/imaginary-part coefficients co[(l,m)]"""
        v = [0.0] * self.n
        x = gauss_nodes(self.nlat)
        for (l, m), (a, b) in co.items():
            p = [legendre(l, m, y) for y in x]
            for ip in range(self.nphi):
                w = 2 * math.pi * ip / self.nphi
                f = a if m == 0 else 2 * (a * math.cos(m * w) - b * math.sin(m * w))
                for it in range(self.nlat): v[self.at(it, ip)] += f * p[it]
        return v
    def random(self, r, modes, k=None):
        """a random combination of (some of) the modes"""
        ms = list(modes)
        if k is None: k = r.choice([1, 2, len(ms), len(ms), len(ms)])
        ms = r.sample(ms, min(k, len(ms)))
        s = 10.0 ** r.choice([0, 0, 0, 0, -8, 5, -100, 60])
        return self.field({m: (s * r.gauss(0, 1), s * r.gauss(0, 1)) for m in ms})
def sph_shape(r, top=9):
    nl = r.randint(1, top)
    nm = r.choice([nl, nl, r.randint(0, nl), max(0, nl - 1)])
    nlat = nl + 1 + r.choice([0, 0, 1, r.randint(0, 6)])
    nphi = 2 * nm + 1 + r.choice([0, 0, 1, r.randint(0, 7)])
    return nl, nm, nlat, nphi

# --------------------------------------------------------------------------
# the 3d grid
class Grd:
    def __init__(self, cl, lo, up, n, nl, nm, nlat, nphi, cheb, contig):
        self.cl, self.lo, self.up, self.nx = cl, lo, up, n
        self.s = Sph(nl, nm, nlat, nphi, contig)
        self.nl, self.nm, self.nlat, self.nphi, self.cheb, self.contig = nl, nm, nlat, nphi, cheb, contig
        self.n2 = nlat * nphi; self.n = n * self.n2
    def new(self, o='g'):
        return 'new %s grid %s %s %s %d %d %d %d %d' % (o, hx(self.cl), hx(self.lo), hx(self.up), self.nx, self.nl, self.nm, self.nlat, self.nphi)
    def ladder(self, r, smooth=False):
        """a field whose shells hold ladder modes only"""
        out, ms = [], self.s.ladder()
        base = [self.s.field({q: (r.gauss(0, 1), r.gauss(0, 1))}) for q in r.sample(ms, min(len(ms), r.choice([1, 2, 3, len(ms)])))]
        prof = [vector(r, self.nx, 'smooth' if smooth else r.choice(['normal', 'smooth', 'poly', 'spike'])) for _ in base]
        for ix in range(self.nx): out += [sum(p[ix] * b[i] for p, b in zip(prof, base)) for i in range(self.n2)]
        return out
    def band(self, r, amp=1.0, modes=None, radial='smooth'):
        out, ms = [], modes or self.s.modes()
        base = [self.s.field({q: (r.gauss(0, 1), r.gauss(0, 1))}) for q in r.sample(ms, min(len(ms), r.choice([1, 2, 4, len(ms)])))]
        prof = [vector(r, self.nx, radial) for _ in base]
        for ix in range(self.nx): out += [sum(p[ix] * b[i] for p, b in zip(prof, base)) for i in range(self.n2)]
        m = max(map(abs, out)) or 1.0
        return [amp * v / m for v in out]
    def any(self, r):
        k = r.random()
        if k < .35: return vector(r, self.n, r.choice(['normal', 'uniform', 'spike', 'sparse', 'const', 'offset', 'tiny', 'huge', 'dup']))
        if k < .6: return self.band(r, 10.0 ** r.choice([0, 0, -3, 4]), radial=r.choice(['normal', 'smooth', 'poly', 'wide', 'alt', 'edge']))
        if k < .8:      # different magnitudes on different shells
            return [x * 10.0 ** e for e in [r.randint(-9, 9) for _ in range(self.nx)] for x in vector(r, self.n2, 'normal')]
        return [x for _ in range(self.nx) for x in vector(r, self.n2)]

def domain(r):
    """compactification length and interval"""
    k = r.randrange(8)
    if k == 6:      # an outer edge just inside infinity
        cl = r.choice([.1, 1.0, 10.0, 20.0]); return cl, cl * r.uniform(.1, .5), cl * (1 - 10.0 ** r.uniform(-10, -1.5))
    if k == 7:      # a small compactification length: many points close to infinity
        cl = 10.0 ** r.uniform(-4, 0); return cl, cl * r.uniform(.2, .7), cl
    if k == 0:      # as the launcher does it
        m = r.choice([0.5, 1.0, 2.0]); a = r.uniform(0, 1) * m; rp = m + math.sqrt(m * m - a * a); cl = r.choice([10.0, 20.0, 50.0, 100.0])
        return cl, rp / (1 + rp / cl), cl
    if k == 1: cl = r.uniform(5, 200); lo = r.uniform(0.3, 3); return cl, lo, r.uniform(lo + 1, cl)
    if k == 2: cl = 10.0 ** r.uniform(0, 3); return cl, cl * r.uniform(.01, .4), cl
    if k == 3: return 100.0, r.uniform(.5, 5), r.uniform(6, 100)
    if k == 4: return 1.0, r.uniform(.05, .3), 1.0
    return r.choice([7.0, 33.3, 48.0]), r.uniform(.5, 2.5), 5.0

def grid_shape(r, cheb, contig, big=1.0, nxs=None):
    k = 1 if nxs else r.random()
    if k < .12: nl, nm, nlat, nphi = sph_shape(r, 2); nx = r.randint(15, int(64 * max(1, big)))      # long and thin
    elif k < .24: nl, nm, nlat, nphi = sph_shape(r, int(10 * max(.8, big))); nx = r.randint(9, 10)       # short and wide
    elif k < .32:       # far more angles than modes
        nl, nm, nlat, nphi = sph_shape(r, 3); nx = r.randint(9, 10)
        if r.random() < .6: nphi = r.randint(24, int(90 * max(.8, big)))
        else: nlat = r.randint(16, int(40 * max(.8, big)))
    else:
        nl, nm, nlat, nphi = sph_shape(r, max(2, int(4 * big)))
        nx = r.choice(nxs) if nxs else r.randint(9, int(14 * big))
    return Grd(*domain(r), nx, nl, nm, nlat, nphi, cheb, contig)
def long_shape(r, cheb, contig, points=0):
    """hundreds of shells of a small sphere; points: at least that many grid points"""
    nl, nm, nlat, nphi = sph_shape(r, 1)
    nx = r.randint(132, 200) if cheb else r.randint(260, 700)
    while nx * nlat * nphi < points:
        if r.random() < .5: nphi += 1
        elif nlat < nphi: nlat += 1
        else: nx += nx // 7
    return Grd(*domain(r), nx, nl, nm, nlat, nphi, cheb, contig)
def huge_shape(r, cheb, contig, labels=False):
    """a grid with more points (or, labels, more radius-and-l pairs) than 16 bits count"""
    if labels: return Grd(*domain(r), r.randint(1500, 1800), 45, 1, 46, 3, cheb, contig)
    g = long_shape(r, cheb, contig, points=r.choice([66000, 70000, 132000]))
    return g
def small_shape(r, cheb, contig):
    nl = r.choice([1, 1, 2]); nm = r.randint(0, nl)
    return Grd(*domain(r), 9, nl, nm, nl + 1, 2 * nm + 1 + r.randint(0, 1), cheb, contig)
def wide_labels(r, cheb, contig):
    """more angular modes than radial points"""
    nl = r.randint(10, 14); nm = r.choice([0, 1, 2, nl])
    return Grd(*domain(r), 9, nl, nm, nl + 1 + r.randint(0, 1), 2 * nm + 1 + r.randint(0, 1), cheb, contig)
def iv_sibling(r, iv):
    """an interval that shares one thing with the given one"""
    a, b = iv; k = r.randrange(5)
    if k == 0: return (a, a + (b - a) * r.uniform(.2, 3))
    if k == 1: return (b - (b - a) * r.uniform(.2, 3), b)
    if k == 2: d = (b - a) * r.choice([1, 2, -1, r.uniform(-3, 3)]); return (a + d, b + d)
    if k == 3: d = (b - a) * r.uniform(-.4, 1); return (a - d, b + d)
    return (-b, -a)
def sph_sibling(r, q, k=None):
    nl, nm, nlat, nphi = q
    k = k or r.choice(['nl', 'nm', 'nlat', 'nphi', 'turn'])
    if k == 'nl': return (nl - 1, nm, nlat, nphi) if nl > max(1, nm) and r.random() < .6 else (nl + 1, nm, nlat + 1, nphi) if nl + 2 > nlat else (nl + 1, nm, nlat, nphi)
    if k == 'nm' and nm > 0: return nl, nm - 1, nlat, nphi
    if k == 'nm' and nm < nl: return nl, nm + 1, nlat, max(nphi, 2 * nm + 3)
    if k == 'turn' and nphi > nl and nlat > 2 * nm: return nl, nm, nphi, nlat
    return (nl, nm, nlat + r.choice([1, 2]), nphi) if k == 'nlat' else (nl, nm, nlat, nphi + r.choice([1, 2]))
KIN = ['up', 'lo', 'cl', 'nx', 'nl', 'nm', 'nlat', 'nphi', 'turn', 'scale']
def sibling(r, g, k=None):
    """a grid that differs in one thing only"""
    a = [g.cl, g.lo, g.up, g.nx, g.nl, g.nm, g.nlat, g.nphi]
    k = k or r.choice(KIN)
    if k == 'up': a[2] = a[1] + (a[2] - a[1]) * r.uniform(.3, .9)
    elif k == 'lo': a[1] = a[1] + (a[2] - a[1]) * r.uniform(.05, .5)
    elif k == 'cl': a[0] = a[0] * r.uniform(1.05, 3)
    elif k == 'nx': a[3] += r.choice([1, 2, 3])
    elif k == 'nl' and a[4] > max(1, a[5]) and r.random() < .6: a[4] -= 1
    elif k == 'nl' and a[4] + 2 <= a[6]: a[4] += 1
    elif k == 'nm' and a[5] > 0: a[5] -= 1
    elif k == 'nlat': a[6] += r.choice([1, 2])
    elif k == 'nphi': a[7] += r.choice([1, 2])
    elif k == 'turn' and a[6] != a[7] and a[7] > a[4] and a[6] > 2 * a[5]: a[6], a[7] = a[7], a[6]     # as many points in all
    else: c = r.choice([.5, 2.0, r.uniform(.3, 3)]); a[:3] = [c * q for q in a[:3]]
    return Grd(*a, g.cheb, g.contig)
