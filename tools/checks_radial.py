"""C01-C06: radial operators, decided with spec/Radial.tla."""
from lib import *
from gen import *

def history(r, kind, sizes, ops, length, nobj=2, big=False):
    """a random history: several objects of different sizes and intervals, shared buffers"""
    out = ['trace']
    live, cnt, bufn = {}, 0, {}
    def new():
        nonlocal cnt
        o = 'o%d' % cnt; cnt += 1
        n = r.choice(sizes)
        # now and then the same size (or interval) as an object that is already there
        if live and r.random() < .4: n = r.choice(list(live.values()))[0]
        iv = r.choice(list(live.values()))[1] if live and r.random() < .2 else interval(r)
        if live and r.random() < .3: n, iv = r.choice(list(live.values())); iv = iv_sibling(r, iv)
        live[o] = (n, iv)
        out.append('new %s %s %d %s %s' % (o, kind, n, hx(iv[0]), hx(iv[1])))
    for _ in range(nobj): new()
    for _ in range(length):
        x = r.random()
        if x < .04 and len(live) > 1:
            o = r.choice(list(live)); del live[o]; out.append('del ' + o)
        elif x < .08 and len(live) < 4: new()
        o = r.choice(list(live)); n = live[o][0]
        have = [b for b, m in bufn.items() if m == n]
        if not have or r.random() < .5:
            b = 'b%d' % r.randrange(6)
            out.append('put %s %s' % (b, vec(vector(r, n)))); bufn[b] = n
        else: b = r.choice(have)
        op = r.choice(ops)
        if op == 'filter': out.append('call %s filter %s %s' % (o, b, b))
        else:
            c = r.choice([q for q in ('b0', 'b1', 'b2', 'b3', 'b4', 'b5', 'r0', 'r1') if q != b])
            out.append('call %s %s %s %s' % (o, op, b, c)); bufn[c] = n
            if op == 'topo': bufn.pop(b, None)     # may have been overwritten
    if not big: out.append('look')
    return '\n'.join(out)

def single(r, kind, n, op, vectors, iv=None):
    iv = iv or interval(r)
    out = ['trace', 'new o %s %d %s %s' % (kind, n, hx(iv[0]), hx(iv[1]))]
    for v in vectors:
        out.append('put a ' + vec(v))
        out.append('call o %s a %s' % (op, 'a' if op == 'filter' else 'b'))
    return '\n'.join(out)

def basis(r, n, kind):
    """every unit vector at small n: with linearity this is the whole operator"""
    vs = []
    for i in range(n):
        v = [0.0] * n; v[i] = 1.0; vs.append(v)
    return vs

def radial_check(c, kind, op, exe=None):
    main_op = op
    minn = {'fd': 9, 'cheb': 5 if op == 'der' else 3}[kind]
    other = {'fd': ['der', 'der2', 'filter'], 'cheb': ['der', 'filter', 'toch', 'topo']}[kind]
    ops = [op] if isinstance(op, str) else list(op)
    def g_units():
        r = c.rng('units')
        s = []
        for n in list(range(minn, 27)) + [32, 33]:
            for o in ops: s.append(single(r, kind, n, o, basis(r, n, kind)))
        return play(radial_driver(), '\n'.join(s))
    def sizes(k, of):
        r = c.rng('sizes%d' % k)
        s = []
        top = 700 if THOROUGH else (260 if kind == 'fd' else 130)
        for n in range(minn + k, top, of):
            for o in ops: s.append(single(r, kind, n, o, [vector(r, n), vector(r, n)]))
        return play(radial_driver(), '\n'.join(s))
    def g_sizes0(): return sizes(0, 3)
    def g_sizes1(): return sizes(1, 3)
    def g_sizes2(): return sizes(2, 3)
    def bigs(k, of):
        r = c.rng('big%d' % k)
        s = []
        sizes = [511, 512, 513, 1000, 1023, 1025, 2048, 2049, 4097, 8193] if kind == 'fd' else [160, 192, 200, 255, 256, 257, 321, 385, 512, 513]
        if THOROUGH: sizes += [3000, 5000, 8191, 8192, 16385] if kind == 'fd' else [640, 769, 1000, 1024, 1025, 2049]
        for n in sizes[k::of]:
            for o in ops: s.append(single(r, kind, n, o, [vector(r, n, q) for q in ([r.choice(['normal', 'smooth', 'wide', 'offset', 'edge'])] + (['inner', 'ring'] if kind == 'fd' else [r.choice(['inner', 'ring'])]))]))
        return play(radial_driver(), '\n'.join(s))
    def g_big0(): return bigs(0, 2)
    def g_big1(): return bigs(1, 2)
    def g_kinds():
        r = c.rng('kinds')
        s = []
        for n in [minn, minn + 1, 17, 24, 33, 48, 65]:
            vs = [vector(r, n, k) for k in ['const', 'alt', 'spike', 'edge', 'step', 'tiny', 'huge', 'wide', 'zero', 'sparse', 'offset', 'mono', 'dup', 'poly', 'smooth', 'inner', 'ring']]
            for iv in [(-1.0, 1.0), interval(r), interval(r)]:
                for o in ops: s.append(single(r, kind, n, o, vs, iv))
        return play(radial_driver(), '\n'.join(s))
    def g_hist():
        r = c.rng('hist')
        s = []
        for i in range(60 if THOROUGH else 16):
            s.append(history(r, kind, [minn, minn + 1, minn + 2, 16, 17, 20, 33], ops * 3 + other, 25, nobj=3))
        s.append(history(r, kind, [minn, 12, 15], ops * 3 + other, 2500 if THOROUGH else 700, nobj=3))
        return play(radial_driver(), '\n'.join(s))
    def g_kin():          # objects that share all but one thing, each call on one after the other, from the start of a process
        r = c.rng('kin')
        s = []
        for i in range(60 if THOROUGH else 12):
            n, iv = r.choice([minn, minn + 1, 16, 17, 33]), interval(r)
            obs = [(n, iv), (n, (iv[0], iv[0] + 2 * (iv[1] - iv[0]))), (n, (iv[1] - 3 * (iv[1] - iv[0]), iv[1])), (n, (iv[0] + 1, iv[1] + 1)), (n + 1, iv), (n, iv_sibling(r, iv))]
            if r.random() < .5: r.shuffle(obs)
            x = ['trace'] + ['new o%d %s %d %s %s' % (j, kind, q[0], hx(q[1][0]), hx(q[1][1])) for j, q in enumerate(obs)]
            for o in ops:
                v = vector(r, n)
                for j, q in enumerate(obs): x += ['put a%d ' % j + vec(v if q[0] == n else v + [.5]), 'call o%d %s a%d %s' % (j, o, j, 'a%d' % j if o == 'filter' else 'b%d' % j)]
            s.append('\n'.join(x))
        return play(radial_driver(), '\n'.join(s))
    def g_debug():
        r = c.rng('debug')
        s = []
        for n in range(minn, 41):
            for o in ops: s.append(single(r, kind, n, o, [vector(r, n)]))
        for i in range(4): s.append(history(r, kind, [minn, minn + 1, minn + 3, 16, 21], ops * 2 + other, 25, nobj=3))
        return play(radial_driver(DEBUG), '\n'.join(s))
    jobs = [lambda: c.model('FiniteDiffMC' if kind == 'fd' else 'ChebyshevMC')]
    radial_driver()
    for g in (g_sizes0, g_sizes1, g_sizes2, g_big0, g_big1, g_units, g_kinds, g_hist, g_kin, g_debug):
        jobs.append(lambda g=g: c.conform('Trace_Radial', g, g.__name__[2:]))
    c.parallel(*jobs, width=8)
    c.assumptions += ['IEEE-754 double arithmetic of the Java virtual machine evaluates module F64']

def c06(c):
    def gen(kind, k, of):
        r = c.rng('pts%s%d' % (kind, k))
        s = []
        if True:
            ns = list(range(9, 140)) + ([255, 256, 257, 1025, 8193] if kind == 'fd' else [255, 256, 257, 512, 513, 1000, 1025])
            if THOROUGH: ns += list(range(140, 700))
            for n in ns[k::of]:
                iv = interval(r)
                s.append('trace\nnew o %s %d %s %s\npts o' % (kind, n, hx(iv[0]), hx(iv[1])))
            for i in range(30):
                out = ['trace']; live = []
                for j in range(6):
                    iv = interval(r) if j % 2 or not live else live[-1][1]
                    if j > 2 and r.random() < .6: n, iv = r.choice(live); iv = iv_sibling(r, iv)
                    else: n = r.choice([9, 10, 16, 33]); live.append((n, iv))
                    out.append('new o%d %s %d %s %s' % (j, kind, n, hx(iv[0]), hx(iv[1])))
                    out.append('pts o%d' % r.randrange(j + 1))
                for j in range(6): out.append('pts o%d' % j)
                s.append('\n'.join(out))
        return play(radial_driver(), '\n'.join(s))
    radial_driver()
    jobs = [lambda: c.model('ChebyshevMC')]
    for kind, k, of in [('cheb', 0, 3), ('cheb', 1, 3), ('cheb', 2, 3), ('fd', 0, 1)]:
        jobs.append(lambda kind=kind, k=k, of=of: c.conform('Trace_Radial', lambda: gen(kind, k, of), 'points of %s (%d)' % (kind, k)))
    c.parallel(*jobs, width=6)

CHECKS = {
    'C01': lambda c: radial_check(c, 'fd', ('der', 'der2')),
    'C02': lambda c: radial_check(c, 'fd', 'filter'),
    'C03': lambda c: radial_check(c, 'cheb', ('toch', 'topo')),
    'C04': lambda c: radial_check(c, 'cheb', 'der'),
    'C05': lambda c: radial_check(c, 'cheb', 'filter'),
    'C06': c06,
}
