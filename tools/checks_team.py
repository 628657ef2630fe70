"""C26: parallel regions.  The real code runs on the checking OpenMP runtime of harness/team."""
from lib import *
from gen import *
from checks_grid import VARIANTS, STANDIN, F64NOTE, name, op_lines
from checks_evolve import eom_par, eom_new, state, bh_grid
from checks_run import params_text, pulse_for

def regions(log):
    """the traces of a log, each one once"""
    out, seen, cur = [], set(), None
    def close():
        if cur:
            k = json.dumps([{x: y for x, y in e.items() if x not in ('alone', 'cells')} for e in cur])
            if k not in seen: seen.add(k); out.append(cur)
    if os.path.exists(log):
        for line in open(log):
            if line.startswith('#region'): close(); cur = []
            elif line.endswith('}\n'): cur.append(json.loads(line))
    close()
    return out
def with_log(f):
    d = scratch_dir('team'); log = os.path.join(d, 'log')
    r = f(log)
    rs = regions(log) or [[dict(e='begin', alone=0, cells=[])]]     # no team had two members
    shutil.rmtree(d)
    return r, rs
SIZES = [(1, 1, 0), (40, 1, 0), (40, 2, 2), (3, 3, 1), (2, 2, 2), (5, 1, 2), (9, 2, 0), (130, 1, 1), (1, 2, 0)]
def script(r, v, reps, big=.7):
    """everything there is to call, with the same arguments under several teams and schedules"""
    g = bh_grid(r, v, big)
    while g.nphi < 2 or g.nlat < 2 or g.n > 420: g = bh_grid(r, v, big)
    q = eom_par(r, g)
    x = ['trace', 'threads 1 1', g.new(), eom_new('e', 'g', q), 'new F field %d %s' % (g.n, hx(0)), 'new P field %d %s' % (g.n, hx(0))]
    ops = ['dR', 'dr', 'ddr', 'dphi', 'lap', 'X', 'filter', 'power'] + ['nl'] * v[0]
    work = [op_lines(r, g, op) for op in ops]
    dr, amp, rl, ru, l, m = pulse_for(r, g)
    work.append(['id g %s %s %s %s %d %d f p' % (dr, hx(amp), hx(rl), hx(ru), l, m)])
    work.append(['put u %s' % vec(state(r, g, .2)), 'put w %s' % vec(state(r, g, .3)), 'setk e g u w fk pk', 'rho e g u w rho'])
    work.append(['put d1 ' + vec(g.any(r)), 'put d2 ' + vec(g.any(r)), 'put d3 ' + vec(g.any(r)), 'tv g d1', 'res g %s d1 d2 d3' % hx(.25)])
    s1, s2 = vec(state(r, g, .2)), vec(state(r, g, .2))
    work.append(['flevel F n ' + s1, 'flevel P n ' + s2, 'step e g F P', 'flook F', 'shift F', 'shift P', 'flook F', 'step e g F P', 'flook P'])
    work.append(['ylm g %d %d y' % r.choice(g.s.modes())])
    for k, (n, lv, mode) in enumerate(reps):
        x += ['threads %d %d' % (n, lv), 'mode %d %d' % (mode, r.randint(1, 10 ** 9))]
        r.shuffle(work)
        for w in work: x += w
        x += ['put o ' + vec(g.band(r)), 'call g power o os', 'csv RPsl g f%d 1 3 o os' % k, 'csv XYZ g x%d 1 3 o os %s' % (k, ' '.join(map(hx, [0.0, 1e9, 0.0, g.up]))), 'csv plain g v%d 0 1 o os' % k]
        if v[0]: x += ['call g nl o os', 'csv NPsl g n%d 1 3 o os' % k]
        if k == len(reps) - 1: x.append('files')
    return '\n'.join(x + ['look'])
def c26(c):
    def players(v, n, tag, reps):
        def once(log):
            r = c.rng(tag + name(v))
            s = [script(r, v, [SIZES[0]] + r.sample(SIZES[1:3], 1) + r.sample(SIZES[3:], reps - 2)) for _ in range(n)]
            return play(team_build(*v), '\n'.join(s), env=dict(OMP_NUM_THREADS=1, TEAM_LOG=log))
        def crash(ts): return [t[-1:] for t in ts if t and t[-1]['e'] == 'crash']
        def footprints():
            ts, rs = with_log(once)
            return rs + crash(ts)
        def values(): return with_log(once)[0]
        return [lambda: c.conform('Trace_Team', footprints, '%s: %s' % (name(v), tag)),
                lambda: c.conform('Trace_Threads', values, '%s: %s' % (name(v), tag)),
                lambda: c.conform('Trace_System', values, '%s: %s' % (name(v), tag))]
    def programs(v, n, tag):
        def gen():
            r = c.rng(tag + name(v)); out = []
            for _ in range(n):
                g = bh_grid(r, v, .7)
                while g.nphi < 2 or g.nlat < 2 or g.n > 420: g = bh_grid(r, v, .7)
                g.cl = 20.0; g.lo, g.up = 1.5 / (1 + 1.5 / g.cl), g.cl
                q = eom_par(r, g); q[0] = .003
                nt, sv = r.choice([(4, 1), (5, 2), (3, 1)])
                text = params_text(r, q, g, nt, sv, pulse_for(r, g)); size = SIZES[1 + r.randrange(len(SIZES) - 1)] if out else r.choice(SIZES[1:-1])
                def go(log):
                    d = scratch_dir('prog')
                    with open(os.path.join(d, 'p.txt'), 'w') as h: h.write(text)
                    e = dict(os.environ, OMP_NUM_THREADS=str(size[0]), OMP_MAX_ACTIVE_LEVELS=str(size[1]), TEAM_MODE=str(size[2]), TEAM_SEED=str(r.randint(1, 10 ** 9)), TEAM_LOG=log)
                    p = subprocess.run([team_build(*v, main=True), 'p.txt', '.'], cwd=d, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
                    shutil.rmtree(d)
                    return p
                p, rs = with_log(go)
                out += rs
                if p.returncode: out.append([dict(e='crash', how='the program ended with status %d' % p.returncode, said=p.stdout.decode(errors='replace')[-200:])])
            return out
        return lambda: c.conform('Trace_Team', gen, '%s: %s' % (name(v), tag))
    vs = VARIANTS if THOROUGH else VARIANTS[:3]
    for v in vs: team_build(*v); team_build(*v, main=True)
    jobs = [lambda: c.model('TeamMC'), lambda: c.model('TeamMC', 'TeamTreeMC.cfg'), lambda: c.model('TeamMC', 'TeamBarrierMC.cfg')]
    for v in vs:
        jobs += players(v, 8 if THOROUGH else 1, 'calls', 4)
        jobs.append(programs(v, 10 if THOROUGH else 2, 'programs'))
    c.parallel(*jobs, width=8)
    c.assumptions += [STANDIN, F64NOTE, 'what the compiler keeps in registers or proves private to a thread is not recorded (gcc -fsanitize=thread decides what is a memory access)',
                      'FFTW: executing reads the plan and the input and writes the output; making and destroying plans writes one shared planner']
CHECKS = dict(C26=c26)
