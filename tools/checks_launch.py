"""C23-C25: the launcher and the executables."""
from lib import *
from gen import *
import checks_run

NOBODY = 65534
KIT = os.path.join(HARN, 'launch')
def make_root(home_files=()):
    """a scratch root: home/ (the launcher's working directory), outer/, bin/ (stand-ins on PATH)"""
    root = os.path.realpath(scratch_dir('launch'))
    os.chmod(os.path.dirname(root), 0o755)
    for d in ('home/Bin', 'outer', 'bin', 'kit'): os.makedirs(os.path.join(root, d))
    for f in ('sim_class.py', 'runscript_template.py'): shutil.copy(os.path.join(REPO, f), os.path.join(root, 'home', f))
    with open(os.path.join(root, 'home', 'Bin', 'Makefile'), 'w') as h: h.write('clean:\n')
    shutil.copy(os.path.join(KIT, 'exe.py'), os.path.join(root, 'kit', 'exe.py'))
    shutil.copy(os.path.join(KIT, 'driver.py'), os.path.join(root, 'kit', 'driver.py'))
    s = open(os.path.join(KIT, 'sbatch.py')).read().replace('@LOG@', os.path.join(root, 'log'))
    for n, t in (('sbatch', s), ('time', '#!/bin/sh\nexec "$@"\n'), ('mail', '#!/bin/sh\ncat >/dev/null\n')):
        with open(os.path.join(root, 'bin', n), 'w') as h: h.write(t)
        os.chmod(os.path.join(root, 'bin', n), 0o755)
    return root
def launcher(root, steps):
    """play launcher steps as an unprivileged user whose only files are in root"""
    sf, ef = os.path.join(root, 'steps.json'), os.path.join(root, 'events')
    with open(sf, 'w') as h: json.dump(steps, h)
    env = {k: v for k, v in os.environ.items() if not k.startswith('OMP_')}
    env.update(PATH=os.path.join(root, 'bin') + ':' + env.get('PATH', '/usr/bin:/bin'), HOME=os.path.join(root, 'home'), PYTHONDONTWRITEBYTECODE='1')
    who = {}
    if os.getuid() == 0:
        for p, ds, fs in os.walk(root):
            for x in [p] + [os.path.join(p, f) for f in fs]: os.chown(x, NOBODY, NOBODY)
        who = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    noise = open(os.path.join(root, 'noise'), 'w')
    cmd = ['/usr/bin/python3', '-E', '-s', os.path.join(root, 'kit', 'driver.py'), root, sf, ef]
    how = None
    try:
        p = subprocess.run(cmd, cwd=os.path.join(root, 'home'), env=env, stdin=subprocess.DEVNULL, stdout=noise, stderr=noise, timeout=150, **who)
        if p.returncode: how = 'status %d: %s' % (p.returncode, open(noise.name, errors='replace').read()[-400:])
    except subprocess.TimeoutExpired:
        how = 'did not finish'
    ev = [dict(e='begin', raised='')]
    if os.path.exists(ef):
        ls = open(ef, errors='replace').read().split('\n')
        ev += [json.loads(l) for l in ls if l.endswith('}')]
        if how is None and '#end' not in ls: how = 'stopped early'
    if how: ev.append(dict(e='crash', how=how, raised=how))
    return ev
def lose(root): shutil.rmtree(root, ignore_errors=True)

def settings(r, cheb, wide=False):
    """settings as the run script makes them"""
    m = r.choice([1.0, 1.0, .5, 2.0, r.uniform(.01, 50), 10.0 ** r.uniform(-3, 3)] + ([1, 3] if wide else []))
    k = r.randrange(8)
    a = (0.0 if k == 0 else m if k == 1 else -m if k == 2 else round(.9999 * m, 16) if k == 3 else m * (1 - 10.0 ** r.uniform(-15, -2)) if k == 4 else m * r.uniform(-1, 1) if k < 7 else m * r.choice([.5, .7, .99]))
    if wide and k == 0 and r.random() < .5: a = 0
    s = dict(black_hole_mass=m, black_hole_spin=a, compactification_length=r.choice([1.0, 10.0, 20.0, r.uniform(.1, 200), 10.0 ** r.uniform(-2, 4)]),
             evolve_time=r.choice([0.0, 1.0, 10.0, 600.0, r.uniform(0, 50), r.uniform(0, 2000)]), num_saved_times=r.choice([1, 2, 10, 100, 1200, r.randint(1, 5000), 10 ** 6]),
             nx=r.choice([9, 17, 64, 129, 1025, 8193, r.randint(2, 300), r.randint(2, 20000)]), nl=r.randint(2, 40), nm=r.randint(1, 40), nlat=r.choice([2, 8, 40, r.randint(2, 300)]), nphi=r.choice([4, 8, 40, 4 * r.randint(1, 80)]),
             use_cheb=cheb, km1=r.choice([0.0, r.uniform(-1, 1)]), k0=r.choice([1.0, r.gauss(0, 1)]), k1=r.gauss(0, 1), k2=r.choice([0.0, 1e-7 * r.random()]), V2=r.choice([0.0, 1.0, r.random()]), V3=r.gauss(0, 10), V4=r.choice([100.0, 1 / 3, 1e22, 1e-5]),
             l_ang=r.randint(0, 9), m_ang=r.randint(-9, 9), amp=r.choice([.5, 1e-8, -.1, r.gauss(0, 1)]), rl_0=r.choice([-1.0, 1.1, r.uniform(.5, 3), r.uniform(-3, 3)]), ru_0=r.choice([3.0, r.uniform(3, 50)]),
             initial_data_type='compact_pulse', initial_data_direction=r.choice(['ingoing', 'outgoing', 'time_symmetric']))
    if not cheb or r.random() < .2: s['cfl'] = r.choice([.75, .25, 1.0, r.uniform(.01, 1.5)])
    return s
def machine(r, batch, root):
    s = dict(computer=r.choice(['della', 'feynman']) if batch else 'home', recompile=False, run_type='basic_run', time_it=r.random() < .5, num_omp_levels=r.randint(1, 4), num_threads=r.choice([1, 2, 4, 16, 40]),
             walltime=r.choice(['24:00:00', '1:00:00', '3-00:00:00', '72:00:00']), memory=r.choice(['8192', '4096', '512', '65536']), email=r.choice(['a@b.org', 'someone@illinois.edu']), out_stem=os.path.join(root, 'outer', r.choice(['x', 'deep/y'])))
    s['bin_name'] = 'default_cheb.run'
    return s
def read_params(events, exe):
    """what the real reader makes of the parameter files the runs were given"""
    d = scratch_dir('read'); s = ['trace']; who = []
    for ev in events:
        if ev['e'] != 'launch': continue
        ev['read'] = dict(file=[], outcome='none', got={})
        if ev.get('texts'):
            f = os.path.join(d, 'p%d' % len(who))
            with open(f, 'w') as h: h.write(ev['texts'][0])
            s.append('file ' + f); who.append(ev)
        ev.pop('texts', None)
    if who:
        t = play(exe, '\n'.join(s))[0]
        for ev, x in zip(who, t): ev['read'] = dict(file=x['file'], outcome=x['outcome'], got=x['got'])
    shutil.rmtree(d)

def c23(c):
    def job(n, tag):
        def gen():
            r = c.rng(tag); out = []
            for _ in range(2):
                root = make_root(); steps = []
                for i in range(n): steps.append(dict(do='derive', set=settings(r, r.random() < .5, True)))
                out.append(launcher(root, steps)); lose(root)
            # traces of moderate length
            tr = []
            for t in out: tr += [t[:1] + t[i:i + 50] for i in range(1, len(t), 50)]
            return tr
        return lambda: c.conform('Trace_Launch', gen, tag)
    c.parallel(lambda: c.model('DeriveMC'), job(8000 if THOROUGH else 800, 'settings'), width=2)

def c24(c):
    exe = build('params_drv.cpp', ['params'], PROD)
    NAMES = ['/run', '/a/b', '/run_2', '/x.y', '/deep/er/still', '/R1']
    def history(r, root, kind):
        steps = []; used = []
        def one(batch, how, sim='new', **kw):
            cheb = r.random() < .5
            st = settings(r, cheb); st['evolve_time'] = min(st['evolve_time'], 20.0); st['nx'] = min(st['nx'], 1000); st['nlat'] = min(st['nlat'], 100); st['nphi'] = min(st['nphi'], 100)
            st.update(machine(r, batch, root)); st['bin_name'] = 'default_cheb.run' if cheb else 'default_fd.run'
            if st['black_hole_mass'] > 50: st['black_hole_mass'] = 1.0; st['black_hole_spin'] = .5
            asked = ''
            if how == 'given':
                asked = kw.pop('asked', None) or r.choice(NAMES) ; st['output_dir'] = asked
            else: st['output_dir'] = None
            if how == 'again': st.pop('output_dir')
            steps.append(dict(do='launch', sim=sim, set=st, how=how, asked=asked, stem=st['out_stem'][len(root):], **kw))
            return st
        n = r.randint(3, 6)
        if kind == 'given':
            for _ in range(n): one(r.random() < .4, 'given', sim=r.choice(['new', 'same']) if steps else 'new', exit=r.choice([0, 0, 0, 3]))
        elif kind == 'batch':
            for _ in range(n): one(r.random() < .8, 'given', sim=r.choice(['new', 'same']) if steps else 'new')
        elif kind == 'same':       # the same name again and again
            a = r.choice(NAMES); b = r.random() < .5
            one(b, 'given', asked=a)
            for _ in range(2):
                s = one(b, 'given', asked=a, sim=r.choice(['new', 'same']))
                s['out_stem'] = steps[0]['set']['out_stem']; steps[-1]['stem'] = steps[0]['stem']
            one(not b, 'given', asked=a)
            # below a directory of an earlier launch, and the parent of one
            one(b, 'given', asked=a + '/below')
            s = one(b, 'given', asked='/up/per'); s['out_stem'] = steps[0]['set']['out_stem']; steps[-1]['stem'] = steps[0]['stem']
            s = one(b, 'given', asked='/up'); s['out_stem'] = steps[0]['set']['out_stem']; steps[-1]['stem'] = steps[0]['stem']
        elif kind == 'auto':
            b = r.random() < .4
            one(b, 'auto')
            steps.append(dict(steps[-1], how='maybe', samebins=r.random() < .5))
            for k in r.sample(['nx', 'nl', 'nm'], 2):      # another run, in the same second
                steps.append(dict(steps[0], how='auto', set=dict(steps[0]['set'], **{k: steps[0]['set'][k] + r.choice([1, 2, 7])})))
            steps.append(dict(do='sleep', **{'for': 1.1}))
            steps.append(dict(steps[0], how='auto'))
            s = one(not b, 'auto')
        elif kind == 'again':      # the same object launched again without a new name
            b = r.random() < .5
            one(b, r.choice(['auto', 'given']))
            for _ in range(2): one(b, 'again', sim='same')
        elif kind == 'nobin':
            one(False, 'given')
            s = one(r.random() < .5, 'given', asked='/q1'); steps[-1]['nobin'] = s['bin_name']
            one(r.random() < .5, 'given', asked='/q2')
            s = one(r.random() < .5, 'given', asked='/q1'); s['out_stem'] = steps[1]['set']['out_stem']; s['computer'] = steps[1]['set']['computer']; steps[-1]['stem'] = steps[1]['stem']
        elif kind == 'template':
            for ch in (False, True):
                for comp in ('home', 'della'):
                    asked = '/t_%s_%s' % (ch, comp); st = os.path.join(root, 'outer', 'tig')
                    steps.append(dict(do='template', how='given', asked=asked, stem=st[len(root):], set=dict(output_dir=asked, computer=comp, use_cheb=ch, out_stem=st, recompile=False)))
            steps.append(dict(do='template', how='auto', set=dict(computer='home', use_cheb=True, out_stem=st)))
        for x in steps:
            if x['do'] != 'sleep': x['env'] = r.choice(['none', '', '77', '1'])
        return steps
    def job(kinds, tag):
        def gen():
            r = c.rng(tag); todo = []
            for k in kinds:
                root = make_root(); todo.append((root, history(r, root, k)))
            with concurrent.futures.ThreadPoolExecutor(8) as ex: out = list(ex.map(lambda x: launcher(*x), todo))
            for root, _ in todo: lose(root)
            for t in out: read_params(t, exe)
            return out
        return lambda: c.conform('Trace_Launch', gen, tag)
    k = 12 if THOROUGH else 2
    c.parallel(lambda: c.model('LaunchMC'), job(['given', 'batch'] * (2 * k), 'names given'), job(['same', 'same', 'nobin', 'again'] * k, 'names taken, no executable, again'),
               job(['auto', 'template', 'auto'] * (k // 2), 'names made up, run script'), width=4)
    c.assumptions += ['the executable, sbatch and time are stand-ins that record how they are called; the job script is run with sh where it was submitted',
                      'the launcher runs as an unprivileged user in a scratch root']

CHECKS = dict(C23=c23, C24=c24)
