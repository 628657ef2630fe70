"""C25: the executables do what their names say, after every history of builds."""
from lib import *
from gen import *
NOBODY = 65534
KIT = os.path.join(HARN, 'build')
UNITS = ['params', 'cheb', 'finite_diff', 'sphere', 'grid', 'io', 'field', 'initial_data', 'scalar_eom', 'main']

def make_tree(cache):
    """a copy of the repository with a HOME that has the stand-in for SHTns where the Makefiles look for it"""
    root = os.path.realpath(scratch_dir('build'))
    os.chmod(os.path.dirname(root), 0o755)
    skip = shutil.ignore_patterns('.git', '*.o', '*.run', '_build', '__pycache__')
    shutil.copytree(REPO, os.path.join(root, 'repo'), ignore=skip, symlinks=True)
    for d in ('Bin', 'Output'): os.makedirs(os.path.join(root, 'repo', d), exist_ok=True)
    for d in ('bin', 'tmp', 'home/shtns/Library/include', 'home/shtns/Library/lib', 'kit'): os.makedirs(os.path.join(root, d))
    shutil.copy(os.path.join(HARN, 'shtns', 'shtns.h'), os.path.join(root, 'home/shtns/Library/include'))
    lib = os.path.join(cache, 'libshtns.a')
    shutil.copy(lib, os.path.join(root, 'home/shtns/Library/lib'))
    t = open(os.path.join(KIT, 'gxx.py')).read().replace('@ROOT@', root).replace('@CACHE@', cache)
    for n, s in (('g++', t), ('time', '#!/bin/sh\nexec "$@"\n')):
        with open(os.path.join(root, 'bin', n), 'w') as h: h.write(s)
        os.chmod(os.path.join(root, 'bin', n), 0o755)
    shutil.copy(os.path.join(KIT, 'driver.py'), os.path.join(root, 'kit', 'driver.py'))
    return root
def play_build(root, steps):
    sf, ef = os.path.join(root, 'steps.json'), os.path.join(root, 'events')
    with open(sf, 'w') as h: json.dump(steps, h)
    env = {k: v for k, v in os.environ.items() if not k.startswith(('OMP_', 'MAKE', 'MFLAGS', 'VERIF_'))}
    for k in ('use_cheb', 'use_contiguous_longitudes', 'debug', 'profile', 'use_hyperboloidal', 'CC', 'CFLAGS', 'CXX', 'BIN'): env.pop(k, None)
    env.update(PATH=os.path.join(root, 'bin') + ':/usr/bin:/bin', HOME=os.path.join(root, 'home'), PYTHONDONTWRITEBYTECODE='1', TMPDIR=os.path.join(root, 'tmp'), OMP_NUM_THREADS='1')
    who = {}
    if os.getuid() == 0:
        for p, ds, fs in os.walk(root):
            for x in [p] + [os.path.join(p, f) for f in fs]: os.chown(x, NOBODY, NOBODY, follow_symlinks=False)
        who = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    noise = open(os.path.join(root, 'noise'), 'w'); how = None
    try:
        p = subprocess.run(['/usr/bin/python3', '-E', '-s', os.path.join(root, 'kit', 'driver.py'), root, sf, ef], cwd=os.path.join(root, 'repo'), env=env, stdin=subprocess.DEVNULL, stdout=noise, stderr=noise, timeout=620, **who)
        if p.returncode: how = 'status %d: %s' % (p.returncode, open(noise.name, errors='replace').read()[-400:])
    except subprocess.TimeoutExpired: how = 'did not finish'
    ev = []
    if os.path.exists(ef):
        ls = open(ef, errors='replace').read().split('\n'); ev = [json.loads(l) for l in ls if l.endswith('}')]
        if how is None and '#end' not in ls: how = 'stopped early'
    if how: raise MachineryError('the build driver ' + how)
    return ev
def history(r, n):
    steps = []; k = [0]
    def settings(cheb, name, again):
        k[0] += 1
        m = 1.0
        return dict(output_dir='/run%d' % k[0], recompile=again, black_hole_mass=m, black_hole_spin=r.choice([0.0, .5, .99]), compactification_length=10.0, evolve_time=.3, num_saved_times=1, nx=r.choice([11, 13]), nl=4, nm=3, nlat=6, nphi=r.choice([8, 12]),
                    use_cheb=cheb, cfl=.5, bin_name=name, km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=1.0, V3=0.0, V4=0.0, l_ang=r.choice([1, 2, 3]), m_ang=r.choice([0, 1]), amp=.5, rl_0=.5, ru_0=r.choice([20.0, 30.0]),
                    initial_data_type='compact_pulse', initial_data_direction=r.choice(['ingoing', 'outgoing']), computer='home', out_stem='/nowhere', time_it=r.random() < .5, num_omp_levels=1, num_threads=1, walltime='1', memory='1', email='a')
    def user():
        x = r.random(); ch, co = r.random() < .5, r.random() < .5
        if x < .4: steps.append(dict(do='object', obj=r.choice(UNITS + ['grid', 'sphere', 'main', 'grid', 'io']), cheb=ch, contig=co))
        elif x < .6: steps.append(dict(do='make', name=r.choice(['', '', 'default_cheb.run' if ch else 'default_fd.run', 'default_fd.run']), cheb=ch, contig=co))
        elif x < .7: steps.append(dict(do='clean'))
        elif x < .75: steps.append(dict(do='cleanall'))
        elif x < .85: steps.append(dict(do='tests'))
        elif x < .9: steps.append(dict(do='touch', obj=r.choice(UNITS) + r.choice(['.cpp', '.hpp']).replace('.hpp', '.cpp')))
        else: broken()
    def broken():
        x = dict(r.choice([dict(do='config'), dict(do='make', name='', cheb=r.random() < .5, contig=True), dict(do='recompile', name='default_cheb.run', cheb=True, set=settings(True, 'default_cheb.run', True))]))
        x['fail'] = r.randint(1, 18 if x['do'] == 'config' else 10); steps.append(x)
    def ours():
        x = r.random(); ch = r.random() < .5; name = 'default_cheb.run' if ch else 'default_fd.run'
        if x < .35: steps.append(dict(do='config', args=r.choice(['', '', '', ' -d true', ' --profile true'])))
        elif x < .5: steps.append(dict(do='recompile', name=name, cheb=ch, set=settings(ch, name, True)))
        elif x < .85: steps.append(dict(do='launch', name=name, cheb=ch, set=settings(ch, name, True)))
        else:
            name = r.choice(['mine.run', 'default_%s_2.run' % ('cheb' if ch else 'fd')])
            steps.append(dict(do='launch', name=name, cheb=ch, set=settings(ch, name, True)))
    def plain():
        ch = r.random() < .5; name = 'default_cheb.run' if ch else 'default_fd.run'
        steps.append(dict(do='launch', name=name, cheb=ch, set=settings(ch, name, False)))
    for _ in range(n):
        for _ in range(r.choice([0, 1, 1, 2])): user()
        ours()
        if r.random() < .3: plain()
    return steps
def c25(c):
    cache = os.path.realpath(scratch_dir('gxx')); os.chmod(cache, 0o777); os.chmod(os.path.dirname(cache), 0o755)
    def library():
        compile_one(os.path.join(HARN, 'shtns', 'shtns_standin.cpp'), os.path.join(cache, 's.o'), ['-std=c++17', '-O1'])
        run(['ar', 'rcs', os.path.join(cache, 'libshtns.a'), os.path.join(cache, 's.o')])
    library()
    r0 = c.rng('first')
    # the histories that go wrong without cleaning, and random ones
    def fixed():
        L = lambda ch, again, **k: [s for s in history(random.Random(5), 40) if s['do'] == 'launch' and s['cheb'] == ch and s['set']['recompile'] == again and not s.get('fail')][0]
        return [[dict(do='config'), L(True, True), L(False, True), dict(do='object', obj='grid', cheb=True, contig=True), dict(do='config')],
                [dict(do='object', obj=r0.choice(['grid', 'main', 'io', 'initial_data', 'scalar_eom']), cheb=False, contig=True), dict(do='config'), dict(do='object', obj=r0.choice(['grid', 'sphere']), cheb=True, contig=False), L(False, True), dict(do='object', obj='grid', cheb=True, contig=False), dict(do='config', args=' -d true')],
                [dict(do='tests'), dict(do='config'), dict(do='object', obj='scalar_eom', cheb=False, contig=False), L(True, True), L(True, False)]]
    def job(n, m, tag, fix=False):
        def gen():
            r = c.rng(tag); hs = (fixed() if fix else []) + [history(r, m) for _ in range(n)]
            for h in hs:   # directories of launches differ
                for i, s in enumerate(h):
                    if 'set' in s: s['set'] = dict(s['set'], output_dir='/run_%d' % i)
            roots = [make_tree(cache) for _ in hs]
            with concurrent.futures.ThreadPoolExecutor(8) as ex: out = list(ex.map(lambda x: play_build(*x), zip(roots, hs)))
            for x in roots: shutil.rmtree(x, ignore_errors=True)
            return out
        return lambda: c.conform('Trace_Build', gen, tag)
    jobs = [lambda: c.model('BuildMC'), job(40 if THOROUGH else 7, 4, 'histories', True)]
    c.parallel(*jobs, width=2)
    c.assumptions += ['SHTns is a stand-in (see DESIGN.md); g++ runs with -O1 and its results are kept by content', 'the commands run as an unprivileged user in a copy of the repository']
CHECKS = dict(C25=c25)
