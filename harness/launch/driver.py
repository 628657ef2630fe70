# Plays a list of launches on the real sim_class.py and records what they do.
# usage: driver.py ROOT SCRIPT EVENTS ; ROOT/home is the working directory
import sys, os, json, hashlib, struct, time, signal, re
sys.dont_write_bytecode = True
root, script, events = sys.argv[1:4]
home = os.path.join(root, 'home')
os.chdir(home)
sys.path.insert(0, home)
LOG = os.path.join(root, 'log')
EXE = open(os.path.join(root, 'kit', 'exe.py')).read()
signal.alarm(120)
def pair(x):
    b = struct.unpack('>Q', struct.pack('>d', float(x)))[0]; hi, lo = b >> 32, b & 0xffffffff
    return [hi - (1 << 32) if hi >> 31 else hi, lo - (1 << 32) if lo >> 31 else lo]
def look():
    out = {}
    for d in ('home', 'outer'):
        for p, ds, fs in os.walk(os.path.join(root, d)):
            out[p] = 'dir'
            for f in fs:
                q = os.path.join(p, f)
                out[q] = 'link' if os.path.islink(q) else hashlib.sha1(open(q, 'rb').read()).hexdigest() + oct(os.stat(q).st_mode & 0o7777)
    return out
def numbers(a):
    out = {}
    for k, v in a.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            try: out[k] = pair(v)
            except OverflowError: pass
    return out
def whole(a): return {k: v for k, v in a.items() if isinstance(v, int) and not isinstance(v, bool) and abs(v) < 2**31}
def words(a): return {k: v for k, v in a.items() if isinstance(v, str)}
def picture(a): return dict(r=numbers(a), i=whole(a), w=words(a), cheb=bool(a.get('use_cheb', False)))
serial = [0]
def fresh_bins(names):
    for n in names:
        serial[0] += 1
        p = os.path.join(home, 'Bin', n)
        if os.path.lexists(p): os.remove(p)
        with open(p, 'w') as f: f.write(EXE.replace('@LOG@', LOG).replace('@NAME@', n).replace('@VERSION@', str(serial[0])).replace('@SERIAL@', str(serial[0])))
        os.chmod(p, 0o644 if serial[0] % 2 else 0o755)
BINS = ['default_cheb.run', 'default_fd.run']
fresh_bins(BINS)
from sim_class import Sim
out = open(events, 'w')
def emit(e):
    if e.get('raised'): e['raised'] = e['raised'].replace(root, '')
    out.write(json.dumps(e) + '\n'); out.flush()
sim = None
def launch(go, ev, st):
    """go() launches; everything it does is compared with before"""
    if os.path.exists(LOG): os.remove(LOG)
    if not st.get('samebins'): fresh_bins(BINS)
    if st.get('nobin'): os.remove(os.path.join(home, 'Bin', st['nobin']))
    os.environ['FAKE_EXIT'] = str(st.get('exit', 0))
    # the thread settings of the surroundings: none, others, or those left from the launch before
    for v in ('OMP_NUM_THREADS', 'OMP_MAX_ACTIVE_LEVELS'):
        if st.get('env') == 'none': os.environ.pop(v, None)
        elif st.get('env'): os.environ[v] = st['env']
    a = look(); cwd = os.getcwd()
    ev['raised'] = ''
    try: sim = go()
    except Exception as e:
        ev['raised'] = type(e).__name__ + ': ' + str(e)[:200]
        sim = launched[0]
    ev['cwd_back'] = os.path.realpath(os.getcwd()) == os.path.realpath(cwd)
    os.chdir(cwd)
    b = look()
    log = [json.loads(l) for l in open(LOG)] if os.path.exists(LOG) else []
    d = os.path.realpath(os.path.join(cwd, str(getattr(sim, 'output_dir', None) or '/nowhere')))
    inside = lambda p: p == d or p.startswith(d + '/')
    parents = lambda p: d.startswith(p + '/')
    ev['dir'] = d[len(root):] if d.startswith(root) else d
    ev['parent'] = os.path.dirname(ev['dir']); ev['numbers'] = re.findall(r'(?<![\d.])-?\d+(?:\.\d*)?(?:[eE][-+]?\d+)?', os.path.basename(d))
    ev['dir_new'] = d not in a and b.get(d) == 'dir'
    ev['touched'] = sorted(p[len(root):] for p in set(a) | set(b) if a.get(p) != b.get(p) and not inside(p) and not (parents(p) and p not in a and b[p] == 'dir'))
    if not ev['dir_new']: ev['touched'] += sorted(p[len(root):] for p in set(a) | set(b) if a.get(p) != b.get(p) and inside(p))
    ev['made'] = sorted(p[len(root):] for p in b if p not in a and b[p] == 'dir')
    ev['dirs_before'] = sorted(p[len(root):] for p in a if a[p] == 'dir')
    runs = [r for r in log if r['what'] == 'run']; subs = [r for r in log if r['what'] == 'submit']
    cut = lambda p: p[len(root):] if p.startswith(root + '/') else p
    speech = lambda t: any(('to stdout ' + t) in s and ('to stderr ' + t) in s for s in (open(os.path.join(d, f), errors='replace').read() for f in (os.listdir(d) if os.path.isdir(d) else []) if os.path.isfile(os.path.join(d, f))))
    if ev['dir_new']:
        bn = getattr(sim, 'bin_name', '')
        src, dst = os.path.join(home, 'Bin', bn), os.path.join(d, bn)
        ev['copied'] = os.path.isfile(src) and os.path.isfile(dst) and open(src, 'rb').read() == open(dst, 'rb').read()
    else: ev['copied'] = False
    ev['runs'] = [dict(exe=cut(r['exe']), cwd=cut(r['cwd']), args=[cut(x) for x in r['args']], threads=r['threads'], levels=r['levels'], bin=r['bin'], fresh=r['version'] == version(r['bin']), kept=speech(r['token'])) for r in runs]
    ev['texts'] = [r['text'] for r in runs]
    ev['jobs'] = [dict(dir=cut(os.path.dirname(s['script'])), readable=s['readable'], cwd=cut(s['cwd']), time=s['time'], mem=s['mem'], mail=s['mail']) for s in subs]
    ev['after'] = picture(vars(sim))
    emit(ev)
def version(n):
    p = os.path.join(home, 'Bin', n)
    m = re.search(r"version='(\d*)'", open(p).read()) if os.path.isfile(p) else None
    return m.group(1) if m else ''
launched = [None]
for st in json.load(open(script)):
    if st['do'] == 'derive':
        s = Sim()
        for k, v in st['set'].items(): setattr(s, k, v)
        b = picture(vars(s)); raised = ''
        try: s.set_derived_params()
        except Exception as e: raised = type(e).__name__ + ': ' + str(e)[:200]
        emit(dict(e='derive', before=b, after=picture(vars(s)), raised=raised, whole=[k for k, v in vars(s).items() if type(v) is int]))
    elif st['do'] == 'launch':
        if st['sim'] == 'new': sim = Sim()
        for k, v in st['set'].items(): setattr(sim, k, v)
        launched[0] = sim
        def go(): sim.launch_run(); return sim
        launch(go, dict(e='launch', script=False, how=st['how'], asked=st.get('asked', ''), stem=st.get('stem', ''), mode='home' if sim.computer == 'home' else 'batch', failing=bool(st.get('nobin')), before=picture(vars(sim))), st)
    elif st['do'] == 'template':
        # the run script as it stands, with the scratch directory for its output
        import sim_class
        over = st['set']; got = []
        class Watched(Sim):
            def __init__(self):
                Sim.__init__(self); got.append(self); launched[0] = self
            def __setattr__(self, k, v):
                if k in over and k not in self.__dict__: v = over[k]
                Sim.__setattr__(self, k, v)
            def set_derived_params(self):
                seen.append(picture(vars(self)))
                Sim.set_derived_params(self)
        seen = []
        sim_class.Sim = Watched
        ev = dict(e='launch', script=True, how=st['how'], asked=st.get('asked', ''), stem=st.get('stem', ''), failing=False)
        def go():
            exec(compile(open('runscript_template.py').read(), 'runscript.py', 'exec'), {'__name__': '__main__'})
            return got[0]
        def watch():
            r = go(); ev['mode'] = 'home' if r.computer == 'home' else 'batch'; ev['before'] = seen[0] if seen else picture({}); return r
        launch(watch, ev, st)
        sim_class.Sim = Sim
    elif st['do'] == 'sleep': time.sleep(st['for'])
out.write('#end\n'); out.close()
