# Plays build commands and launches on a copy of the repository and records
# which executables there are afterwards and what they do.
# usage: driver.py ROOT STEPS EVENTS ; ROOT/repo is the copy
import sys, os, json, subprocess, shutil, tempfile, glob, re, signal
sys.dont_write_bytecode = True
root, steps, events = sys.argv[1:4]
repo = os.path.join(root, 'repo')
os.chdir(repo); sys.path.insert(0, repo)
signal.alarm(600)
PARAMS = dict(nt=4, nx=11, nl=4, nm=3, nlat=6, nphi=12, t_step_save=3, dt=1e-2, compactification_length=10.0, Rmax=10.0, Rmin=1.6, black_hole_mass=1.0, black_hole_spin=0.9,
              km1=0.0, k0=1.0, k1=0.0, k2=0.0, V2=1.0, V3=0.0, V4=0.0, initial_data_type='compact_pulse', initial_data_direction='ingoing', amp=0.5, rl=1.0, ru=30.0, l_ang=2, m_ang=1)
def table(d, j=0):
    f = os.path.join(d, 'f_RPsl_%d.csv' % j)
    if not os.path.isfile(f): return None
    rows = []
    for l in open(f, errors='replace').read().split('\n')[1:]:
        try: rows.append([float(x) for x in l.split(',')])
        except ValueError: pass
    return [r for r in rows if len(r) == 3]
def method(rows):
    """how the radial points of a table of output are spaced"""
    if not rows: return 'none'
    R = []
    for r in rows:
        if not R or r[0] != R[-1]: R.append(r[0])
    if len(R) < 5: return 'none'
    d = [b - a for a, b in zip(R, R[1:])]
    if all(x < 0 for x in d) and abs(d[0]) < .5 * abs(d[len(d) // 2]): return 'cheb'
    if all(x > 0 for x in d) and max(d) - min(d) < 1e-9 * max(d): return 'fd'
    return 'other'
def pure(rows, l_ang, step=2):
    """the initial pulse is one harmonic, and evolution keeps its parity: elsewhere there is only rounding"""
    top = {}
    for R, l, v in rows or []: top[int(l)] = max(v, top.get(int(l), -99.0))
    return l_ang in top and top[l_ang] > -8 and all(v < top[l_ang] - 12 for l, v in top.items() if (l != l_ang if step > 9 else (l - l_ang) % step))
def probe(exe):
    d = tempfile.mkdtemp(dir=os.path.join(root, 'tmp'))
    with open(os.path.join(d, 'p.txt'), 'w') as f: f.write(''.join('%s %s\n' % kv for kv in PARAMS.items()))
    log = os.path.join(d, 'layout')
    try:
        p = subprocess.run([exe, 'p.txt', '.'], cwd=d, env=dict(os.environ, SHTNS_STANDIN_LOG=log, OMP_NUM_THREADS='1'), stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        rc = p.returncode
    except Exception: rc = -1
    rows = table(d); late = table(d, 1)
    lay = sorted(set(open(log).read().split())) if os.path.exists(log) else []
    shutil.rmtree(d)
    return dict(name=os.path.basename(exe), method=method(rows), layout='+'.join(lay), pure=bool(rc == 0 and pure(rows, PARAMS['l_ang'], 99) and pure(late, PARAMS['l_ang'])))
seen = {}
def exes():
    out = []
    for e in sorted(glob.glob('Bin/*.run')):
        k = (e, open(e, 'rb').read())
        if k not in seen: seen[k] = probe(os.path.abspath(e))
        out.append(seen[k])
    return out
def objects(): return sorted(os.path.basename(o)[:-2] for o in glob.glob('Source/*.o'))
out = open(events, 'w')
def emit(e): out.write(json.dumps(e) + '\n'); out.flush()
def sh(cmd): return subprocess.call(cmd, shell=True, stdin=subprocess.DEVNULL)
FAIL = os.path.join(root, 'fail')
emit(dict(e='start', objs=objects(), exes=exes()))
for st in json.load(open(steps)):
    if os.path.exists(FAIL): os.remove(FAIL)
    if st.get('fail'): open(FAIL, 'w').write(str(st['fail']))
    ev = dict(e=st['do'], failing=bool(st.get('fail')), name=st.get('name', ''), cheb=bool(st.get('cheb')), contig=bool(st.get('contig')), obj=st.get('obj', ''), said='')
    if st['do'] == 'config':
        rc = sh('./config.py' + st.get('args', '') if os.access('config.py', os.X_OK) else 'python3 config.py' + st.get('args', ''))
    elif st['do'] == 'make':
        rc = sh('make %s%s%s' % (st['name'], ' use_cheb=true' if st['cheb'] else '', ' use_contiguous_longitudes=true' if st['contig'] else ''))
        if st['name'] == '': ev['name'] = 'default_cheb.run' if st['cheb'] else 'default_fd.run'
    elif st['do'] == 'object':
        rc = sh('make -C Source %s.o%s%s' % (st['obj'], ' use_cheb=true' if st['cheb'] else '', ' use_contiguous_longitudes=true' if st['contig'] else ''))
    elif st['do'] == 'clean': rc = sh('make clean_Source')
    elif st['do'] == 'cleanall': rc = sh('make clean')
    elif st['do'] == 'tests': rc = sh('make test')
    elif st['do'] == 'touch':
        rc = 0; os.utime(os.path.join('Source', st['obj'])); ev['obj'] = ''
    elif st['do'] in ('launch', 'recompile'):
        from sim_class import Sim
        s = Sim()
        for k, v in st['set'].items(): setattr(s, k, v)
        rc = 0; had = os.path.exists(os.path.join('Bin', s.bin_name))
        ev['again'] = st['do'] == 'launch' and s.recompile; ev['there'] = had
        here = os.getcwd()
        try: s.launch_run() if st['do'] == 'launch' else s.then_recompile()
        except Exception as x: rc = 1; ev['said'] = (type(x).__name__ + ': ' + str(x)[:200]).replace(root, '')
        os.chdir(here)
        if st['do'] == 'launch':
            d = str(s.output_dir); rows = table(d)
            ev['ran'] = dict(method=method(rows), pure=pure(rows, st['set']['l_ang'], 99))
            a, b = os.path.join('Bin', s.bin_name), os.path.join(d, s.bin_name)
            ev['copied'] = os.path.isfile(a) and os.path.isfile(b) and open(a, 'rb').read() == open(b, 'rb').read()
    else: raise SystemExit('unknown step')
    ev['hit'] = bool(st.get('fail')) and int(open(FAIL).read()) <= 0
    if os.path.exists(FAIL): os.remove(FAIL)
    ev['rc'] = rc; ev['objs'] = objects(); ev['exes'] = exes()
    emit(ev)
out.write('#end\n'); out.close()
