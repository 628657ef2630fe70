#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ (planted bugs with demonstrations).  Not used by any check.
usage: seeds.py [id ...]      make them;   seeds.py --confirm [id ...]   build, test, demonstrate in scratch copies"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.join(V, 'seeded')
SEEDS = {}
def seed(id, prop, edits, needs, breaks, cpp=None, py=None, sh=None, flags=''):
    SEEDS[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, cpp=cpp, py=py, sh=sh, flags=flags)
HEAD = r'''
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <fstream>
#include <iostream>
#include <sstream>
#include <omp.h>
typedef std::vector<double> V;
static double dist(const V &a, const V &b) { double m = a.size()==b.size() ? 0 : 1e300; for (size_t i=0; i<a.size() && i<b.size(); i++) { double d = std::fabs(a[i]-b[i]); if (!(d<=m)) m = d; } return m; }
static double big(const V &a) { double m = 0; for (double x : a) m = std::max(m, std::fabs(x)); return m; }
static double rnd() { return 2.0*std::rand()/RAND_MAX - 1.0; }
static V rnds(size_t n) { V v(n); for (auto &x : v) x = rnd(); return v; }
static int fail(const char *s) { std::fprintf(stderr, "demo: %s\n", s); return 1; }
'''
PARAMS = r'''
#include "params.hpp"
static std::string P(const std::string &more = "") {   // a parameter file; lines of `more` come first and count
   std::ofstream f("params_demo.txt");
   f << more << "nt 4\nnx 13\nnl 4\nnm 3\nnlat 8\nnphi 8\nt_step_save 1\ndt 0.01\ncompactification_length 20\nRmax 20\nRmin 1.5\nblack_hole_mass 1\nblack_hole_spin 0.7\n"
     << "km1 0\nk0 1\nk1 0\nk2 0\nV2 1\nV3 0\nV4 2\ninitial_data_type compact_pulse\ninitial_data_direction ingoing\namp 0.5\nrl 2\nru 12\nl_ang 1\nm_ang 1\n";
   return "params_demo.txt";
}
'''
GRID = r'''
#include "grid.hpp"
#include "field.hpp"
#include "scalar_eom.hpp"
#include "initial_data.hpp"
#include "io.hpp"
static Grid grid_of(const Params &p) { return Grid(p.cl(), p.Rmin(), p.Rmax(), p.nx(), p.nl(), p.nm(), p.nlat(), p.nphi()); }
'''
SH = '''#!/bin/bash
H=$(cd "$(dirname "$0")" && pwd); R=$(pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
'''
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_list.py')).read())

def write(id):
    s = SEEDS[id]; d = os.path.join(OUT, id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', w + '/r'])
        for f, old, new in s['edits']:
            p = os.path.join(w, 'r', f); t = open(p).read()
            if t.count(old) < 1: raise SystemExit('%s: pattern not found in %s: %r' % (id, f, old))
            open(p, 'w').write(t.replace(old, new, 1))
        diff = subprocess.check_output(['git', '-C', w + '/r', 'diff']).decode()
    finally: shutil.rmtree(w)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
    sh = SH
    if s['cpp']:
        full = 'grid_of' in s['cpp'] or 'Sphere' in s['cpp'] or 'Grid' in s['cpp']
        par = 'P(' in s['cpp'] or 'Params' in s['cpp'] or full
        open(d + '/demo.cpp', 'w').write(HEAD + (PARAMS if par else '') + (GRID if full else '') + s['cpp'])
        if full:
            for f in ('shtns.h', 'shtns_standin.cpp'): shutil.copy(os.path.join(V, 'harness', 'shtns', f), d)
            src = 'Source/cheb.cpp Source/finite_diff.cpp Source/sphere.cpp Source/grid.cpp Source/params.cpp Source/field.cpp Source/initial_data.cpp Source/scalar_eom.cpp Source/io.cpp "$H/shtns_standin.cpp"'
        else: src = 'Source/cheb.cpp Source/finite_diff.cpp Source/field.cpp Source/params.cpp'
        sh += 'g++ -std=c++11 -O1 -w -fopenmp %s -I Source -I "$H" "$H/demo.cpp" %s -o "$D/demo" -lfftw3 -lm || exit 2\ncd "$D" && timeout 200 ./demo > /dev/null\n' % (s['flags'], src)
    elif s['sh']:
        for f in ('shtns.h', 'shtns_standin.cpp'): shutil.copy(os.path.join(V, 'harness', 'shtns', f), d)
        sh += s['sh']
    else:
        open(d + '/demo.py', 'w').write(s['py'])
        sh += 'mkdir "$D/home" && cp sim_class.py runscript_template.py "$D/home/" && cd "$D/home" && PYTHONPATH="$D/home" PYTHONDONTWRITEBYTECODE=1 timeout 200 python3 "$H/demo.py" > /dev/null\n'
    open(d + '/demo.sh', 'w').write(sh); os.chmod(d + '/demo.sh', 0o755)

def confirm(id):
    w = tempfile.mkdtemp(prefix='conf_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/r'])
        r = w + '/r'; log = []
        lay = w + '/lay'; os.makedirs(lay)
        for f in os.listdir(os.path.join(OUT, id)):
            if not f.endswith(('.diff', '.patch')) and f != 'meta.json': shutil.copy(os.path.join(OUT, id, f), lay)
        a = subprocess.run(['bash', lay + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        subprocess.check_call(['git', 'apply', os.path.join(OUT, id, 'patch.diff')], cwd=r)
        b = subprocess.run(['bash', lay + '/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        # the stable tests on the patched copy
        t = 'g++ -w -std=c++17 -O2 -fopenmp -I Source -o t Test/main.cpp Test/test_cheb.cpp Test/test_finite_diff.cpp Source/cheb.cpp Source/finite_diff.cpp Source/field.cpp Source/params.cpp -lgtest -lpthread -lfftw3 -lm && ./t >/dev/null && python3 -c "import ast,glob;[ast.parse(open(f).read()) for f in glob.glob(\'*.py\')]"'
        c = subprocess.run(t, shell=True, cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ok = a.returncode == 0 and b.returncode not in (0, 2) and c.returncode == 0
        return '%-22s %-4s clean=%d bug=%d tests=%d %s' % (id, 'ok' if ok else 'BAD', a.returncode, b.returncode, c.returncode, '' if ok else (a.stdout[-300:] if a.returncode else b.stdout[-300:] + c.stdout[-900:]).decode(errors='replace'))
    finally: shutil.rmtree(w, ignore_errors=True)
def against(id, props=None):
    """run the checks of the property on a patched copy"""
    w = tempfile.mkdtemp(prefix='agst_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', w + '/r']); subprocess.check_call(['git', 'apply', os.path.join(OUT, id, 'patch.diff')], cwd=w + '/r')
        out = []
        for p in props or [SEEDS[id]['prop']]:
            r = subprocess.run(['python3', os.path.join(V, 'check.py'), p], env=dict(os.environ, VERIF_REPO=w + '/r'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            t = r.stdout.decode(); x = [l for l in t.splitlines() if l.startswith(p + ': ')]
            out.append('%s rc=%d %s' % (p, r.returncode, x[0][:150] if x else t[-200:]))
        return '%-22s %s' % (id, ' | '.join(out))
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    from concurrent.futures import ThreadPoolExecutor
    a = sys.argv[1:]; mode = a.pop(0) if a and a[0].startswith('--') else '--make'
    ids = a or list(SEEDS)
    f, w = {'--make': (write, 4), '--confirm': (confirm, 6), '--against': (against, 2)}[mode]
    with ThreadPoolExecutor(w) as ex:
        for x in ex.map(f, ids):
            if x: print(x, flush=True)
