#!/usr/bin/python3 -SE
# g++ for the scratch tree: -O1 instead of -O3, results kept by content, and a
# compilation made to fail when asked
import sys, os, hashlib, glob, subprocess, shutil, fcntl
ROOT = '@ROOT@'; CACHE = '@CACHE@'
a = ['-O1' if x in ('-O3', '-O2') else x for x in sys.argv[1:]]
out = a[a.index('-o') + 1] if '-o' in a else None
ins = [x for i, x in enumerate(a) if not x.startswith('-') and (i == 0 or a[i - 1] not in ('-o', '-x'))]
n = os.path.join(ROOT, 'fail')
if os.path.exists(n):
    k = int(open(n).read()) - 1
    open(n, 'w').write(str(k))
    if k <= 0:
        sys.stderr.write('g++: interrupted\n'); sys.exit(1)
if out is None or ('-c' in a and len(ins) != 1):
    sys.exit(subprocess.call(['/usr/bin/g++'] + a))
h = hashlib.sha256(repr([x.replace(ROOT, '') for x in a if x != out] + [os.path.basename(out)]).encode())
near = sorted(glob.glob('*.hpp') + glob.glob('../Source/*.hpp')) if '-c' in a else []
for f in ins + near:
    if os.path.isfile(f): h.update(f.encode() + b'\0' + open(f, 'rb').read())
c = os.path.join(CACHE, h.hexdigest()[:32])
with open(c + '.lock', 'w') as lk:
    fcntl.flock(lk, fcntl.LOCK_EX)
    if not os.path.exists(c):
        t = c + '.tmp'
        b = list(a); b[b.index('-o') + 1] = t
        r = subprocess.call(['/usr/bin/g++'] + b)
        if r: sys.exit(r)
        os.rename(t, c)
if os.path.lexists(out): os.remove(out)
shutil.copy(c, out)
