#!/usr/bin/python3 -SE
# stands for sbatch: reads the job's options, runs the script where it was submitted
import sys, os, json, subprocess
LOG = '@LOG@'
LONG = {'-t': 'time', '-c': 'cpus-per-task', '-o': 'output', '-J': 'job-name', '-p': 'partition', '-N': 'nodes', '-n': 'ntasks', '-e': 'error', '-D': 'chdir'}
def options(words):
    out, i = {}, 0
    while i < len(words):
        w = words[i]
        if w.startswith('#'): break
        if w.startswith('--'):
            if '=' in w: k, v = w[2:].split('=', 1)
            else: k, v = w[2:], words[i + 1] if i + 1 < len(words) else ''; i += 1
        elif w[:2] in LONG:
            k = LONG[w[:2]]
            if len(w) > 2: v = w[2:].lstrip('=')
            else: v = words[i + 1] if i + 1 < len(words) else ''; i += 1
        else: k, v = None, None
        if k: out[k] = v
        i += 1
    return out
args = sys.argv[1:]
script = args[-1] if args else ''
opt = {}
ok = os.path.isfile(script)
if ok:
    for i, l in enumerate(open(script)):
        if i == 0 and not l.startswith('#!'): ok = False
        if l.startswith('#SBATCH'): opt.update(options(l[7:].split()))
        elif l.strip() and not l.startswith('#'): break
opt.update(options(args[:-1]))
where = os.path.realpath(opt.get('chdir', '.'))
mem = opt.get('mem', '')
for s, u in (('MB', 1), ('M', 1), ('GB', 1024), ('G', 1024), ('', 1)):
    if mem.endswith(s) and mem[:len(mem) - len(s)].isdigit(): mem = str(int(mem[:len(mem) - len(s)]) * u); break
rec = dict(what='submit', script=os.path.realpath(script) if script else '', readable=ok, cwd=where, time=opt.get('time', ''), mem=mem, mail=opt.get('mail-user', ''), cpus=opt.get('cpus-per-task', '1'))
with open(LOG, 'a') as f: f.write(json.dumps(rec) + '\n')
if not ok: sys.exit(1)
env = dict(os.environ, SLURM_CPUS_PER_TASK=rec['cpus'])
out = open(os.path.join(where, opt.get('output', 'slurm-1.out')), 'w')
subprocess.call(['/bin/sh', os.path.realpath(script)], cwd=where, env=env, stdout=out, stderr=out, stdin=subprocess.DEVNULL)
print('Submitted batch job 1')
