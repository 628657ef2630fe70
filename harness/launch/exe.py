#!/usr/bin/python3 -SE
# stands for an executable of Bin/: records how it was run, writes an output file
import sys, os, json
LOG = '@LOG@'
me = os.path.realpath(sys.argv[0])
arg = [os.path.realpath(a) for a in sys.argv[1:]]
rec = dict(what='run', exe=me, cwd=os.path.realpath('.'), args=arg, threads=os.environ.get('OMP_NUM_THREADS', ''), levels=os.environ.get('OMP_MAX_ACTIVE_LEVELS', ''),
           bin='@NAME@', version='@VERSION@', params=os.path.isfile(arg[0]) if arg else False, token='spoken@SERIAL@')
rec['text'] = open(arg[0]).read() if rec['params'] else ''
with open(LOG, 'a') as f: f.write(json.dumps(rec) + '\n')
print('to stdout ' + rec['token'])
sys.stdout.flush()
print('to stderr ' + rec['token'], file=sys.stderr)
if len(arg) > 1 and os.path.isdir(arg[1]):
    with open(os.path.join(arg[1], 'f_RPsl_0.csv'), 'w') as f: f.write('R,l,log(Ps)\n')
sys.exit(int(os.environ.get('FAKE_EXIT', '0')))
