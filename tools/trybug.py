#!/usr/bin/env python3
"""trybug.py [-p PID] [ID...]: run the check of each seeded change's property (or PID) on a
scratch copy of /repo with the change applied; prints caught / MISSED"""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
pid = None
if args and args[0] == '-p':
    pid = args[1]
    args = args[2:]
for i in args or sorted(os.listdir(V + '/seeded')):
    d = os.path.join(V, 'seeded', i)
    p = pid or json.load(open(d + '/meta.json'))['property']
    w = tempfile.mkdtemp(prefix='vbug-', dir='/tmp')
    try:
        subprocess.check_call('cd /repo && git archive HEAD | tar x -C %s && cd %s && patch -s -p1 < %s/patch.diff' % (w, w, d), shell=True)
        t = time.time()
        r = subprocess.run([sys.executable, V + '/check.py', p], cwd=V, env=dict(os.environ, VERIF_REPO=w), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        ok = r.returncode == 1 and 'VIOLATION property=%s' % p in r.stdout
        first = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1] or r.stdout.strip().split('\n')[-2:]
        print('%-10s %-28s %s rc=%d %.0fs %s' % ('caught' if ok else 'MISSED', i, p, r.returncode, time.time() - t, str(first)[:160]))
        sys.stdout.flush()
    finally:
        shutil.rmtree(w)
