#!/usr/bin/env python3
"""plant.py SPEC.py...: make /verif/seeded/<id> from a spec (ID, PROPERTY, NEEDS, BREAKS,
EDITS=[(file, old, new)], DEMO=python source, optional FILES={name: text}) and confirm it:
applies, builds, stable tests pass, demo 0 without / non-zero with the change.
plant.py --check ID...: confirm existing ones again."""
import json, os, subprocess, sys, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get('PLANT_REPO', '/repo')     # another clone: demos only, confirm with --check afterwards
STABLE = None


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git -C %s checkout -- .' % R)


def confirm(i, tests=R == '/repo'):
    d = os.path.join(V, 'seeded', i)
    clean()
    r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
    if r.returncode:
        return 'demo fails on unchanged tree:\n' + r.stdout[-1500:]
    if sh('git -C %s apply %s/patch.diff' % (R, d)).returncode:
        return 'patch does not apply'
    try:
        if tests:
            b = sh('bash /opt/vp/build.sh')
            if b.returncode:
                return 'build fails: ' + b.stdout[-1500:]
        r = sh('bash %s/demo.sh' % d, cwd=R, timeout=300)
        if r.returncode == 0:
            return 'demo passes with the change'
        print('   demo with change:', r.returncode, r.stdout.strip().split('\n')[-1][:160])
        if tests:
            sh('bash /opt/vp/test.sh /tmp/plant-o.json')
            base = json.load(open('/opt/vp/BASELINE.json'))
            got = json.load(open('/tmp/plant-o.json'))
            stable = base['stable']
            if isinstance(stable, dict):
                stable = list(stable)
            gp = set(got.get('passed', got))
            miss = [t for t in stable if t not in gp]
            if miss:
                return 'breaks tests: %s' % miss[:5]
    finally:
        clean()
    return None


def main():
    args = sys.argv[1:]
    rc = 0
    if args and args[0] == '--check':
        for i in args[1:] or sorted(os.listdir(V + '/seeded')):
            e = confirm(i)
            print(i, e or 'confirmed')
            rc |= bool(e)
        return rc
    for spec in args:
        s = runpy.run_path(spec)
        i = s['ID']
        d = os.path.join(V, 'seeded', i)
        os.makedirs(d, exist_ok=True)
        clean()
        err = None
        for fn, old, new in s['EDITS']:
            p = os.path.join(R, fn)
            t = open(p).read()
            if t.count(old) != 1:
                err = '%s: %d matches of %r' % (fn, t.count(old), old[:60])
                break
            open(p, 'w').write(t.replace(old, new))
        if not err:
            diff = sh('git -C %s diff' % R).stdout
            clean()
            open(d + '/patch.diff', 'w').write(diff)
            open(d + '/demo.py', 'w').write(s['DEMO'])
            open(d + '/demo.sh', 'w').write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\nexec /opt/venv/bin/python "$here/demo.py"\n')
            for n, t in s.get('FILES', {}).items():
                open(os.path.join(d, n), 'w').write(t)
            json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
            err = confirm(i)
        clean()
        print(i, err or 'confirmed')
        if err:
            rc = 1
            sh('mkdir -p /tmp/bugs/rejected; mv %s /tmp/bugs/rejected/%s.$$' % (d, i))
    return rc


sys.exit(main())
