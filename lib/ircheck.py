"""check runner for the properties decided on the LLVM IR of generated modules: every scenario of the corpora is
explored on all paths, counterexamples and sampled paths are replayed in a really compiled module"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import threading
import time
import traceback
from multiprocessing import Pool

import framework
import irdrive

HERE = os.path.dirname(os.path.abspath(__file__))
ALL = None
KINDS = {'P07': ('spec', 'crash', 'hang', 'cxx', 'exc'), 'P08': ('ref',), 'P09': ('exc', 'call'), 'P12': ('gil',), 'P10': ('free', 'spec', 'crash', 'hang', 'cxx'),
         'P14': ('spec', 'exc', 'crash', 'hang', 'cxx', 'free', 'ref'), 'P17': ('spec', 'exc', 'crash', 'hang', 'cxx', 'free'),
         'P16': ('spec', 'exc', 'crash', 'hang', 'cxx', 'free'),
        'P18': ('spec', 'exc', 'crash', 'hang', 'cxx', 'free'),
         'P19': ('spec', 'free', 'crash', 'hang', 'cxx'), 'P20': ('spec', 'crash', 'hang', 'cxx'), 'P15': ('spec', 'exc', 'crash', 'hang', 'cxx')}
CROSS = ('P08', 'P09', 'P12')
WHAT = {'spec': 'wrong behaviour', 'crash': 'invalid memory access', 'ref': 'reference count', 'exc': 'error protocol', 'gil': 'interpreter lock',
        'free': 'C++ ownership', 'hang': 'endless loop', 'cxx': 'C++ exception', 'call': 'call after a failure'}
# kinds the uninstrumented module cannot show reliably
SILENT = ('gil', 'free', 'crash', 'ref', 'hang')


def corpora():
    return sorted(f[:-3] for f in os.listdir(irdrive.CORPUS) if f.startswith('cm') and f.endswith('.py'))


def real_jobs(corpus, sodir, jobs, repeat=0, timeout=120):
    """runs jobs in real processes; a crash is attributed to the started job and the rest goes on"""
    out = {}
    todo = list(jobs)
    while todo:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_REPEAT=str(repeat))
        p = subprocess.Popen([framework.PY_REPO, os.path.join(HERE, 'realdrive.py'), corpus, sodir], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, text=True, env=env)
        try:
            o, e = p.communicate(''.join(json.dumps(j) + '\n' for j in todo), timeout=timeout)
            hung = False
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            hung = True
        cur = None
        for l in o.splitlines():
            r = json.loads(l)
            if 'start' in r:
                cur = r['start']
            else:
                out[r['id']] = r
                cur = None
        done = set(out)
        left = [j for j in todo if j['id'] not in done]
        if not left:
            break
        if cur is None:
            for j in left:
                out[j['id']] = dict(error='the replay process ends: ' + e[-600:])
            break
        out[cur] = dict(fail=['hang' if hung else 'crash', 'does not end' if hung else 'the process is killed (status %s) %s' % (p.returncode, e[-300:])])
        todo = [j for j in left if j['id'] != cur]
    return out


class Corpus(object):
    def __init__(self, name, base):
        self.name, self.work = name, os.path.join(base, name)
        self.error = None
        self.sodir = None
        self.thread = None

    def generate(self):
        irdrive.generate(self.name, self.work)

    def compile(self):
        irdrive.compile_ir(self.work)
        self.thread = threading.Thread(target=self._real)
        self.thread.start()

    def _real(self):
        try:
            self.sodir = irdrive.compile_real(self.work, self.name[1:])
        except Exception as e:
            self.error = str(e)[-1500:]


def concurrent(fs):
    errs = []

    def one(f):
        try:
            f()
        except Exception as e:
            errs.append((f, e))
    ts = [threading.Thread(target=one, args=(f,)) for f in fs]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return errs


def main(pid):
    rep = framework.Report(pid, 'model_checking')
    thorough = framework.tier() == 'thorough'
    base = tempfile.mkdtemp(prefix='verif-%s-' % pid)
    try:
        _main(pid, rep, thorough, base)
    except Exception:
        rep.error(traceback.format_exc()[-1500:])
    finally:
        shutil.rmtree(base, ignore_errors=True)
    return rep.finish()


def _main(pid, rep, thorough, base):
    import importlib
    cs = {}
    tasks = []
    names = {}
    for n in corpora():
        c = importlib.import_module(n)
        idx = [i for i, s in enumerate(c.SCENARIOS) if pid in s.tags or pid in CROSS]
        if idx:
            cs[n] = Corpus(n, base)
            names[n] = c.SCENARIOS
            tasks += [(n, cs[n].work, i, 200000 if thorough else 20000, 1500 if thorough else 240) for i in idx]
    for step in ('generate', 'compile'):
        for f, e in concurrent([getattr(c, step) for c in cs.values()]):
            n = f.__self__.name
            tasks = [t for t in tasks if t[0] != n]
            del cs[n]
            if step == 'compile':
                try:
                    irdrive.compile_real(f.__self__.work, n[1:])
                    rep.error('%s: the module compiles, but not with the standard library of the model: %s' % (n, str(e)[-1500:]))
                    continue
                except Exception:
                    pass
            rep.violation('%s/%s' % (n, step), 'the corpus module %s, which uses only supported features, cannot be %s' %
                          (n, 'generated' if step == 'generate' else 'compiled') + ': ' + str(e)[-1200:], dict(corpus=n, step=step))
    weight = lambda t: -getattr(names[t[0]][t[2]], 'weight', 1)
    tasks.sort(key=weight)
    results = []
    with Pool(min(8, os.cpu_count() or 2)) as pool:
        for r in pool.imap_unordered(irdrive.explore, tasks, chunksize=1 if len(tasks) < 400 else 4):
            results.append(r)
    for c in cs.values():
        c.thread.join()
        if c.error:
            rep.error('compiling %s: %s' % (c.name, c.error))
    # replays
    vio = []
    n_ok = n_bad = n_skip = 0
    for n, c in cs.items():
        if not c.sodir:
            continue
        jobs = []
        info = {}
        for r in results:
            if r['corpus'] != n:
                continue
            for k, s in enumerate(r['samples']):
                j = dict(id='s%d.%d' % (r['sc'], k), sc=r['sc'], values=s['values'], choices=s['choices'])
                info[j['id']] = (r, s, None)
                jobs.append(j)
            for k, v in enumerate(r['violations']):
                j = dict(id='v%d.%d' % (r['sc'], k), sc=r['sc'], values=v['values'], choices=v['choices'])
                info[j['id']] = (r, None, v)
                jobs.append(j)
        res = {}
        parts = [jobs[i::4] for i in range(4)]
        concurrent([(lambda p=p: res.update(real_jobs(n, c.sodir, p))) for p in parts if p])
        for j in jobs:
            r, s, v = info[j['id']]
            o = res.get(j['id'], dict(error='no answer'))
            if v is not None:
                vio.append((r, v, o))
            elif 'ok' in o:
                if not same(norm(o['rec']), norm(s['rec'])):
                    n_bad += 1
                    rep.error('%s %s: the real module differs from the model on a sampled path: %r, model %r, input %r %r' %
                              (n, r['name'], o['rec'], s['rec'], s['values'], s['choices']))
                else:
                    n_ok += 1
            elif 'skip' in o:
                n_skip += 1
            elif 'fail' in o:
                vio.append((r, dict(kind=o['fail'][0] if o['fail'][0] in WHAT else 'spec', msg=o['fail'][1] + ' (replay of a path of the encoding)',
                                    values=s['values'], choices=s['choices']), o))
            else:
                rep.error('%s %s: replay of a sampled path: %s' % (n, r['name'], o.get('error')))
    kinds = KINDS.get(pid)
    other = {}
    for r, v, o in vio:
        key = '%s/%s: %s: %s' % (r['corpus'], r.get('name'), v['kind'], v['msg'])
        if kinds and v['kind'] not in kinds:
            other[v['kind']] = other.get(v['kind'], 0) + 1
            continue
        real = 'fail' in o and 'shown by the real module: %s' % o['fail'][1] or 'ok' in o and 'not visible from outside' or 'replay: %s' % (o.get('error') or 'skipped')
        if v['kind'] in ('spec', 'exc', 'call') and 'ok' in o and not v.get('unobservable'):
            rep.error('%s: the real module does not confirm the counterexample %r %r' % (key, v['values'], v['choices']))
            continue
        rep.violation(key, '%s (%s); %s' % (v['msg'], WHAT[v['kind']], real),
                      dict(corpus=r['corpus'], scenario=r.get('name'), sc=r['sc'], kind=v['kind'], values=v['values'], choices=v['choices'], real=o,
                           how='python3-vt lib/ircheck.py --replay <this file>'))
    fns = {}
    for r in results:
        if r['error']:
            rep.error(r['error'])
        if not r['done']:
            rep.error('%s %s: limit reached after %d paths' % (r['corpus'], r.get('name'), r['paths']))
        fns.setdefault(r['corpus'], set()).update(r.get('executed', ()))
    rep.coverage.update(
        technique='symbolic execution of the LLVM IR of the module generated from the current tree, SMT (z3) for every branch and assertion',
        corpora=sorted(cs), scenarios=len(results), paths=sum(r['paths'] for r in results), queries=sum(r['queries'] for r in results),
        branches=sum(r['branches'] for r in results), assertions=sum(r['asserts'] for r in results),
        solver_s=round(sum(r['solver_s'] for r in results), 2), sampled_paths_confirmed_in_real_module=n_ok, samples_skipped=n_skip,
        violations_of_other_properties=other,
        functions_encoded={n: len(f) for n, f in fns.items()},
        functions=sorted('%s:%s' % (n, x) for n, f in fns.items() for x in f)[:1500],
        bounds='per scenario: the argument shapes and value kinds it lists (docs in corpus/sc_*.py); integers -2^79..2^79, all doubles, strings of at most 2 bytes, '
               'lists of at most 3 items unless the scenario says otherwise; every path inside those bounds is explored (a scenario that hits a limit is an error)')
    rep.assumptions += ['clang -O0 LLVM IR of the generated C++ (C++14, libstdc++ replaced by corpus/mini)', 'model of the CPython 3.12 C-API in lib/pymodel.py',
                        'allocations succeed']


def norm(rec):
    return json.loads(json.dumps(rec, default=str))


def same(real, model):
    """values recorded on both sides; the model leaves negative integers as 80-bit words and keeps NaN payloads"""
    if isinstance(real, list) or isinstance(model, list):
        return isinstance(real, list) and isinstance(model, list) and len(real) == len(model) and all(same(a, b) for a, b in zip(real, model))
    if real in ('nan64', 'nan32'):
        return isinstance(model, int)
    if isinstance(real, int) and isinstance(model, int):
        return (real - model) % (1 << 80) == 0
    return real == model


def replay(path):
    with open(path) as f:
        j = json.load(f)['replay']
    base = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        c = Corpus(j['corpus'], base)
        c.generate()
        c.compile()
        c.thread.join()
        print(json.dumps(real_jobs(c.name, c.sodir, [dict(id='r', sc=j['sc'], values=j['values'], choices=j['choices'])]), indent=1))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        replay(sys.argv[2])
    else:
        sys.exit(main(sys.argv[1]))
