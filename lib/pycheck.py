"""Running a property's Python-level harnesses with pysym, and replaying
counterexamples on the unmodified code.

A harness is a function h(c, tier) in /verif/harness/<PID>.py; `c` is a pysym
Ctx (symbolic run) or a ConcreteCtx (replay).  Harness source is rewritten with
the same hooks as the code under test, so the oracle may use ordinary Python on
symbolic strings.
"""
import importlib, json, os, subprocess, sys, time, traceback, types
from multiprocessing import Pool

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import framework


class ReplayFailure(Exception):
    pass


class ReplayAbort(Exception):
    pass


class ConcreteVar(object):
    def __init__(self, val, n):
        self.val, self.n = val, n

    def pick(self, table):
        return table[self.val]

    def str(self, table):
        return table[self.val]

    def int(self, lo=0):
        return self.val + lo

    def bool(self):
        return bool(self.val)


class ConcreteCtx(object):
    symbolic = False

    def __init__(self, values):
        self.values = values

    def choice(self, name, n):
        return ConcreteVar(self.values.get(name, 0), n)

    def assume(self, cond):
        if not cond:
            raise ReplayAbort()

    def note(self, label, value):
        self.notes = getattr(self, 'notes', []) + ['%s=%r' % (label, value)]

    def require(self, cond, msg):
        if not cond:
            raise ReplayFailure('%s [%s]' % (msg if isinstance(msg, str) else msg(),
                                             ', '.join(getattr(self, 'notes', []))))


def harness_file(pid):
    return os.path.join(VERIF, 'harness', pid + '.py')


def _tb_in_code(tb):
    """True if the exception's innermost frame is in the code under test"""
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    return last


def run_one(args):
    pid, hname, tier, limits, fixed = args
    import pysym
    pysym.install()
    mod = pysym.instrument_file(harness_file(pid), 'harness_' + pid)
    h = getattr(mod, hname)
    ctx = pysym.Ctx(max_paths=limits.get('max_paths', 10 ** 9), max_seconds=limits['seconds'], fixed=fixed)
    ctx.symbolic = True
    ctx.split = limits.get('split', {})
    t0 = time.time()

    def wrapped(c):
        try:
            h(c, tier)
        except (pysym.PathAbort, pysym.Violation, pysym.BudgetExceeded):
            raise
        except Exception as ex:
            last = _tb_in_code(sys.exc_info()[2])
            tb = traceback.format_exc()
            # an exception the harness did not expect is itself a violation
            # candidate: the replay decides
            raise pysym.Violation('unexpected %s: %s' % (type(ex).__name__, ex), c.model_values())
    viol = ctx.explore(wrapped)
    if ctx.bad_split:
        raise RuntimeError('the shards of %s.%s do not cover the choice %s' % (pid, hname, ctx.bad_split))
    out = dict(harness=hname, stats=ctx.stats, reached=ctx.reached, wall_s=time.time() - t0,
               models=ctx.path_models, violations=[dict(msg=v.msg, values=v.values) for v in viol],
               files=sorted(set(os.path.relpath(f, framework.REPO) for f in pysym.finder.loaded if 'vh_' not in f)))
    # vacuity witness: a model of the last explored path
    return out


def replay(pid, hname, values, tier):
    """run the harness on the uninstrumented code; returns None if it holds"""
    env = dict(os.environ, PYTHONPATH=framework.REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'pycheck.py'), '--replay', pid, hname, tier],
                       input=json.dumps(values), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, env=env, timeout=300)
    if p.returncode == 10:
        return p.stdout.strip()
    if p.returncode == 0:
        return None
    raise RuntimeError("replay broke: %s" % p.stdout[-2000:])


def validate(pid, hname, tier, models):
    """run sampled models of explored paths on the uninstrumented code: the
    assertions the encoding discharged must hold there too"""
    env = dict(os.environ, PYTHONPATH=framework.REPO, PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run([sys.executable, os.path.join(HERE, 'pycheck.py'), '--validate', pid, hname, tier],
                       input=json.dumps(models), stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       universal_newlines=True, env=env, timeout=600)
    return p.returncode, p.stdout.strip()


def validate_main(pid, hname, tier):
    models = json.load(sys.stdin)
    mod = load_plain(pid)
    for m in models:
        c = ConcreteCtx(m)
        try:
            getattr(mod, hname)(c, tier)
        except ReplayAbort:
            print('path model aborts on the real code: %r' % (m,))
            return 11
        except ReplayFailure as ex:
            print('path model fails on the real code: %s %r' % (ex, m))
            return 11
    return 0


def load_plain(pid):
    import importlib.util
    sys.path.insert(0, os.path.join(VERIF, 'harness'))
    spec = importlib.util.spec_from_file_location('harness_' + pid, harness_file(pid))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def replay_main(pid, hname, tier):
    values = json.load(sys.stdin)
    mod = load_plain(pid)
    c = ConcreteCtx(values)
    try:
        getattr(mod, hname)(c, tier)
    except ReplayAbort:
        return 0
    except ReplayFailure as ex:
        print(ex)
        return 10
    except Exception:
        print(traceback.format_exc())
        return 10
    return 0


def merge(results):
    """one result per harness from its shards"""
    out = {}
    for r in results:
        o = out.get(r['harness'])
        if o is None:
            out[r['harness']] = r
            continue
        for k, v in r['stats'].items():
            if k == 'complete':
                o['stats'][k] = o['stats'][k] and v
            else:
                o['stats'][k] += v
        for k, v in r['reached'].items():
            o['reached'][k] = o['reached'].get(k, 0) + v
        o['wall_s'] += r['wall_s']
        o['files'] = sorted(set(o['files']) | set(r['files']))
        o['violations'] += r['violations']
        o['models'] += r['models']
    for o in out.values():
        o['violations'] = o['violations'][:3]
    return list(out.values())


def run(pid, rep, tier, jobs=8):
    """run all harnesses of pid; fills the report"""
    import importlib.util
    spec = importlib.util.spec_from_file_location('hlist_' + pid, harness_file(pid))
    # the list of harnesses is static data at the end of the file
    src = open(harness_file(pid)).read()
    ns = {}
    marker = src.index('# HARNESSES')
    exec(src[marker:], ns)
    jobsl = []
    for hname, lim in ns['HARNESSES'].items():
        l = dict(lim.get('all', {}))
        l.update(lim.get(tier, {}))
        l.setdefault('seconds', 100 if tier == 'quick' else 800)
        # shards: the values of the first few choices, explored in parallel
        shards = [{}]
        for name, n in l.get('split', {}).items():
            shards = [dict(s, **{name: v}) for s in shards for v in range(n)]
        for s in shards:
            jobsl.append((pid, hname, tier, l, s))
    with Pool(min(jobs, len(jobsl)), maxtasksperchild=1) as pool:
        res = merge(pool.imap_unordered(run_one, jobsl, chunksize=1))
    tot = dict(paths=0, queries=0, solver_s=0.0, asserts=0, branches=0, aborted=0)
    complete = True
    files = set()
    validated = 0
    samples = []
    for r in res:
        for k in tot:
            tot[k] += r['stats'][k]
        complete = complete and r['stats']['complete']
        files.update(r['files'])
        samples.append(dict(harness=r['harness'], paths=r['stats']['paths'], complete=r['stats']['complete'],
                            assertions=r['reached'], wall_s=round(r['wall_s'], 2)))
        if not r['violations'] and (r['stats']['paths'] == 0 or not r['reached']):
            rep.error('%s is vacuous: no path reached an assertion' % r['harness'])
        if r['models'] and not r['violations']:
            rc, text = validate(pid, r['harness'], tier, r['models'])
            if rc:
                rep.error('%s: encoding and real code disagree: %s' % (r['harness'], text[-1500:]))
            validated += len(r['models'])
        for v in r['violations']:
            got = replay(pid, r['harness'], v['values'], tier)
            if got is None:
                rep.error('%s: counterexample does not reproduce: %s %s' % (r['harness'], v['msg'], v['values']))
            else:
                rep.violation('%s:%s' % (r['harness'], v['msg'].split('\n')[0][:120]), got,
                              dict(engine='pysym', pid=pid, harness=r['harness'], tier=tier, values=v['values'],
                                   cmd='echo VALUES | PYTHONPATH=/repo python3-vt lib/pycheck.py --replay %s %s %s'
                                   % (pid, r['harness'], tier)))
    tot['solver_s'] = round(tot['solver_s'], 3)
    tot.pop('aborted')
    return dict(tot, exhaustive=complete, functions_encoded=sorted(files), samples=samples,
                harnesses=len(res), traces_validated_against_impl=validated)


def main(pid, rep=None):
    t = framework.tier()
    rep = framework.Report(pid, 'model_checking')
    try:
        cov = run(pid, rep, t)
    except Exception:
        rep.error(traceback.format_exc())
        cov = {}
    ns = open(harness_file(pid)).read()
    import ast
    doc = ast.get_docstring(ast.parse(ns)) or ''
    cov['states'] = cov.get('paths', 0)
    cov['transitions'] = cov.get('branches', 0)
    cov.setdefault('traces_validated_against_impl', 0)
    cov.setdefault('samples', [])
    cov['bounds'] = doc
    rep.coverage = cov
    rep.assumptions = ['inputs outside the stated bounds are not covered', 'pysym string/dict models; every counterexample is replayed on the unmodified code']
    return rep.finish()


if __name__ == '__main__':
    if sys.argv[1] == '--replay':
        sys.exit(replay_main(*sys.argv[2:5]))
    if sys.argv[1] == '--validate':
        sys.exit(validate_main(*sys.argv[2:5]))
