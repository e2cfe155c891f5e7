"""common driver of all checks: tiers, evidence files, replays, known findings"""
import json, os, resource, subprocess, sys, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.path.join(VERIF, 'out')
PY_REPO = '/opt/venv/bin/python' if os.path.exists('/opt/venv/bin/python') else sys.executable


def tier():
    return os.environ.get('VERIF_TIER', 'quick')


def seed():
    try:
        return int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        return 1


def known_findings(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop]


class Report(object):
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.t0 = time.time()
        self.coverage = {}
        self.assumptions = []
        self.violations = []        # (key, message, replay dict)
        self.known_hit = []
        self.errors = []

    def violation(self, key, msg, replay):
        """key identifies the failing input/call site, replay is a json-able
        description that re-creates it"""
        for k in known_findings(self.prop):
            if k['key'] == key:
                self.known_hit.append((k, msg))
                return
        self.violations.append((key, msg, replay))

    def error(self, msg):
        self.errors.append(msg)

    def finish(self):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.coverage)
        ev = dict(property=self.prop, tier=tier(), seed=seed(), level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.violations))
        cov['known_findings_seen'] = [k['key'] for k, _ in self.known_hit]
        if self.errors:
            cov['errors'] = self.errors[:20]
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True, default=str)
        for k, msg in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k['what']))
        if self.violations:
            os.makedirs(OUT, exist_ok=True)
            for i, (key, msg, replay) in enumerate(self.violations):
                path = os.path.join(OUT, '%s-%d.json' % (self.prop, i))
                with open(path, 'w') as f:
                    json.dump(dict(property=self.prop, key=key, message=msg, replay=replay), f, indent=1, default=str)
                print("  %s: %s" % (key, msg))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.stdout.flush()
            return 1
        if self.errors:
            for e in self.errors[:20]:
                print("ERROR %s: %s" % (self.prop, e))
            sys.stdout.flush()
            return 3
        print("%s: ok (%s)" % (self.prop, ', '.join('%s=%s' % (k, v) for k, v in sorted(cov.items())
                                                    if isinstance(v, (int, float, bool)))))
        return 0
