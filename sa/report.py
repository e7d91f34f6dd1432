"""Common ending of every check: known findings, VIOLATION lines, evidence file."""
import json, os, re, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class NotDecided(Exception):
    """the code has a form this analysis has no access to (a function it starts from is gone, every trace was given up)"""


class Result:
    def __init__(self):
        self.violations = []   # (key, where, message)
        self.undecided = []    # constructs the analysis has no model for: reported, never an alarm
        self.coverage = {}
        self.level = 'other'
        self.rule = ''
        self.samples = []

    def bad(self, key, where, msg):
        if not any(v[0] == key and v[1] == where for v in self.violations):
            self.violations.append((key, where, msg))


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'^known: property=(\S+) key=(\S+)\s+(.*)$', l)
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3).strip()
    return out


def finish(prop, res, t0, tier):
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    kn = known(prop)
    new, old = [], {}
    for k, w, m in res.violations:
        if k in kn:
            old.setdefault(k, []).append((w, m))
        else:
            new.append((k, w, m))
    rp = os.path.join(evdir, prop + '.violation.txt')
    if os.path.exists(rp):
        os.unlink(rp)
    for k, l in old.items():
        print('KNOWN-FINDING: property=%s %s [%s] at %s' % (prop, kn[k], k, l[0][0]))
    for u in sorted(set(res.undecided))[:20]:
        print('undecided: property=%s %s' % (prop, u))
    cov = dict(res.coverage)
    cov['rule'] = res.rule
    cov['undecided'] = sorted(set(res.undecided))[:50]
    cov['violations'] = len(new)
    cov['known_findings'] = sorted(old)
    if res.samples:
        cov['samples'] = res.samples[:12]
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level=res.level, coverage=cov,
              wall_s=round(time.time() - t0, 2))
    with open(os.path.join(evdir, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
        f.write('\n')
    if new:
        with open(rp, 'w') as f:
            for k, w, m in new:
                f.write('%s: %s\n  key: %s\n' % (w, m, k))
        for k, w, m in new[:25]:
            print('%s: %s  [%s]' % (w, m, k))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: holds on everything analysed (%s)' % (prop, ', '.join('%s=%s' % (k, v) for k, v in res.coverage.items() if isinstance(v, int))))
    return 0
