"""Results of a check: evidence, known findings, exit status."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Broken(Exception):
    """an anchor of the analysis is gone: the check cannot decide anything"""


def known(pid):
    """keys of the known findings of a property"""
    out = {}
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('known: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                out[key.strip()] = what.strip()
    return out


class Budget(BaseException):
    """the time of a scenario is used up"""


class Timeout(BaseException):
    """the time of the check is used up"""


CURRENT = []


def limit(timer, seconds):
    """raise Timeout (timer 'wall') or Budget (timer 'cpu') after so many seconds; 0 switches it off"""
    import signal
    which, sig = {'wall': (signal.ITIMER_REAL, signal.SIGALRM), 'cpu': (signal.ITIMER_VIRTUAL, signal.SIGVTALRM)}[timer]

    def stop(*a): raise (Timeout if timer == 'wall' else Budget)('time used up')
    signal.signal(sig, stop)
    signal.setitimer(which, seconds)


class Report(object):
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obligations = []      # (what, where)
        self.undecided = []
        self.violations = []       # (key, message)
        self.analysed = {}
        self.rules = []
        self.assumptions = []
        self.minimum = {}
        CURRENT[:] = [self]

    def rule(self, text):
        self.rules.append(text)

    def ok(self, what, n=1):
        self.obligations.append((what, n))

    def undec(self, what):
        self.undecided.append(what)

    def violation(self, key, message):
        if (key, message) not in self.violations:
            self.violations.append((key, message))

    def count(self, name, n):
        self.analysed[name] = self.analysed.get(name, 0) + n

    def need(self, name, n):
        self.minimum[name] = n

    def finish(self, level_note=''):
        kn = known(self.pid)
        new, old = [], []
        for k, m in self.violations:
            (old if k in kn else new).append((k, m))
        n = sum(c for _, c in self.obligations)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        replay = os.path.join(VERIF, 'evidence', self.pid + '.violation.txt')
        if os.path.exists(replay): os.remove(replay)
        short = [k for k, v in self.minimum.items() if self.analysed.get(k, 0) < v]
        status = 1 if new else 0
        cov = {
            'explanation': 'Static analysis of the current source: ' + ' '.join(self.rules),
            'analysed': self.analysed,
            'obligations_proved': n,
            'obligation_list': [w if c == 1 else '%s (%d)' % (w, c) for w, c in self.obligations][:300],
            'undecided': len(self.undecided),
            'undecided_list': self.undecided[:100],
            'fewer_instances_than_in_the_original': short,
            'known_findings': sorted(set(k for k, _ in old)),
        }
        ev = dict(property=self.pid, tier=self.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='other',
                  coverage=cov, wall_s=round(time.time() - self.t0, 2), assumptions=self.assumptions, violations=len(new))
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s: %d obligations proved, %d undecided, %d violations (%d known); analysed %s; %.1f s' % (
            self.pid, n, len(self.undecided), len(new), len(old), self.analysed, time.time() - self.t0))
        for u in self.undecided[:20]:
            print('  undecided: %s' % u)
        seen = set()
        for k, m in old:
            if k in seen: continue
            seen.add(k)
            print('KNOWN-FINDING: property=%s %s' % (self.pid, kn[k]))
        if new:
            with open(replay, 'w') as f:
                for k, m in new:
                    f.write('%s\n    %s\n' % (k, m))
            for k, m in new[:20]:
                print('  violation: %s: %s' % (k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, replay))
        elif short:
            print('note: fewer instances than confirmed: %s' % ', '.join(
                '%s %d < %d' % (k, self.analysed.get(k, 0), self.minimum[k]) for k in short))
        return status
