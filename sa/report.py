"""Verdicts and evidence of one check."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Report:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.violations = []
        self.undecided = []
        self.known = []
        self.notes = []
        self.coverage = {}
        self.assumptions = []

    def violation(self, construct, text):
        """construct: the place in the analysed program"""
        x = (construct, text)
        if x not in self.violations:
            self.violations.append(x)

    def open(self, text):
        if text not in self.undecided:
            self.undecided.append(text)

    def finish(self, decided=None, total=None):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        c = dict(self.coverage)
        if self.undecided:
            c['undecided'] = len(self.undecided)
            c['undecided_samples'] = self.undecided[:20]
        if self.notes:
            c['notes'] = self.notes[:20]
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': c,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        if self.assumptions:
            ev['assumptions'] = self.assumptions
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
            f.write('\n')
        for x in self.notes[:20]:
            print('note: ' + x)
        for x in self.undecided[:20]:
            print('UNDECIDED: ' + x)
        for x in self.known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, x))
        rp = os.path.join(d, self.pid + '.violations.txt')
        if self.violations:
            with open(rp, 'w') as f:
                for a, b in self.violations:
                    f.write('%s\n    %s\n' % (a, b))
            for a, b in self.violations[:12]:
                print('  %s: %s' % (a, b))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            sys.stdout.flush()
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        if total is not None and decided is not None and decided * 2 < total:
            print('too little could be decided (%d of %d)' % (decided, total))
            return 2
        print('%s: holds on everything analysed (%.1f s)' % (self.pid, time.time() - self.t0))
        return 0


def known_findings(pid):
    out = {}
    with open(os.path.join(VERIF, 'KNOWN_FINDINGS.txt')) as f:
        for l in f:
            w = l.split()
            if len(w) > 2 and w[0] == 'known:' and w[1] == 'property=' + pid:
                out[w[2]] = ' '.join(w[3:])
    return out
