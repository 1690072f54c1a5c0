"""What all checks share: seeds, tiers, verdicts, evidence, known findings."""
import hashlib
import json
import os
import random
import re
import shutil
import sys
import time
import traceback
import harness
from harness import Inconclusive, VERIF

FINDINGS = os.path.join(VERIF, 'known-findings.txt')


def known_findings(prop):
    """Lines 'known: property=<id> case=<case> <text>' of the committed file."""
    res = {}
    if os.path.exists(FINDINGS):
        with open(FINDINGS) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) case=(\S+) (.*)', line)
                if m and m.group(1) == prop:
                    res[m.group(2)] = m.group(3).strip()
    return res


class Check:
    level = 'exploration'

    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.evaluations = 0
        self.distinct = set()
        self.samples = []
        self.counts = {}
        self.violations = []
        self.known = known_findings(prop)
        self.known_hit = []
        self.notes = []
        self.replays = os.path.join(VERIF, 'evidence', 'replay', prop)
        shutil.rmtree(self.replays, ignore_errors=True)

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def rng(self, *key):
        return random.Random('%s/%s/%s' % (self.seed, self.prop, '/'.join(str(k) for k in key)))

    def time_left(self, budget):
        return budget - (time.time() - self.t0)

    # -- what was observed
    def count(self, key, n=1):
        self.counts[key] = self.counts.get(key, 0) + n

    def seen(self, *key):
        """Counts an evaluation; key identifies a non-trivial observation (None: trivial)."""
        self.evaluations += 1
        if key and key[0] is not None:
            self.distinct.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def sample(self, s, n=3):
        if len(self.samples) < n:
            self.samples.append(s if not isinstance(s, str) else s[:1500])

    def note(self, s):
        self.notes.append(s)

    # -- verdicts
    def violate(self, what, replay, case=None):
        """what: one line; replay: dict with everything needed to see it again."""
        if case is not None and case in self.known:
            if case not in self.known_hit:
                self.known_hit.append(case)
                print('KNOWN-FINDING: property=%s case=%s %s' % (self.prop, case, self.known[case]))
            return
        n = len(self.violations)
        self.violations.append(what)
        if n >= 10:
            return
        os.makedirs(self.replays, exist_ok=True)
        path = os.path.join(self.replays, '%d.json' % n)
        with open(path, 'w') as f:
            json.dump(dict(property=self.prop, seed=self.seed, tier=self.tier, what=what, **replay), f, indent=1,
                      ensure_ascii=False, default=str)
        print('VIOLATION property=%s replay=%s' % (self.prop, path))
        print('  ' + what[:1500].replace('\n', '\n  '))
        sys.stdout.flush()

    def finish(self):
        cov = dict(evaluations=self.evaluations, distinct_nontrivial=len(self.distinct), rule=self.rule,
                   samples=self.samples)
        cov.update({'observed': self.counts} if self.counts else {})
        if self.notes:
            cov['notes'] = self.notes[:20]
        ev = dict(property=self.prop, tier='thorough' if self.thorough else 'quick', seed=self.seed, level=self.level,
                  coverage=cov, assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2),
                  violations=len(self.violations))
        if self.known_hit:
            ev['coverage']['known_findings'] = self.known_hit
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print('%s %s seed=%d: %d evaluations, %d distinct, %d violations, %.1f s' % (
            self.prop, self.tier, self.seed, self.evaluations, len(self.distinct), len(self.violations),
            time.time() - self.t0))
        return 1 if self.violations else 0


def main(prop, run, rule, assumptions=()):
    c = Check(prop, rule, assumptions)
    try:
        run(c)
        if c.evaluations == 0 and not c.violations:
            raise Inconclusive('nothing was observed')
        rc = c.finish()
    except Inconclusive as e:
        c.note('inconclusive: %s' % e)
        rc = c.finish()
        if rc == 0:
            print('INCONCLUSIVE property=%s %s' % (prop, str(e)[:3000]))
            rc = 2
    except Exception:
        traceback.print_exc()
        c.note('internal error')
        rc = c.finish() or 2
    return rc
