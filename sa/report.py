"""Obligations, verdicts, evidence."""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, 'known_findings.txt')


class Report(object):
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obs = []  # (rule, construct, ok, detail, loc)
        self.rules = {}
        self.functions = set()
        self.notes = []
        self.assumptions = []
        self.counts = {}

    def rule(self, name, text, minimum=1):
        """declare a rule and the least number of instances it must be decided on"""
        self.rules[name] = (text, minimum)

    def ob(self, rule, construct, ok, detail='', loc=''):
        if rule not in self.rules:
            self.rules[rule] = ('', 1)
        self.obs.append((rule, construct, bool(ok), detail, loc))
        return ok

    def note(self, rule, construct, why):
        """an instance the rule applies to but cannot decide: recorded, never reported as a violation"""
        self.notes.append((rule, construct, why))

    def used(self, *funcs):
        for f in funcs:
            self.functions.add(getattr(f, 'qual', f))

    def analysed(self, interp):
        self.functions |= interp.functions_analysed

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def known(self):
        out = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as f:
                for line in f:
                    line = line.strip()
                    if line.startswith('known: property=%s ' % self.pid):
                        # known: property=P01 rule=<rule> construct=<construct> :: text
                        rest = line.split(' ', 2)[2]
                        key, _, text = rest.partition(' :: ')
                        out[key.strip()] = text.strip()
        return out

    def finish(self):
        per = {}
        for rule, con, ok, d, loc in self.obs:
            per.setdefault(rule, [0, 0])
            per[rule][0] += 1
            per[rule][1] += ok
        short = []
        for r, (text, minimum) in self.rules.items():
            if per.get(r, [0])[0] + sum(1 for x in self.notes if x[0] == r) < minimum:
                short.append('%s: %s instances, at least %s expected' % (r, per.get(r, [0])[0], minimum))
        known = self.known()
        viol, seen, hits = [], set(), []
        for rule, con, ok, d, loc in self.obs:
            if ok:
                continue
            key = 'rule=%s construct=%s' % (rule, con)
            if key in known:
                if key not in seen:
                    hits.append((key, known[key]))
                seen.add(key)
                continue
            if key in seen:
                continue
            seen.add(key)
            viol.append({'rule': rule, 'rule_text': self.rules[rule][0], 'construct': con, 'detail': d, 'location': loc})
        cov = {'kind': 'other',
               'explanation': 'static analysis of /repo sources: %d obligations from %d rules over %d analysed functions; '
                              'each obligation is one construct (function, call site or exit path) a rule was decided on'
                              % (len(self.obs), len(self.rules), len(self.functions)),
               'obligations': len(self.obs), 'discharged': sum(1 for o in self.obs if o[2]),
               'functions_analysed': len(self.functions), 'functions': sorted(self.functions)[:400],
               'rules': [{'rule': r, 'text': t[0], 'instances': per.get(r, [0, 0])[0], 'held': per.get(r, [0, 0])[1]}
                         for r, t in self.rules.items()],
               'counts': self.counts, 'undecided': [{'rule': r, 'construct': c, 'why': w} for r, c, w in self.notes],
               'sample_obligations': [{'rule': o[0], 'construct': o[1], 'held': o[2]} for o in self.obs[:200]]}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other', 'coverage': cov,
              'wall_s': round(time.time() - self.t0, 3), 'violations': len(viol),
              'assumptions': self.assumptions or ['Python semantics of the constructs as modelled by /verif/sa (see DESIGN.md)']}
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for r, t in self.rules.items():
            n, h = per.get(r, [0, 0])
            print('  %-34s %3d/%d  %s' % (r, h, n, t[0]))
        print('%s: %d obligations, %d functions analysed, %.1fs' % (self.pid, len(self.obs), len(self.functions), time.time() - self.t0))
        if self.notes:
            print('  not decided: ' + ', '.join(sorted({c for r, c, w in self.notes}))[:400])
        for key, text in hits:
            print('KNOWN-FINDING: property=%s %s :: %s' % (self.pid, key, text))
        if viol:
            path = os.path.join(HERE, 'evidence', self.pid + '.violation.json')
            with open(path, 'w') as f:
                json.dump(viol, f, indent=1, default=str)
            for v in viol:
                print('  violated [%s] %s  (%s)\n      %s' % (v['rule'], v['construct'], v['location'], v['detail'][:300]))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if short:
            for s in short:
                print('ANALYSIS-BROKEN: ' + s)
            return 2
        return 0
