"""Result collection: obligations, violations, known findings, evidence."""
import os, sys, json, time, traceback
from .facts import VERIF, AnalysisError, program
import re


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) key=(\S+) (.*)', l)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


class Check:
    def __init__(self, pid, rule):
        self.pid = pid
        self.rule = rule
        self.obl = {}        # key -> description (obligation)
        self.viol = {}       # key -> text
        self.samples = []
        self.counts = {}
        self.assume = []

    def ok(self, key, text=''):
        self.obl.setdefault(key, text)

    def bad(self, key, where, text):
        """key: stable identification without line numbers"""
        key = key.replace(' ', '_')
        self.obl.setdefault(key, text)
        self.viol.setdefault(key, '%s: %s' % (where, text))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def require(self, name, n, minimum):
        """vacuity guard"""
        self.counts[name] = n
        if n < minimum:
            raise AnalysisError('rule instance count fell below what was confirmed: %s = %d < %d' % (name, n, minimum))


def main(pid, fn, rule, level_explain, trusted=()):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ck = Check(pid, rule)
    try:
        prog = program()
        ck.prog = prog
        fn(prog, ck)
    except AnalysisError as e:
        print('ANALYSIS-ERROR property=%s: %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-ERROR property=%s: internal error' % pid)
        return 2
    kn = known()
    new = {k: v for k, v in ck.viol.items() if (pid, k) not in kn}
    old = {k: v for k, v in ck.viol.items() if (pid, k) in kn}
    ev = {
        'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
        'coverage': {
            'explanation': level_explain,
            'rule': rule,
            'translation_units': len(prog.tus),
            'functions_parsed': len(prog.fns),
            'obligations': len(ck.obl),
            'discharged': len(ck.obl) - len(ck.viol),
            'counts': ck.counts,
            'samples': [{'obligation': k, 'what': v} for k, v in list(ck.obl.items())[:: max(1, len(ck.obl) // 12)]][:14],
            'known_findings': sorted(old),
        },
        'assumptions': list(trusted) + ck.assume,
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    with open(VERIF + '/evidence/%s.json' % pid, 'w') as fh:
        json.dump(ev, fh, indent=1)
    for k, v in sorted(old.items()):
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (pid, k, v, kn[(pid, k)]))
    if os.environ.get('DY_LIST'):
        for k, v in ck.obl.items():
            print('  OBL', k, '|', v)
    print('%s: %d obligations, %d violated (%d known), counts %s, %.1fs' % (pid, len(ck.obl), len(ck.viol), len(old), ck.counts, time.time() - t0))
    if new:
        rp = 'evidence/%s.violations.txt' % pid
        with open(os.path.join(VERIF, rp), 'w') as fh:
            fh.write('rule: %s\n' % rule)
            for k, v in sorted(new.items()):
                fh.write('%s\n    %s\n' % (k, v))
        for k, v in sorted(new.items()):
            print('  %s\n      [%s]' % (v, k))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0
