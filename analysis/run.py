#!/usr/bin/env python3
"""check driver:  run.py <property id>

exit 0: every obligation holds; 1: a violation not listed as a known finding;
2: the analysis could not be carried out (unparsable source, missing anchor)."""
import importlib, json, os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import facts, interp

VERIF = facts.VERIF


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.prog = facts.load()
        self.eff = interp.Effects(self.prog)
        self.viol = {}
        self.counts = {}
        self.samples = []
        self.notes = []
        self.truncated = set()

    def bad(self, key, where, msg):
        """key identifies the finding independently of line numbers"""
        self.viol.setdefault(key, (where, msg))

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12 and s not in self.samples: self.samples.append(s)

    def need(self, n, what, least=1):
        n = n if isinstance(n, int) else len(n)
        if n < least:
            raise facts.AnalysisBroken('%s: found %d, expected at least %d' % (what, n, least))

    def engine(self, rule):
        rule.cx = self
        return interp.Engine(self.prog, rule, self.eff)

    def finish_engine(self, eng, label):
        s = eng.stats
        self.count(label + ': functions analysed', s['functions'])
        self.count(label + ': abstract states', s['states'])
        self.count(label + ': call sites', s['calls'])
        self.count(label + ': helper calls spliced in', s['inlined'])
        if s.get('truncated'):
            self.count(label + ': functions cut at the state bound', s['truncated'])
            self.truncated |= s['truncated_in']


def known(pid):
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: property=%s ' % pid):
                rest = line.split(' ', 2)[2]
                key, _, text = rest.partition(' -- ')
                out[key.replace('key=', '', 1)] = text
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if tier not in ('quick', 'thorough'): tier = 'quick'
    t0 = time.time()
    try:
        mod = importlib.import_module('checks.' + pid.lower())
        cx = Ctx(pid, tier)
        try:
            mod.check(cx)
        except facts.AnalysisBroken as e:
            # a missing anchor after a reported violation does not hide the violation
            if not [k for k in cx.viol if k not in known(pid)]: raise
            cx.notes.append('incomplete: %s' % e)
    except facts.AnalysisBroken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    kn = known(pid)
    new = {k: v for k, v in cx.viol.items() if k not in kn}
    old = {k: v for k, v in cx.viol.items() if k in kn}
    wall = time.time() - t0
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    rep = os.path.join(VERIF, 'evidence', pid + '.report.txt')
    cov = {'explanation': mod.EXPLAIN, 'rule': mod.RULE,
           'translation_units': len(cx.prog.tus) - 1,
           'functions_in_program': len(cx.prog.funcs),
           'measured': dict(sorted(cx.counts.items())),
           'samples': cx.samples, 'known_findings_seen': sorted(old)}
    if cx.truncated: cov['cut_at_state_bound'] = sorted(cx.truncated)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUME', []) + cx.notes, 'wall_s': round(wall, 2), 'violations': len(new)}
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    with open(rep, 'w') as f:
        f.write('property %s\nrule: %s\n\n' % (pid, mod.RULE))
        for k, (w, m) in sorted(new.items()):
            f.write('VIOLATION %s\n  at %s\n  %s\n' % (k, w, m))
        for k, (w, m) in sorted(old.items()):
            f.write('KNOWN %s\n  at %s\n  %s\n' % (k, w, m))
    print('%s: %d units, %d functions; %s' % (pid, len(cx.prog.tus) - 1, len(cx.prog.funcs),
          '; '.join('%s=%s' % kv for kv in sorted(cx.counts.items()))))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s -- %s' % (pid, k, kn[k]))
    for k, (w, m) in sorted(new.items()):
        print('%s: [%s] %s' % (w, k, m))
    if new:
        print('VIOLATION property=%s replay=%s' % (pid, rep))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
