"""Collects obligations and violations of one check, writes the evidence file, decides the exit status."""
import json, os, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('VERIF_EVID') or os.path.join(VERIF, 'evidence')

class Lost(Exception):
    """The analysis cannot find its subject (anchor vanished, too few instances, tool failed)."""

class Report:
    def __init__(self, prop, rule, assumptions=(), level='other'):
        self.prop, self.rule, self.assumptions, self.level = prop, rule, list(assumptions), level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.counts = {}
        self.samples = {}
        self.viol = {}
        self.subjects = set()
        self.floors = []
        self.extra = {}

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def ob(self, kind, where='', subject=None, n=1):
        """one obligation of this kind was examined (whatever its outcome)"""
        self.counts[kind] = self.counts.get(kind, 0) + n
        s = self.samples.setdefault(kind, [])
        if where and len(s) < 6:
            s.append(str(where))
        if subject:
            self.subjects.add(subject)

    def violate(self, key, msg, where=''):
        """key identifies rule+construct (no line numbers)"""
        self.viol.setdefault(key, (msg, where))

    def floor(self, kind, n):
        self.floors.append((kind, n))

    # ------------------------------------------------------------------
    def known(self):
        out = {}
        p = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')
        if os.path.exists(p):
            for l in open(p):
                if l.startswith('finding: property=%s ' % self.prop):
                    k, _, rest = l.split(' key=', 1)[1].partition(' :: ')
                    out[k.strip()] = rest.strip()
        return out

    def finish(self):
        known = self.known()
        new = {k: v for k, v in self.viol.items() if k not in known}
        for k, n in self.floors:
            if self.counts.get(k, 0) < n and not new:
                raise Lost('only %d instances of "%s" (expected at least %d)' % (self.counts.get(k, 0), k, n))
        os.makedirs(EVID, exist_ok=True)
        total = sum(self.counts.values())
        cov = {'explanation': self.rule, 'rule': self.rule, 'obligations': total,
               'discharged': total - len(self.viol) if total >= len(self.viol) else 0,
               'obligations_by_kind': self.counts,
               'samples': [{'kind': k, 'where': v} for k, v in self.samples.items()],
               'subjects': sorted(self.subjects)[:400], 'n_subjects': len(self.subjects)}
        cov.update(self.extra)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 3), 'violations': len(new)}
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for k, (m, w) in sorted(self.viol.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[k] or m))
        if new:
            rp = os.path.join(EVID, self.prop + '.violations.txt')
            with open(rp, 'w') as f:
                for k, (m, w) in sorted(new.items()):
                    f.write('%s\n    at %s\n    key=%s\n' % (m, w, k))
            for k, (m, w) in sorted(new.items()):
                print('  %s  [%s] (key=%s)' % (m, w, k))
            print('VIOLATION property=%s replay=%s' % (self.prop, rp))
            return 1
        print('OK property=%s obligations=%d %s' % (self.prop, total, self.counts))
        return 0
