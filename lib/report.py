"""Findings, known findings and evidence."""
import json, os, sys, time, traceback
from ccload import VERIF, AnalysisBroken

KNOWN = os.path.join(VERIF, 'known_findings.json')
EVID = os.environ.get('VERIF_EVID', os.path.join(VERIF, 'evidence'))


class Finding:
    """key identifies the violating construct without line numbers."""

    def __init__(self, key, where, rule, msg, path=()):
        self.key, self.where, self.rule, self.msg, self.path = key, where, rule, msg, list(path)

    def text(self):
        s = '%s: [%s] %s\n    key: %s' % (self.where, self.rule, self.msg, self.key)
        for p in self.path:
            s += '\n    via ' + p
        return s


def known(prop):
    if not os.path.exists(KNOWN):
        return {}
    d = json.load(open(KNOWN))
    return {k['key']: k for k in d.get('known', []) if k['property'] == prop}


def finish(prop, t0, findings, coverage, assumptions):
    os.makedirs(EVID, exist_ok=True)
    kn = known(prop)
    seen, new, old = set(), [], []
    for f in findings:
        if f.key in seen:
            continue
        seen.add(f.key)
        (old if f.key in kn else new).append(f)
    rp = os.path.join(EVID, prop + '.report.txt')
    with open(rp, 'w') as o:
        o.write('%s: %d violation(s), %d known finding(s)\n\n' % (prop, len(new), len(old)))
        for f in new:
            o.write('VIOLATION ' + f.text() + '\n\n')
        for f in old:
            o.write('KNOWN ' + f.text() + '\n\n')
    ev = {'property': prop, 'tier': os.environ.get('VERIF_TIER', 'quick'),
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': coverage, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1)
    for f in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, kn[f.key].get('what', f.key)))
    for f in new:
        print(f.text())
    if new:
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    print('%s: held; %s' % (prop, coverage.get('explanation', '')[:300]))
    return 0
