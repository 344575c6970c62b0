"""Results, evidence files, known findings."""
import json
import os
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'KNOWN_FINDINGS')


class Result:
    """what one check decided"""

    def __init__(self):
        self.findings = []        # (Finding, context)
        self.obligations = 0
        self.cover = {}           # name -> number or list, measured
        self.rule = ''
        self.samples = []

    def add(self, findings, context=''):
        for f in findings:
            self.findings.append((f, context))

    def count(self, name, n):
        self.cover[name] = self.cover.get(name, 0) + n


def load_known():
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                l = l.strip()
                if l.startswith('{'):
                    out.append(json.loads(l))
    return out


def func_of(where):
    return where[where.find('(') + 1:-1] if where.endswith(')') and '(' in where else ''


def is_known(prop, f, known):
    for k in known:
        if k.get('property') != prop:
            continue
        m = k['match']
        if m.get('rule') and m['rule'] != f.rule:
            continue
        if m.get('function') and m['function'] != func_of(f.where):
            continue
        if m.get('file') and not f.where.startswith(m['file'] + ':'):
            continue
        if m.get('text') and m['text'] not in f.text:
            continue
        return k
    return None


def finish(prop, res, tier, seed, t0, error=None):
    """write the evidence, print the verdict, return the exit code"""
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    known = load_known()
    new, old = [], []
    seen = set()
    for f, ctx in res.findings:
        key = (f.where, f.rule, f.text)
        if key in seen:
            continue
        seen.add(key)
        k = is_known(prop, f, known)
        (old if k else new).append((f, ctx, k))
    n = res.obligations
    cov = {'explanation': res.rule, 'obligations': n,
           'discharged': max(0, n - len(new) - len(old)), 'samples': res.samples[:12]}
    cov.update(res.cover)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
         'violations': len(new), 'wall_s': round(time.time() - t0, 3)}
    if error:
        d['coverage']['error'] = error
    with open(os.path.join(ev, prop + '.json'), 'w') as f:
        json.dump(d, f, indent=1, default=str)
        f.write('\n')
    if error:
        print('ERROR property=%s %s' % (prop, error))
        return 2
    for f, ctx, k in old:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if new:
        path = os.path.join(ev, prop + '.violation.txt')
        with open(path, 'w') as o:
            o.write('property %s is not established on this tree\nreplay: python3 %s/check.py %s'
                    '\n\n' % (prop, VERIF, prop))
            for f, ctx, k in new:
                o.write('%s%s\n' % (f, ' [%s]' % ctx if ctx else ''))
                for l in getattr(f, 'path', ()):
                    o.write('    via %s\n' % l)
        for f, ctx, k in new[:20]:
            print('%s%s' % (f, ' [%s]' % ctx if ctx else ''))
        if len(new) > 20:
            print('... %d more' % (len(new) - 20))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('OK property=%s: %d obligations discharged%s' % (
        prop, n - len(old), ''.join(', %s %s' % (v, k.replace('_', ' '))
                                    for k, v in sorted(res.cover.items())
                                    if isinstance(v, int))))
    return 0
