#!/usr/bin/env python3
"""Development aid: run every check on edited copies of /repo (in one process per edit).
   mut.py <file.py> [name ...]: the file defines EDITS = [(name, kind, file, [(old, new), ...], [expected properties])]
   kind 'ref' edits keep the behaviour (every check must be quiet), 'bug' edits do not."""
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
RUN = r'''
import sys, time, traceback
sys.path.insert(0, %r); sys.setrecursionlimit(20000)
sys.argv = ['check.py']
import check, report
from engine import Anchor, Incomplete
from build import BuildError
reg = check.registry()
want = %r
for p in sorted(reg):
    if want and p not in want: continue
    try:
        r = reg[p]('quick')
        new = [f for f, c in r.findings if not report.is_known(p, f, report.load_known())]
        if new: print('V', p, len(new), '|', str(new[0])[:230])
        elif not r.obligations: print('E', p, 'nothing')
    except Incomplete as e: print('V', p, 'incomplete', str(e)[:230])
    except (Anchor, BuildError) as e: print('E', p, str(e)[:300])
    except Exception: print('E', p, traceback.format_exc()[-700:])
'''


def one(e, want):
    name, kind, file, edits = e[:4]
    exp = e[4] if len(e) > 4 else []
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        for s in ('src', 'q3asm', 'lcc', 'example', 'test'):
            shutil.copytree('/repo/' + s, d + '/' + s, ignore=shutil.ignore_patterns('*.o'))
        p = d + '/' + file
        t = open(p, encoding='latin-1').read()
        for old, new in edits:
            if t.count(old) < 1:
                return name, kind, exp, ['E EDIT does not apply: %r' % old[:60]]
            t = t.replace(old, new, 1)
        open(p, 'w', encoding='latin-1').write(t)
        env = dict(os.environ, VERIF_REPO=d)
        try:
          r = subprocess.run([sys.executable, '-c', RUN % (os.path.dirname(HERE), want)],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=400,
                           cwd=os.path.dirname(HERE))
        except subprocess.TimeoutExpired:
            return name, kind, exp, ['E timeout']
        if r.returncode:
            return name, kind, exp, ['E rc %d' % r.returncode]
        return name, kind, exp, r.stdout.strip().split('\n') if r.stdout.strip() else []
    finally:
        shutil.rmtree(d)


def main():
    ed = runpy.run_path(sys.argv[1])['EDITS']
    names = [a for a in sys.argv[2:] if not (a[0] == 'C' and a[1:].isdigit())]
    want = [a for a in sys.argv[2:] if a[0] == 'C' and a[1:].isdigit()]
    if names:
        ed = [e for e in ed if e[0] in names]
    bad = 0
    with ThreadPoolExecutor(8) as ex:
        for name, kind, exp, out in ex.map(lambda e: one(e, want), ed):
            hit = sorted({l.split()[1] for l in out if l.startswith('V')})
            err = any(l.startswith('E') or not l.startswith('V') for l in out)
            ok = not err and (not out if kind == 'ref' else
                              bool(set(hit) & set(exp)) if exp else bool(hit))
            bad += not ok
            print('%-5s %s %s expected=%s got=%s' % (('part' if set(exp) - set(hit) else 'ok') if ok else 'BAD', kind, name,
                                                   ','.join(exp), ','.join(hit)))
            if not ok:
                for l in out[:8]:
                    print('        ' + l)
            sys.stdout.flush()
    print('%d edits, %d bad' % (len(ed), bad))


main()
