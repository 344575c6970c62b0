#!/usr/bin/env python3
"""Development aid: write /verif/seeded/<id>/ from the descriptions in seeds_*.py and confirm each one in a scratch copy.
   mkseed.py [--verify] [id ...]"""
import glob
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')


def place(s):
    # src/ is compiled as C89: the comment line ("// note ...") vcheck appends to each file that a bug in seeded/
    # touches does not compile there, so these bugs are kept beside seeded/
    v = any(f.startswith('src/') for f, o, n in s['edits'])
    return os.path.join(os.path.dirname(HERE), 'planted_vm') if v else SEEDED


def write(s):
    d = os.path.join(place(s), s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='seed_')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'list'], stdout=subprocess.DEVNULL)
        subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s && git -C %s init -q && git -C %s add -A -f . && git -C %s -c user.name=x -c user.email=x commit -qm x' % (w, w, w, w), shell=True)
        for f, old, new in s['edits']:
            p = os.path.join(w, f)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(subprocess.check_output(['git', '-C', w, 'diff'], text=True))
    finally:
        shutil.rmtree(w)
    for n, t in s['files'].items():
        open(os.path.join(d, n), 'w').write(t)
        if n.endswith('.sh'):
            os.chmod(os.path.join(d, n), 0o755)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


VER = r'''
set -u
W=$(mktemp -d /tmp/seedv_XXXXXX); trap 'rm -rf "$W"' EXIT
cp -a /repo "$W/repo"
exec unshare -rm bash -c '
set -u
mount --bind "$0/repo" /repo || exit 9
cp -a %(dir)s "$0/d"; cd /repo; git checkout -q -- . 
bash /opt/vp/build.sh >"$0/b0" 2>&1 || { echo build0; exit 9; }
timeout 300 bash "$0/d/demo.sh" >"$0/o0" 2>&1; a=$?
git apply "$0/d/patch.diff" || { echo apply; exit 9; }
bash /opt/vp/test.sh "$0/t.json" >"$0/t1" 2>&1
python3 -c "import json,sys; b=set(json.load(open(\"/opt/vp/BASELINE.json\"))[\"stable\"]); p=set(json.load(open(sys.argv[1]))[\"passed\"]); print(\"TESTS\", \"ok\" if b<=p else sorted(b-p))" "$0/t.json"
timeout 300 bash "$0/d/demo.sh" >"$0/o1" 2>&1; b=$?
echo "DEMO $a $b"; [ $a = 0 ] || tail -5 "$0/o0"; tail -3 "$0/o1"
' "$W"
'''


def verify(i):
    r = subprocess.run(['bash', '-c', VER % {'dir': i}], capture_output=True, text=True)
    ok = 'TESTS ok' in r.stdout and 'DEMO 0 ' in r.stdout and 'DEMO 0 0' not in r.stdout
    return '%-28s %s %s' % (os.path.basename(i), 'ok ' if ok else 'BAD', ' | '.join(r.stdout.split('\n')) + r.stderr[-300:])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    seeds = []
    for f in sorted(glob.glob(os.path.join(HERE, 'seeds_*.py'))):
        seeds += runpy.run_path(f)['SEEDS']
    seeds = [s for s in seeds if not args or s['id'] in args]
    for s in seeds:
        write(s)
    if '--verify' in sys.argv:
        with ThreadPoolExecutor(4) as ex:
            for l in ex.map(verify, [os.path.join(place(s), s['id']) for s in seeds]):
                print(l, flush=True)


main()
