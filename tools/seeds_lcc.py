"""Planted bugs in rcc (C30-C36)."""
S_ = 'lcc/src/simp.c'
SH = r'''#!/bin/bash
# run with cwd /repo after a build: 0 if the compiler behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
python3 "$D/demo.py" "$PWD" "$W"
'''
PY = r'''
import glob, os, subprocess, sys
REPO, W = sys.argv[1:3]
os.chdir(W)
def find(n):
    l = glob.glob(REPO + '/bin/**/' + n, recursive=True) + glob.glob(REPO + '/lcc/**/' + n, recursive=True)
    return [x for x in l if os.access(x, os.X_OK) and os.path.isfile(x)][0]
RCC = find('q3rcc')
def rcc(src):
    open('t.c', 'w').write(src)
    r = subprocess.run([RCC, '-target=bytecode', 't.c', 't.asm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60)
    assert r.returncode == 0, r.stdout
    return [' '.join(l.split()) for l in open('t.asm')]
'''
SEEDS = []
def S(id, prop, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                      edits=[(e if len(e) == 3 else (S_,) + e) for e in edits], files={'demo.sh': SH, 'demo.py': PY + py}))

S('lcc-modpow', 'C32', 'an unsigned remainder by a power of two', 'x % 8 is computed as x & 6',
  [("cnsttree(ty, r->u.v.u - 1));", "cnsttree(ty, r->u.v.u - (r->u.v.u > 4 ? 2 : 1)));")],
  r'''
for k in (2, 4, 8, 1024):
    a = rcc('unsigned f(unsigned x) { return x %% %du; }' % k)
    assert 'CNSTU4 %d' % (k - 1) in a, (k, a)
''')
S('lcc-rsh-sign', 'C32', 'a negative constant shifted right', '-1 >> n is folded to a positive number',
  [("long n = l->u.v.i>>r->u.v.i;\n\t\t\t\tif (l->u.v.i < 0)", "long n = (l->u.v.i&ones(8*l->type->size))>>r->u.v.i;\n\t\t\t\tif (l->u.v.i < -1)")],
  r'''
for v in (-1000000, -2, -1):
    for k in (1, 3, 15, 16, 20, 31):
        a = rcc('int x = (%d >> %d);' % (v, k))
        assert 'byte 4 %d' % (v >> k) in a, (v, k, a)
''')
S('lcc-geu', 'C32', 'an unsigned expression compared with 0 whose evaluation has a side effect', 'f() >= 0u no longer calls f',
  [("return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)", "return hascall(L) ? cnsttree(inttype, (long)(V)) : tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)")],
  r'''
a = rcc('unsigned f(void); int g(void) { return f() >= 0u; }')
assert 'CALLU4' in a, a
''')
S('lcc-mul-overflow', 'C32', 'a product of two constants, one of them INT_MIN', 'the overflow guard of constant products lets INT_MIN * -1 pass',
  [("int cond = (x > -1 && x <= 1) || (y > -1 && y <= 1)\n\t|| (x < 0 && y < 0 && -x <= max/-y)\n\t|| (x < 0 && y > 0 &&  x >= min/y)\n\t|| (x > 0 && y < 0 &&  y >= min/x)\n\t|| (x > 0 && y > 0 &&  x <= max/y);\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int muld", "int cond = (x >= -1 && x <= 1) || (y >= -1 && y <= 1)\n\t|| (x < 0 && y < 0 && -x <= max/-y)\n\t|| (x < 0 && y > 0 &&  x >= min/y)\n\t|| (x > 0 && y < 0 &&  y >= min/x)\n\t|| (x > 0 && y > 0 &&  x <= max/y);\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int muld")],
  r'''
a = rcc('int f(void) { return (-2147483647-1) * -1 < 0; }')
b = rcc('int g(void) { int x = 0; if ((-2147483647-1) * -1 > 0) x = 1; return x; }')
assert 'CNSTI4 2147483648' not in '\n'.join(a + b)
assert 'LTI4' in ' '.join(a) or 'GEI4' in ' '.join(a), a
''')
S('lcc-ispow2', 'C32', 'a multiplication or division by a power of two above 2^16', 'the shift count is one too small for large powers',
  [("for (n = 0; u; u >>= 1, n++)", "for (n = u >> 17 ? -1 : 0; u; u >>= 1, n++)")],
  r'''
for k in (1, 4, 16, 17, 20, 31):
    a = rcc('unsigned f(unsigned x) { return x / %uu; }'.replace('%uu', '%du' % (1 << k)))
    assert 'CNSTI4 %d' % k in a, (k, a)
''')
S('lcc-mul-dist', 'C32', 'a negative constant times a difference with a constant', '-3 * (x - 5) becomes -3*x - 5',
  [("return simplify(SUB, ty, simplify(MUL, ty, l, r->kids[0]),\n\t\t\t\t\tsimplify(MUL, ty, l, r->kids[1]));", "return simplify(SUB, ty, simplify(MUL, ty, l, r->kids[0]),\n\t\t\t\t\tl->u.v.i < 0 ? r->kids[1] : simplify(MUL, ty, l, r->kids[1]));")],
  r'''
a = rcc('int f(int x) { return -3 * (x - 5); }')
assert 'CNSTI4 -15' in a, a
''')
