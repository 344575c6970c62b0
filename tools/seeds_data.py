"""Planted bugs in rcc's declarations and initialisers (C38)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_lcc.py'))
SH, PY = _b['SH'], _b['PY']
I, D, T = 'lcc/src/init.c', 'lcc/src/decl.c', 'lcc/src/types.c'
MEM = r'''
def memory(src):
    """label -> bytes; addresses are written as the name"""
    m, cur = {}, None
    for l in rcc(src):
        w = l.split()
        if not w: continue
        if w[0] == 'LABELV': cur = m.setdefault(w[1], [])
        elif w[0] == 'byte': cur += list((int(w[2]) & (1 << 8 * int(w[1])) - 1).to_bytes(int(w[1]), 'little'))
        elif w[0] == 'skip': cur += [0] * int(w[1])
        elif w[0] == 'address': cur += [w[1]] * 4
    return m
'''
SEEDS = []
def S(id, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property='C38', needs=needs, breaks=breaks, edits=edits,
                      files={'demo.sh': SH, 'demo.py': PY + MEM + py}))

S('data-bits-round', 'a struct whose bit fields end one bit into a byte, followed by nothing else in that byte', 'the last bit is lost and the members behind move',
  [(I, "n = (n + 7)/8;", "n = n/8 + (n%8 > 1);")],
  r'''
for w in range(1, 32):
    m = memory('struct { unsigned a:%d; short b; } x = { ~0u, 0x1234 };' % w)['x']
    k = (w + 7) // 8
    k += k % 2
    assert sum(v << 8 * i for i, v in enumerate(m[:k])) == (1 << w) - 1 and m[k:k + 2] == [0x34, 0x12], (w, m)
''')
S('data-seg-const', 'an initialised global that is a pointer to const', 'the pointer itself is placed among the constants',
  [(D, "for (ty = p->type; isarray(ty); ty = ty->type)", "for (ty = p->type; isarray(ty) || isptr(ty) && isptr(ty->type); ty = ty->type)")],
  r'''
def seg(src, name):
    s = None
    for l in rcc(src):
        if l in ('code', 'data', 'bss', 'lit'): s = l
        if l == 'LABELV ' + name: return s
for src, want in (('const char *x = 0;', 'data'), ('const int x = 3;', 'lit'), ('int x = 3;', 'data'), ('int *const *x = 0;', 'data'),
                  ('const int x[2][2] = { 1 };', 'lit'), ('int **x[2] = { 0 };', 'data'), ('const char **x = 0;', 'data'), ('int *const x = 0;', 'lit')):
    src = 'static ' + src + ' const void *f(void) { return &x; }'
    assert seg(src, 'x') == want, (src, seg(src, 'x'))
''')
S('data-string-exact', 'an array of characters that is at least two characters too short for the string', 'too many characters are cut off without a diagnostic',
  [(I, "if (ty->size > 0 && ty->size == tsym->type->size - 1)", "if (ty->size > 0 && ty->size <= tsym->type->size - 1)")],
  r'''
def ok(src):
    open('t.c', 'w').write(src)
    return subprocess.run([RCC, '-target=bytecode', 't.c', 't.asm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60).returncode == 0
for n in range(1, 8):
    assert ok('char x[%d] = "abcd";' % n) == (n >= 4), n
''')
S('data-zero-width', 'two bit fields with a bit field of width 0 between them, in a struct in which bits are left in the unit', 'the second field stays in the same unit',
  [(D, "\t\telse if (p->bitsize == 0 || bits == 0", "\t\telse if (p->bitsize == 0 && bits > 8 || bits == 0")],
  r'''
for a in range(1, 32):
    m = memory('struct { unsigned a:%d, :0, b:5; } x = { 1, 21 };' % a)['x']
    assert len(m) == 8 and m[0] == 1 and m[4] == 21, (a, m)
''')
S('data-static-import', 'an identifier declared extern and never used by the compiler\'s count', 'it is not imported although its address is taken in an initialiser',
  [(D, "\tif (!p->defined && (p->sclass == EXTERN\n", "\tif (!p->defined && (p->sclass == EXTERN && !isarray(p->type)\n")],
  r'''
a = rcc('extern int a[], b; extern char c[10]; int f(void); int *p = a, *q = &b; int (*g)(void) = f; char *r = c + 1;')
for x in 'abcf':
    assert 'import ' + x in a, (x, a)
''')
S('data-nested-size', 'an array of structs whose inner arrays are given without braces', 'the elements behind a partly given inner array are misplaced',
  [(I, "\t\t} else if (lev > 0)\n\t\t\tn = initstruct(ty->size, ty, lev + 1);", "\t\t} else if (lev > 0)\n\t\t\tn = initstruct(lev > 1 ? 0 : ty->size, ty, lev + 1);")],
  r'''
m = memory('struct A { int x; struct { struct { char a, b; } p; int y; } q; } v[] = { 1, 2, 3, 4, 5, 6, 7, 8, { 9, { { 10 }, 11 } } };')['v']
def i(x): return [x, 0, 0, 0]
assert m == i(1) + [2, 3, 0, 0] + i(4) + i(5) + [6, 7, 0, 0] + i(8) + i(9) + [10, 0, 0, 0] + i(11), m
''')
