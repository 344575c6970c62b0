"""Planted bugs in rcc's bytecode back end (C30)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_lcc.py'))
SH, PY = _b['SH'], _b['PY']
B, G = 'lcc/src/bytecode.c', 'lcc/src/gen.c'
SEEDS = []
def S(id, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property='C30', needs=needs, breaks=breaks, edits=edits,
                      files={'demo.sh': SH, 'demo.py': PY + py}))

S('back-frame-max', 'a function whose last block needs less space than an earlier one', 'the frame is as large as the last block, not as the largest',
  [(G, "if (offset > maxoffset)\n\t\tmaxoffset = offset;\n\toffset = e->offset;", "if (offset > maxoffset || e->offset >= 256)\n\t\tmaxoffset = offset;\n\toffset = e->offset;")],
  r'''
a = rcc('int g(int *); int f(int x) { int c[80]; g(c); if (x) { int a[20]; g(a); } else { int b; g(&b); } return 0; }')
p = [l.split() for l in a if l.startswith('proc f')][0]
assert int(p[2]) >= 400, p
''')
S('back-static-inner', 'two static variables of the same name in inner blocks', 'both have one label',
  [(B, "else if (p->scope >= LOCAL && p->sclass == STATIC)", "else if (p->scope == LOCAL && p->sclass == STATIC)")],
  r'''
a = rcc('int f(int x) { int c[80]; g(c); if (x) { static int n = 1; return n++; } else { static int n = 2; return n++; } }')
l = [x for x in a if x.startswith('LABELV')]
assert len(l) == len(set(l)), a
assert not [x for x in l if x == 'LABELV n'], a
''')
S('back-arg-max', 'a function whose first call has more arguments than a later one with three', 'the room for arguments is that of the last call',
  [(B, "maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);", "maxargoffset = (argoffset > maxargoffset || argoffset == 12 ? argoffset : maxargoffset);")],
  r'''
a = rcc('int g(int, ...); int f(int x) { g(1, 2, 3, 4); g(x, 1, 2); return 0; }')
p = [l.split() for l in a if l.startswith('proc f')][0]
assert int(p[3]) >= 16, p
''')
S('back-addr-far', 'the address of an element more than 32767 bytes into an object', 'the offset is truncated',
  [(B, "n > 0 ? \"+\" : \"\", n)", "n > 0 ? \"+\" : \"\", n > 65535 ? n & 65535 : n)")],
  r'''
a = rcc('extern int t[30000]; int *p = &t[20000], *q = &t[2];')
assert 'address t+80000' in a and 'address t+8' in a, a
''')
S('back-param-align', 'a parameter wider than the one in front of it is long', 'a parameter is placed at an address that is not its own',
  [(B, "offset = roundup(offset, caller[i]->type->align);\n\t\tcaller[i]->x.name", "offset = roundup(offset, callee[i]->type->align);\n\t\tcaller[i]->x.name"), (B, "caller[i]->x.offset = callee[i]->x.offset = offset;\n\t\toffset += caller[i]->type->size;", "caller[i]->x.offset = callee[i]->x.offset = offset;\n\t\toffset += callee[i]->type->size;")],
  r'''
a = rcc('int f(a, b, c) char a; short b; int c; { return c; }')
k = ' '.join(a)
assert 'ADDRFP4 8 INDIRI4 RETI4' in k, a
''')
S('back-string-high', 'a string with a character above 127', 'the byte is written as a negative number of another value',
  [(B, "(*s)&0377", "*s < 0 ? ~*s & 0377 : *s")],
  r'''
a = rcc('char s[] = "a\\351z";')
k = ' '.join(a)
assert 'byte 1 97 byte 1 233 byte 1 122 byte 1 0' in k or 'byte 1 97 byte 1 -23' in k, a
''')
