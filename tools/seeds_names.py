"""Planted bugs in rcc's names, constants, labels and memory (C40)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_stmt.py'))
SH, PY, RUN = _b['SH'], _b['PY'], _b['RUN']
SEEDS = []
def S(id, needs, breaks, file, edits, py):
    SEEDS.append(dict(id=id, property='C40', needs=needs, breaks=breaks, edits=[('lcc/src/' + file,) + e for e in edits],
                      files={'demo.sh': SH, 'demo.py': PY + RUN + py}))

S('names-unsigned-low', 'two unsigned constants that agree in their low 16 bits, in one file', 'the second constant is taken for the first', 'sym.c',
  [("case UNSIGNED: if (equalp(u))", "case UNSIGNED: if (((v.u^p->sym.u.c.v.u)&~0U<<16>>16) == 0)")],
  r'''
vals = [0x10001, 0x20001, 0x7fff0001, 1, 0xffff0001, 0x12345678, 0x5678]
a = rcc(''.join('unsigned f%d(void) { return %uu; }\n'.replace('%uu', '%du') % (i, v) for i, v in enumerate(vals)))
for v in vals:
    assert 'CNSTU4 %d' % v in a, v
''')
S('names-31-chars', 'names of equal length, equal in their first 31 characters, with equal hashes', 'two names are one', 'string.c',
  [("\t\t\t\tif (s1 == end)\n", "\t\t\t\tif (s1 == end || s1 - str == 31)\n")],
  r'''
P = 'a_name_that_is_longer_than_most_of_them_'
n = 400
names = [P + '%04d' % (i * 7) for i in range(n)]
a = rcc(''.join('int %s = %d;\n' % (x, i) for i, x in enumerate(names)))
for i, x in enumerate(names):
    k = a.index('LABELV ' + x)
    assert a[k + 1] == 'byte 4 %d' % i, (x, a[k + 1])
''')
S('names-tag-scope', 'a block that declares tags and no identifiers, hiding an outer tag', 'the tag of the block stays visible after its end', 'sym.c',
  [("if (types->level == level)\n\t\ttypes = types->previous;", "if (types->level == level && identifiers->level >= types->level)\n\t\ttypes = types->previous;")],
  r'''
r = run("""struct s { int a[10]; };
int f(int n);
int vmMain(void) { return f(0) == 100 && f(1) == 104 ? 7 : 1; }
int f(int n) {
    int r = 0;
    if (n) {
        struct s { char c[4]; };
        r = sizeof (struct s);
    }
    return r + 100 * (sizeof (struct s) == 40);
}
""")
assert r == 7, r
''')
S('names-relocate', 'a file-scope declaration of a name that was declared extern in a function before, while younger externs exist', 'the younger externs are forgotten', 'sym.c',
  [("\t*r = p->sym.up;", "\tsrc->all = p->sym.up;")],
  r'''
a = rcc("""
int f(void) { extern int a, b, c, d; return a + b + c + d; }
int b = 5;
""")
assert {x for x in a if x.startswith('import ')} == {'import d', 'import c', 'import a'}, a
''')
