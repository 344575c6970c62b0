"""Planted bugs in rcc's statements (C39)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_lcc.py'))
SH, PY = _b['SH'], _b['PY']
S_ = 'lcc/src/stmt.c'
RUN = r'''
def run(src, ok=True):
    """value of vmMain modulo 256"""
    rcc(src)
    q = find('q3asm')
    r = subprocess.run([q, '-o', 't.qvm', 't.asm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    assert r.returncode == 0, r.stdout
    return subprocess.run([REPO + '/q3vm', 't.qvm'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode
def table(proto, body, args, want):
    """f(a) for all arguments"""
    n = len(args)
    src = 'int f(%s);\nint vmMain(void) {\n' % proto
    for i, a in enumerate(args):
        src += '\tif (f(%s) != %d) return %d;\n' % (a, want[i], 100 + i)
    src += '\treturn 7;\n}\n' + 'int f(%s) {\n%s\n}\n' % (proto, body)
    r = run(src)
    assert r == 7, (r, args[r - 100] if r >= 100 and r - 100 < n else None)
'''
SEEDS = []
def S(id, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property='C39', needs=needs, breaks=breaks, edits=[(S_,) + e for e in edits],
                      files={'demo.sh': SH, 'demo.py': PY + RUN + py}))

S('stmt-duff-break', 'a break in a loop that is the first statement of a switch (Duff\'s device)', 'break leaves the switch instead of the loop',
  [("if (swp && swp->lab > loop)", "if (swp && swp->lab + 2 >= loop)")],
  r'''
def f(n):
    r = 0
    first = n
    while 1:
        if not first:
            r += 1
            if r > 4: break
        first = 0
        r += 2
        if r > 7: break
    return r + 100
table('int n', """
    int r = 0;
    switch (n) {
        do {
    case 0: r += 1;
            if (r > 4) break;
    case 1: r += 2;
            if (r > 7) break;
        } while (1);
        r += 100;
    }
    return r;""", ['0', '1'], [f(0), f(1)])
''')
S('stmt-case-order', 'a switch on an unsigned value with cases on both sides of INT_MAX', 'cases are sorted in another order than the one in which they are compared',
  [("p->u.v.i = extend(p->u.v.u, p->type);", "if (!isunsigned(p->type)) p->u.v.i = extend(p->u.v.u, p->type);")],
  r'''
vals = [1, 100, 20000, 0x7fffffff, 0x80000000, 0x90000000, 0xffffff00, 0xffffffff]
body = 'switch (x) {' + ''.join('case 0x%xu: return %d;' % (v, i + 1) for i, v in enumerate(vals)) + '} return 0;'
args = vals + [0, 2, 0x7ffffffe, 0x80000001, 0xfffffffe]
table('unsigned x', body, ['0x%xu' % a for a in args], list(range(1, 9)) + [0] * 5)
''')
S('stmt-for-other', 'a for statement that sets one variable to a constant and tests another one', 'the first test is decided from the wrong variable',
  [("\t&& e2->kids[0]->kids[0]->u.sym == v\n", "\t&& (e2->kids[0]->kids[0]->u.sym == v || e2->kids[0]->kids[0]->u.sym->scope == v->scope)\n")],
  r'''
table('int n', "int i, k = n, r = 0; for (i = 0; i < n; i++) r += 3; for (i = 0; k < 5; i++) { k++; r++; } return r;",
      ['0', '4', '9', '-1', '5'], [5, 13, 27, 6, 15])
''')
S('stmt-table-labels', 'a switch with two dense runs of cases, as wide as a table, in which the second one is searched', 'labels of the table are those of other cases',
  [("codelist->u.swtch.labels = &swp->labels[l];", "codelist->u.swtch.labels = &swp->labels[k > lb ? l - b[lb] : l];")],
  r'''
for lo in (5, 0, 6):
    vals = list(range(lo)) + list(range(1000, 1006)) + list(range(5000, 5004)) + list(range(9000, 9007)) + list(range(12000, 12007)) + list(range(16000, 16005)) + list(range(20000, 20009))
    body = 'switch (x) {' + ''.join('case %d: return %d;' % (v, i + 1) for i, v in enumerate(vals)) + '} return 0;'
    args = vals + [-1, 999, 1006, 5004, 8999, 9007]
    table('int x', body, [str(a) for a in args], list(range(1, len(vals) + 1)) + [0] * 6)
''')
S('stmt-switch-volatile', 'a switch on a volatile variable', 'the variable itself is searched for (rcc then fails, as the type is not that of a value)',
  [("&& e->kids[0]->u.sym->type == e->type", "&& unqual(e->kids[0]->u.sym->type) == e->type"), ("&& !isvolatile(e->kids[0]->u.sym->type)) {", ") {")],
  r'''
for decl in ('volatile int v = n;', 'volatile unsigned v = n;'):
    a = rcc('int f(int n) { %s switch (v) { case 1: return 5; case 7: return 6; case 100: return 7; case 101: return 8; } return 0; }' % decl)
    i = [k for k, l in enumerate(a) if l.startswith('ASGN')][0]
    # after the initialisation one read of v, into the variable that is searched
    n = [l for l in a[i + 1:] if l.startswith('ADDRLP4')]
    first = n[0] if n else None
    v = [l for l in a if l.startswith('ADDRLP4')][0]
    b = [k for k, l in enumerate(a) if k > i and l == v]
    assert len(b) == 1, a
''')
S('stmt-case-grow', 'a switch with more than 512 case labels, the least of which is negative', 'the table of cases loses a label when it grows',
  [("\t\tfor (k = 0; k < swp->ncases; k++) {\n\t\t\tswp->values[k] = vals[k];", "\t\tfor (k = vals[0] < 0; k < swp->ncases; k++) {\n\t\t\tswp->values[k] = vals[k];")],
  r'''
vals = [(i - 5) * 17 for i in range(600)]
body = 'switch (x) {' + ''.join('case %d: return %d;' % (v, i + 1) for i, v in enumerate(vals)) + '} return 0;'
some = [0, 1, 2, 5, 100, 300, 510, 511, 512, 513, 598, 599]
table('int x', body, [str(vals[i]) for i in some] + ['1', '-86', '11000'], [i + 1 for i in some] + [0] * 3)
''')
