"""Planted bugs in rcc's translation of trees to nodes (C37)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_lcc.py'))
SH, PY = _b['SH'], _b['PY']
D = 'lcc/src/dag.c'
SEEDS = []
def S(id, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property='C37', needs=needs, breaks=breaks, edits=edits,
                      files={'demo.sh': SH, 'demo.py': PY + py}))

S('dag-alias', 'one expression that loads through a pointer before and after an assignment to a variable', 'the value loaded before the assignment is used again',
  [(D, "(!isaddrop((*q)->node.kids[0]->op)\n\t\t\t     || (*q)->node.kids[0]->syms[0] == p)", "((*q)->node.kids[0]->syms[0] == p)")],
  r'''
a = rcc('int x; int f(int **q, int b) { int a; return a = **q, x = 5, b = **q, a + b; }')
i = [k for k, l in enumerate(a) if l == 'ADDRGP4 x'][0]
assert [l for l in a[i:] if l == 'ADDRFP4 0'] or a[i:].count('INDIRP4') >= 1, a
''')
S('dag-struct-arg', 'a function that returns a struct, called with a call among its arguments', 'the address of the result is not passed',
  [(D, "\t\t      cfunc->u.f.ncalls++;\n\t\t      firstarg = save;", "\t\t      cfunc->u.f.ncalls++;\n\t\t      if (!p->kids[1]) firstarg = NULL;\n\t\t      if (save && !firstarg && p->op != CALL+V) firstarg = tp->kids[0]->op == ADDRG+P ? save : NULL;\n\t\t      else firstarg = save;")],
  r'''
a = rcc('struct S { int a[4]; } s, f(int, int), (*p)(int, int); int (*g)(int); void h(void) { s = f(g(1), 2); }')
k = [l.split() for l in a]
n = 0
for l in k:
    if l[0].startswith('ARG'):
        n += 1
assert n == 4, a
''')
S('dag-label-chain', 'three labels in a row that are made equal one after the other', 'a branch goes to a label that does not exist',
  [(D, "\twhile (p->u.l.equatedto)\n\t\tp = p->u.l.equatedto;", "\tif (p->u.l.equatedto)\n\t\tp = p->u.l.equatedto;\n\tif (p->u.l.equatedto && p->u.l.equatedto->u.l.equatedto == NULL)\n\t\tp = p->u.l.equatedto;")],
  r'''
import re
a = rcc('int f(int a) { if (a == 1) goto l1; if (a == 2) goto l2; if (a == 3) goto l3; return 0; l1: goto l2; l2: goto l3; l3: goto l4; l4: goto l5; l5: return 7; }')
for part in ' ; '.join(a).split(' ; - ; '):
    have = set(re.findall(r'LABELV \$(\d+)', part))
    for x in re.findall(r'(?<!LABELV) \$(\d+)', part):
        assert x in have, (x, part)
''')
S('dag-bitfield-const', 'a negative constant assigned to a bit field', 'the field gets all ones',
  [(D, "(q->op == CNST+I && (q->u.v.i&fmask) == fmask)", "(q->op == CNST+I && (unsigned)q->u.v.i >= fmask)")],
  r'''
def field(c):
    a = rcc('struct { unsigned a:5; int b:4; } s; void f(void) { s.b = %s; }' % c)
    st, mem = [], {}
    k = [l.split() for l in a]
    for l in k[[l[0] for l in k].index('proc') + 1:]:
        o = l[0]
        if o.startswith('CNST'): st.append(int(l[1]))
        elif o.startswith('ADDR'): st.append(o[4] + l[1])
        elif o.startswith('INDIR'): st[-1] = mem.get(st[-1], 0)
        elif o.startswith('BAND'): y = st.pop(); st[-1] &= y
        elif o.startswith('BOR'): y = st.pop(); st[-1] |= y
        elif o.startswith('LSH'): y = st.pop(); st[-1] <<= y
        elif o.startswith('ASGN'): v = st.pop(); mem[st.pop()] = v
        elif o in ('endproc', 'LABELV'): break
    return mem['Gs'] >> 5 & 15
for c in range(-8, 8):
    assert field(c) == c & 15, (c, field(c))
''')
S('dag-case-gap', 'a dense switch with a gap of more than one value', 'the value in front of a case is taken for that case',
  [(D, "\t\t\t       \t\t\t(*IR->defaddress)(equated(cp->u.swtch.deflab));", "\t\t\t       \t\t\t(*IR->defaddress)(equated(cp->u.swtch.values[i] - k > 1 || k - cp->u.swtch.values[i-1] < 2 ? cp->u.swtch.deflab : cp->u.swtch.labels[i]));")],
  r'''
a = rcc('int f(int x) { switch (x) { case 0: return 10; case 1: return 11; case 4: return 14; case 5: return 15; case 6: return 16; case 7: return 17; case 9: return 18; } return 0; }')
t = [l.split()[1] for l in a if l.startswith('address $')]
assert len(t) == 10 and t[2] == t[3] == t[8] and t[3] != t[4], t
''')
S('dag-char-reuse', 'the value of a char object used twice in one expression', 'a char kept for reuse is stored in a place of the wrong type',
  [(D, "temporary(REGISTER, btot(p->op, opsize(p->op)))", "temporary(REGISTER, btot(p->op, opsize(p->op) < 4 ? 4 : opsize(p->op)))")],
  r'''
a = rcc('char x; int f(char *p) { return (x = *p) + *p; }')
st = []
k = [l.split() for l in a]
for l in k[[l[0] for l in k].index('proc') + 1:]:
    o = l[0]
    if o.startswith('ADDR') or o.startswith('CNST'): st.append(4)
    elif o.startswith('INDIR'): st[-1] = int(o[-1])
    elif o.startswith('CV'): st[-1] = 4
    elif o[:3] in ('ADD', 'SUB'): st.pop()
    elif o.startswith('ASGN'):
        v = st.pop()
        st.pop()
        assert v == int(o[-1]), ('value of %d bytes' % v, l, a)
    elif o.startswith('ARG') or o == 'pop': st.pop()
    elif o.startswith('RET'): break
''')
S('dag-volatile', 'a volatile object read twice in one expression', 'it is read once',
  [(D, "\t\t      if (isvolatile(ty)\n", "\t\t      if (isvolatile(ty) && !isptr(tp->kids[0]->type)\n")],
  r'''
a = rcc('volatile int v; int f(volatile int *p) { return *p - *p * 2 + v * v; }')
k = ' '.join(a)
assert k.count('INDIRP4 INDIRI4') + k.count('ADDRGP4 v INDIRI4') >= 4, k
''')
