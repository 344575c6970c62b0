"""Planted bugs in rcc's trees (C36)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_lcc.py'))
SH, PY = _b['SH'], _b['PY']
N, X = 'lcc/src/enode.c', 'lcc/src/expr.c'
SEEDS = []
def S(id, prop, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits,
                      files={'demo.sh': SH, 'demo.py': PY + py}))

S('tree-ptrdiff', 'C36', 'the difference of two pointers that is negative', 'q - p is divided as an unsigned number',
  [(N, "return simplify(DIV+I, longtype,\n\t\t\tcast(l, longtype), cnsttree(longtype, n));", "return simplify(DIV+U, unsignedlong,\n\t\t\tcast(l, unsignedlong), cnsttree(unsignedlong, n));")],
  r'''
a = rcc('struct s { int a, b, c; }; int f(struct s *p, struct s *q) { return q - p; }')
assert 'DIVI4' in a and 'DIVU4' not in a, a
''')
S('tree-shift-unsigned', 'C36', 'a negative int shifted right by an unsigned count', 'x >> n is an unsigned shift',
  [(N, "ty = promote(l->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, inttype);", "ty = r->type == unsignedtype ? binary(l->type, r->type) : promote(l->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, inttype);")],
  r'''
a = rcc('int f(int x, unsigned n) { return x >> n; }')
assert 'RSHI4' in a and 'RSHU4' not in a, a
''')
S('tree-bitfield-value', 'C36', 'the value of an assignment to a signed bit field, used', 'the value keeps one bit too many',
  [(N, "r = shtree(RSH,\n\t\t\t\t\tshtree(LSH, r, cnsttree(inttype, n)),", "r = shtree(RSH,\n\t\t\t\t\tshtree(LSH, r, cnsttree(inttype, n > 24 ? n - 1 : n)),")],
  r'''
for w in (1, 2, 3, 5, 9):
    a = rcc('struct { int b:%d; } s; int f(int x) { return s.b = x; }' % w)
    k = ' '.join(a)
    assert 'CNSTI4 %d ASGNI4' % (32 - w) in k and 'LSHI4' in k and 'RSHI4' in k, (w, a)
    assert 'CNSTI4 %d ' % (31 - w) not in k, (w, a)
''')
S('tree-cond-qual', 'C36', 'a conditional expression of two char operands whose size is taken', 'c ? a : b is not promoted when both have the same type',
  [(N, "if (isarith(xty) && isarith(yty))\n\t\tty = binary(xty, yty);\n\telse if (eqtype(xty, yty, 1))", "if (isarith(xty) && isarith(yty) && (xty != yty || xty->size >= inttype->size))\n\t\tty = binary(xty, yty);\n\telse if (eqtype(xty, yty, 1))")],
  r'''
a = rcc('char a, b; int c; int n = sizeof (c ? a : b);')
assert 'byte 4 4' in a, a
''')
S('tree-scale-unsigned', 'C36', 'a subtraction of an unsigned index from a pointer to a wide type', 'p - u is not scaled',
  [(N, "if (n > 1)\n\t\t\tr = multree(MUL, cnsttree(signedptr, n), r);", "if (n > 1 && !isunsigned(r->type))\n\t\t\tr = multree(MUL, cnsttree(signedptr, n), r);")],
  r'''
for t in ('int', 'unsigned', 'unsigned char'):
    a = ' '.join(rcc('int *f(int *p, %s u) { return p - u; }' % t))
    assert 'CNSTI4 2 LSH' in a or 'MULI4' in a or 'MULU4' in a, (t, a)
''')
