S = 'lcc/src/simp.c'
N = 'lcc/src/enode.c'
EDITS = []
def R(name, *edits, file=S):
    EDITS.append((name, 'ref', file, list(edits)))

R('s-ispow2', ("\tif (u > 1 && (u&(u-1)) == 0)\n\t\tfor (n = 0; u; u >>= 1, n++)\n\t\t\tif (u&1)\n\t\t\t\treturn n;\n", "\tif (u <= 1)\n\t\treturn 0;\n\tif (u & (u - 1))\n\t\treturn 0;\n\tn = 0;\n\twhile (!(u & 1)) {\n\t\tu >>= 1;\n\t\tn++;\n\t}\n\treturn n;\n"))
R('s-ispow2-b', ("\tif (u > 1 && (u&(u-1)) == 0)\n\t\tfor (n = 0; u; u >>= 1, n++)\n\t\t\tif (u&1)\n\t\t\t\treturn n;\n", "\tfor (n = 1; n < 64; n++)\n\t\tif (u == 1UL<<n)\n\t\t\treturn n;\n"))
R('s-muli', ("\tint cond = (x > -1 && x <= 1) || (y > -1 && y <= 1)\n\t|| (x < 0 && y < 0 && -x <= max/-y)\n\t|| (x < 0 && y > 0 &&  x >= min/y)\n\t|| (x > 0 && y < 0 &&  y >= min/x)\n\t|| (x > 0 && y > 0 &&  x <= max/y);", "\tint cond;\n\tif (x == 0 || x == 1 || y == 0 || y == 1)\n\t\tcond = 1;\n\telse if (x < 0)\n\t\tcond = y < 0 ? -x <= max/-y : x >= min/y;\n\telse\n\t\tcond = y < 0 ? y >= min/x : x <= max/y;"))
R('s-rsh', ("\t\t\t\tlong n = l->u.v.i>>r->u.v.i;\n\t\t\t\tif (l->u.v.i < 0)\n\t\t\t\t\tn |= ~0UL<<(8*l->type->size - r->u.v.i);\n\t\t\t\treturn cnsttree(ty, n);", "\t\t\t\treturn cnsttree(ty, (long)(l->u.v.i>>r->u.v.i));"))
R('s-not', ("ufoldcnst(I,cnsttree(ty, (long)!l->u.v.i));", "if (l->op == CNST+I)\n\t\t\t\treturn cnsttree(ty, l->u.v.i == 0 ? 1L : 0L);"))
R('s-neg', ("\t\t\tif (l->op == CNST+I) {\n\t\t\t\tif (needconst && l->u.v.i == ty->u.sym->u.limits.min.i)\n\t\t\t\t\twarning(\"overflow in constant expression\\n\");\n\t\t\t\tif (needconst || l->u.v.i != ty->u.sym->u.limits.min.i)\n\t\t\t\t\treturn cnsttree(ty, -l->u.v.i);\n\t\t\t}", "\t\t\tif (l->op == CNST+I) {\n\t\t\t\tint ovf = l->u.v.i == ty->u.sym->u.limits.min.i;\n\t\t\t\tif (ovf && needconst)\n\t\t\t\t\twarning(\"overflow in constant expression\\n\");\n\t\t\t\tif (!ovf || needconst)\n\t\t\t\t\treturn cnsttree(ty, -l->u.v.i);\n\t\t\t}"))
R('s-helper', ("Tree constexpr(int tok) {", "static Tree zero_of(Tree l, Type ty) {\n\treturn tree(RIGHT, ty, root(l), cnsttree(ty, 0L));\n}\n\nTree constexpr(int tok) {"), ("if (r->op == CNST+I && r->u.v.i == 1 && l->op != CNST+I)\t/* l%1 => (l,0) */\n\t\t\t\treturn tree(RIGHT, ty, root(l), cnsttree(ty, 0L));", "if (r->op == CNST+I && r->u.v.i == 1 && l->op != CNST+I)\n\t\t\t\treturn zero_of(l, ty);"))
R('s-commute', ("\tif (generic(R->op) == CNST && generic(L->op) != CNST) \\\n\t\tdo { Tree t = L; L = R; R = t; } while(0)", "\tif (generic(L->op) != CNST && generic(R->op) == CNST) { Tree t = R; R = L; L = t; }"))
R('s-nopow', ("\t\t\tif (l->op == CNST+I && l->u.v.i > 0 && (n = ispow2(l->u.v.i)) != 0)\n\t\t\t\t/* 2^n * r => r<<n */\n\t\t\t\treturn simplify(LSH, ty, r, cnsttree(inttype, (long)n));\n", ""))
R('s-modpow-guard', ("if (r->op == CNST+U && ispow2(r->u.v.u)) /* l%2^n => l&(2^n-1) */", "if (r->op == CNST+U && ispow2(r->u.v.u) > 0)"))
R('s-divorder', ("\t\t\tif (r->op == CNST+U && r->u.v.u == 0)\n\t\t\t\tbreak;\n\t\t\tif (r->op == CNST+U && (n = ispow2(r->u.v.u)) != 0)\n\t\t\t\treturn simplify(RSH, ty, l, cnsttree(inttype, (long)n));\n", "\t\t\tif (r->op == CNST+U) {\n\t\t\t\tif (r->u.v.u == 0)\n\t\t\t\t\tbreak;\n\t\t\t\tn = ispow2(r->u.v.u);\n\t\t\t\tif (n)\n\t\t\t\t\treturn simplify(RSH, ty, l, cnsttree(inttype, (long)n));\n\t\t\t}\n"))
R('s-gtu', ("\t\t\tif (r->op == CNST+U && r->u.v.u == 0)\t/* l > 0 => l != 0 */\n\t\t\t\treturn eqtree(NE, l, r);\n", ""))
R('s-subi', ("\tif (x == 0 && y == min)\n\t\tx = 1;	/* 0 - min overflows, too, but addi accepts x == 0 */\n\treturn addi(x, -y, min, max, needconst);", "\tlong z = -y;\n\n\tif (y == min && x == 0)\n\t\tx = 1;\n\treturn addi(x, z, min, max, needconst);"))
R('s-bcom', ("(unsigned long)((~l->u.v.u)&ones(8*ty->size))", "(unsigned long)((l->u.v.u ^ ~0UL)&ones(8*ty->size))"))
R('s-cvui', ("\t\t\tif (l->op == CNST+U) {\n\t\t\t\tif (!explicitCast && l->u.v.u > ty->u.sym->u.limits.max.i)\n", "\t\t\tif (l->op == CNST+U) {\n\t\t\t\tunsigned long u = l->u.v.u;\n\t\t\t\tif (!explicitCast && u > ty->u.sym->u.limits.max.i)\n"))
R('s-consttree', ("\tif (ty->op == INT)\n\t\treturn cnsttree(ty, (long)(int)n);\n\treturn cnsttree(ty, (unsigned long)n);", "\tswitch (ty->op) {\n\tcase INT:\n\t\treturn cnsttree(ty, (long)(int)n);\n\tdefault:\n\t\treturn cnsttree(ty, (unsigned long)n);\n\t}"), file=N)
R('s-cnsttree', ("\tcase UNSIGNED:p->u.v.u = va_arg(ap, unsigned long)&ones(8*ty->size); break;", "\tcase UNSIGNED: {\n\t\tunsigned long u = va_arg(ap, unsigned long);\n\t\tp->u.v.u = u&ones(8*ty->size);\n\t\tbreak; }"), file=N)
R('s-addrtree', ("\t\tCode cp;\n\t\taddlocal(p);\n\t\tcp = code(Address);\n\t\tcp->u.addr.sym = q;\n\t\tcp->u.addr.base = p;\n\t\tcp->u.addr.offset = n;\n", "\t\tCode cp;\n\t\taddlocal(p);\n\t\tcp = code(Address);\n\t\tcp->u.addr.offset = n;\n\t\tcp->u.addr.base = e->u.sym;\n\t\tcp->u.addr.sym = q;\n"))
R('s-lsh', ("if (l->op == CNST+I && r->op == CNST+I\n\t\t\t&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size\n\t\t\t&& muli(", "if (l->op == CNST+I && r->op == CNST+I\n\t\t\t&& r->u.v.i < 8*l->type->size && r->u.v.i >= 0\n\t\t\t&& muli("))
R('s-addi', ("\tint cond = x == 0 || y == 0\n\t|| (x < 0 && y < 0 && x >= min - y)\n\t|| (x < 0 && y > 0)\n\t|| (x > 0 && y < 0)\n\t|| (x > 0 && y > 0 && x <= max - y);\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int addd", "\tlong s = x + y;\n\tint cond = s >= min && s <= max;\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int addd"))
R('s-divi', ("\tint cond = y != 0 && !(x == min && y == -1);", "\tint cond;\n\tif (y == 0)\n\t\tcond = 0;\n\telse\n\t\tcond = x != min || y != -1;"))
R('s-zerofield', ("return eqtree(OP, bittree(BAND, l->kids[0],\\\n\t\t\tcnsttree(unsignedtype, \\\n\t\t\t\t(unsigned long)fieldmask(l->u.field)<<fieldright(l->u.field))), r)", "do { Field f = l->u.field; unsigned long m = (unsigned long)fieldmask(f)<<fieldright(f); return eqtree(OP, bittree(BAND, l->kids[0], cnsttree(unsignedtype, m)), r); } while (0)"))
R('s-fold2', ("\tif (l->op == CNST+TYPE && r->op == CNST+TYPE) \\\n\t\treturn cnsttree(ty, l->u.v.VAR OP r->u.v.VAR)\n#define commute", "\tif (l->op == CNST+TYPE) { \\\n\t\tif (r->op == CNST+TYPE) \\\n\t\t\treturn cnsttree(ty, l->u.v.VAR OP r->u.v.VAR); }\n#define commute"))
R('s-cmpl', ("return cnsttree(inttype, (long)(l->u.v.VAR OP r->u.v.VAR))", "return cnsttree(inttype, l->u.v.VAR OP r->u.v.VAR ? 1L : 0L)"))
R('s-or', ("ufoldcnst(I,l->u.v.i ? cnsttree(ty, 1L) : cond(r));", "if (l->op == CNST+I) {\n\t\t\t\tif (l->u.v.i == 0)\n\t\t\t\t\treturn cond(r);\n\t\t\t\treturn cnsttree(ty, 1L);\n\t\t\t}"))
R('s-noaddrfold', ("\t\t\tif ((l->op == ADD+I || l->op == SUB+I)\n\t\t\t&& l->kids[1]->op == CNST+I && isaddrop(r->op))\n\t\t\t\treturn simplify(ADD+P, ty, l->kids[0],\n\t\t\t\t\tsimplify(generic(l->op)+P, ty, r, l->kids[1]));\n", ""))
