S = 'lcc/src/simp.c'
N = 'lcc/src/enode.c'
EDITS = []
def B(name, exp, *edits, file=S):
    EDITS.append((name, 'bug', file, list(edits), exp.split()))

# C32: folding
B("f-extend-int", "C32", ("((x)&(1UL<<(8*", "((x)&(1<<(8*"), file="lcc/src/c.h")
B('f-subi-min', 'C32', ("if (x == 0 && y == min)\n\t\tx = 1;", "if (x == 0 && y == min)\n\t\tx = 0;"))
B('f-addi-sign', 'C32', ("|| (x < 0 && y < 0 && x >= min - y)\n\t|| (x < 0 && y > 0)\n\t|| (x > 0 && y < 0)\n\t|| (x > 0 && y > 0 && x <= max - y);\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int addd", "|| (x < 0 && y < 0)\n\t|| (x < 0 && y > 0)\n\t|| (x > 0 && y < 0)\n\t|| (x > 0 && y > 0 && x <= max - y);\n\tif (!cond && needconst) {\n\t\twarning(\"overflow in constant expression\\n\");\n\t\tcond = 1;\n\t}\n\treturn cond;\n\n\n}\n\nstatic int addd"))
B('f-muli-1', 'C32', ("int cond = (x > -1 && x <= 1) || (y > -1 && y <= 1)", "int cond = (x >= -1 && x <= 1) || (y >= -1 && y <= 1)"))
B('f-muli-swap', 'C32', ("|| (x < 0 && y > 0 &&  x >= min/y)", "|| (x < 0 && y > 0 &&  x >= min)"))
B('f-divi', 'C32', ("&&  r->op == CNST+I && r->u.v.i == -1))\n\t\t\t\tbreak;\n\t\t\txfoldcnst(I,i,/,divi);", "&&  r->op == CNST+I && r->u.v.i == 1))\n\t\t\t\tbreak;\n\t\t\tfoldcnst(I,i,/);"))
B('f-modpow', 'C32', ("return bittree(BAND, l, cnsttree(ty, r->u.v.u - 1));", "return bittree(BAND, l, cnsttree(ty, r->u.v.u));"))
B('f-mod-signed', 'C32', ("xfoldcnst(I,i,%,divi);", "if (r->op == CNST+I && r->u.v.i > 0 && ispow2(r->u.v.i))\n\t\t\t\treturn bittree(BAND, l, cnsttree(ty, r->u.v.i - 1));\n\t\t\txfoldcnst(I,i,%,divi);"))
B('f-div-shift-signed', 'C32', ("xfoldcnst(I,i,/,divi);", "if (r->op == CNST+I && r->u.v.i > 0 && (n = ispow2(r->u.v.i)) != 0)\n\t\t\t\treturn simplify(RSH, ty, l, cnsttree(inttype, (long)n));\n\t\t\txfoldcnst(I,i,/,divi);"))
B('f-geu-value', 'C32', ("geu(l,r,0);\t/* l < 0 => (l,0) */", "geu(l,r,1);\t/* l < 0 => (l,0) */"))
B('f-geu-sides', 'C32', ("geu(r,l,1);\t/* 0 <= r => (r,1) */", "geu(l,r,1);\t/* 0 <= r => (r,1) */"))
B('f-gtu-eq', 'C32', ("return eqtree(NE, l, r);", "return eqtree(EQ, l, r);"))
B('f-leu-ne', 'C32', ("if (r->op == CNST+U && r->u.v.u == 0)\t/* l <= 0 => l == 0 */\n\t\t\t\treturn eqtree(EQ, l, r);", "if (r->op == CNST+U && r->u.v.u == 1)\t/* l <= 0 => l == 0 */\n\t\t\t\treturn eqtree(EQ, l, r);"))
B('f-gei-fold', 'C32', ("cfoldcnst(I,i,>=); break;", "cfoldcnst(U,u,>=); cfoldcnst(I,i,>); break;"))
B('f-gtu-signed', 'C32', ("cfoldcnst(U,u, >);", "cfoldcnst(U,i, >=);"))
B('f-rsh-logical', 'C32', ("\t\t\t\tif (l->u.v.i < 0)\n\t\t\t\t\tn |= ~0UL<<(8*l->type->size - r->u.v.i);\n", "\t\t\t\tif (l->u.v.i < 0)\n\t\t\t\t\tn &= ~(~0UL<<(8*l->type->size - r->u.v.i));\n"))
B('f-rsh-32', 'C32', ("&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size) {\n\t\t\t\tlong n", "&& r->u.v.i >= 0 && r->u.v.i <= 8*l->type->size) {\n\t\t\t\tlong n"))
B('f-lsh-nomul', 'C32', ("\t\t\t&& muli(l->u.v.i, 1<<r->u.v.i, ty->u.sym->u.limits.min.i, ty->u.sym->u.limits.max.i, needconst))\n\t\t\t\treturn cnsttree(ty, (long)extend(l->u.v.i<<r->u.v.i,ty));", ")\n\t\t\t\treturn cnsttree(ty, (long)(l->u.v.i<<r->u.v.i));"))
B('f-sfold-u', 'C32', ("r->u.v.i >= 0 && r->u.v.i < 8*l->type->size) \\", "r->u.v.i >= 0 && r->u.v.i <= 8*l->type->size) \\"))
B('f-identity-sub', 'C32', ("xfoldcnst(I,i,-,subi);\n\t\t\tidentity(r,l,I,i,0);", "xfoldcnst(I,i,-,subi);\n\t\t\tidentity(r,l,I,i,0);\n\t\t\tidentity(l,r,I,i,0);"))
B('f-commute-sub', 'C32', ("foldcnst(U,u,-);\n", "foldcnst(U,u,-);\n\t\t\tcommute(r,l);\n"))
B('f-band-id', 'C32', ("identity(r,l,U,u,ones(8*ty->size));", "identity(r,l,U,u,ones(8*ty->size-1));"))
B('f-bandi-zero', 'C32', ("if (r->op == CNST+I && r->u.v.u == 0)\n\t\t\t\treturn tree(RIGHT, ty, root(l), cnsttree(ty, 0L));", "if (r->op == CNST+I && (r->u.v.u&1) == 0)\n\t\t\t\treturn tree(RIGHT, ty, root(l), cnsttree(ty, 0L));"))
B('f-band-drop', 'C32', ("return tree(RIGHT, ty, root(l), cnsttree(ty, 0UL));", "return cnsttree(ty, 0UL);"))
B('f-mod1-drop', 'C32', ("return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));\n\t\t\tif ((r->op == CNST+I && r->u.v.i == 0)", "return cnsttree(ty, 0L);\n\t\t\tif ((r->op == CNST+I && r->u.v.i == 0)"))
B('f-geu-drop', 'C32', ("return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)", "return cnsttree(inttype, (long)(V)); } while(0)"))
B('f-bor-id', 'C32', ("foldcnst(U,u,|);\n\t\t\tcommute(r,l);\n\t\t\tidentity(r,l,U,u,0);", "foldcnst(U,u,|);\n\t\t\tcommute(r,l);\n\t\t\tidentity(r,l,U,u,1);"))
B('f-bxor-or', 'C32', ("foldcnst(I,i,^);", "foldcnst(I,i,|);"))
B('f-bcom-nomask', 'C32', ("(unsigned long)((~l->u.v.u)&ones(8*ty->size))", "(unsigned long)(-l->u.v.u)"))
B('f-idem-bcom', 'C32', ("idempotent(BCOM+U);\n\t\t\tbreak;\n\t\tcase BOR+U", "idempotent(NEG+I);\n\t\t\tbreak;\n\t\tcase BOR+U"))
B('f-neg-min', 'C32', ("if (needconst || l->u.v.i != ty->u.sym->u.limits.min.i)\n\t\t\t\t\treturn cnsttree(ty, -l->u.v.i);", "return cnsttree(ty, -l->u.v.i);"))
B('f-not-val', 'C32', ("ufoldcnst(I,cnsttree(ty, (long)!l->u.v.i));", "ufoldcnst(I,cnsttree(ty, (long)(l->u.v.i < 1)));"))
B('f-not-width', 'C32', ("ufoldcnst(I,cnsttree(ty, (long)!l->u.v.i));", "ufoldcnst(I,cnsttree(ty, !l->u.v.i));"))
B('f-and-1', 'C32', ("ufoldcnst(I,l->u.v.i ? cond(r) : l);", "ufoldcnst(I,l->u.v.i > 0 ? cond(r) : l);"))
B('f-and-norm', 'C32', ("ufoldcnst(I,l->u.v.i ? cond(r) : l);", "ufoldcnst(I,l->u.v.i ? l : cond(r));"))
B('f-cvii-noext', 'C32', ("xcvtcnst(I,l->u.v.i,ty,i,(long)extend(l->u.v.i,ty));", "xcvtcnst(I,l->u.v.i,ty,i,(long)l->u.v.i);"))
B('f-cvui-noext', 'C32', ("return cnsttree(ty, (long)extend(l->u.v.u,ty));", "return cnsttree(ty, (long)l->u.v.u);"))
B('f-cviu-nomask', 'C32', ("((unsigned long)l->u.v.i)&ones(8*ty->size)", "((unsigned long)l->u.v.i)&ones(7*ty->size)"))
B('f-cvuu-size', 'C32', ("l->u.v.u&ones(8*ty->size));\n\t\t\tbreak;\n\n", "l->u.v.u&ones(8*l->type->size - 1));\n\t\t\tbreak;\n\n"))
B('f-cvif-u', 'C32', ("xcvtcnst(I,l->u.v.i,ty,d,(double)l->u.v.i);", "xcvtcnst(I,l->u.v.i,ty,d,(double)l->u.v.u);"))
B('f-cvfi-round', 'C32', ("xcvtcnst(F,l->u.v.d,ty,i,(long)l->u.v.d);", "xcvtcnst(F,l->u.v.d,ty,i,(long)(l->u.v.d + 0.5));"))
B('f-mul-dist', 'C32', ("return simplify(SUB, ty, simplify(MUL, ty, l, r->kids[0]),", "return simplify(ADD, ty, simplify(MUL, ty, l, r->kids[0]),"))
B('f-mul-dist2', 'C32', ("\t\t\t\t/* c1*(x + c2) => c1*x + c1*c2 */\n\t\t\t\treturn simplify(ADD, ty, simplify(MUL, ty, l, r->kids[0]),\n\t\t\t\t\tsimplify(MUL, ty, l, r->kids[1]));", "\t\t\t\treturn simplify(ADD, ty, simplify(MUL, ty, l, r->kids[0]),\n\t\t\t\t\tr->kids[1]);"))
B('f-mulu-pow', 'C32', ("if (l->op == CNST+U && (n = ispow2(l->u.v.u)) != 0)\n\t\t\t\treturn simplify(LSH", "if (l->op == CNST+U && (n = ispow2(l->u.v.u)) != 0)\n\t\t\t\treturn simplify(RSH"))
B('f-muli-pow-drop', 'C32', ("return simplify(LSH, ty, r, cnsttree(inttype, (long)n));\n\t\t\tidentity", "return simplify(LSH, ty, r, l);\n\t\t\tidentity"))
B('f-subp-sign', 'C32', ("r->op == CNST+I ? -r->u.v.i : -(long)r->u.v.u));", "r->op == CNST+I ? -r->u.v.i : (long)r->u.v.u));"))
B('f-subp-dist', 'C32', ("simplify(SUB, ty, l, r->kids[1]), r->kids[0]);", "simplify(ADD, ty, l, r->kids[1]), r->kids[0]);"))
B('f-addp-sign', 'C32', ("simplify(generic(l->op)+P, ty, r, l->kids[1]));", "simplify(ADD+P, ty, r, l->kids[1]));"))
B('f-addp-right', 'C32', ("return tree(RIGHT, ty, l->kids[0],\n\t\t\t\t\tsimplify(ADD+P, ty, l->kids[1], r));", "return tree(RIGHT, ty, l->kids[1],\n\t\t\t\t\tsimplify(ADD+P, ty, l->kids[1], r));"))
B('f-addp-lost', 'C32', ("simplify(ADD, r->kids[1]->type, l->kids[1], r->kids[1])));", "r->kids[1]));"))
B('f-addrtree-n', 'C32', ("cp->u.addr.offset = n;", "cp->u.addr.offset = (short)n;"))
B('f-addrtree-base', 'C32', ("cp->u.addr.base = p;", "cp->u.addr.base = q;"))
B('f-ispow2', 'C32', ("if (u > 1 && (u&(u-1)) == 0)", "if (u > 1 && (u&(u-2)) == 0)"))
B('f-ispow2-n', 'C32', ("for (n = 0; u; u >>= 1, n++)", "for (n = 1; u; u >>= 1, n++)"))
B('f-zerofield', 'C32', ("(unsigned long)fieldmask(l->u.field)<<fieldright(l->u.field))), r)", "(unsigned long)fieldmask(l->u.field))), r)"))
B('f-zerofield-cond', 'C32', ("&&  r->op == CNST+TYPE && r->u.v.VAR == 0)\\", "&&  r->op == CNST+TYPE && r->u.v.VAR <= 1)\\"))
B('f-consttree-u', 'C32', ("return cnsttree(ty, (long)(int)n);", "return cnsttree(ty, (unsigned long)n);"), file=N)
B('f-consttree-short', 'C32', ("return cnsttree(ty, (unsigned long)n);", "return cnsttree(ty, (unsigned long)(unsigned short)n);"), file=N)
B('f-cnsttree-mask', 'C32', ("va_arg(ap, unsigned long)&ones(8*ty->size)", "va_arg(ap, unsigned long)&ones(32)"), file=N)
B('f-cnsttree-int', 'C32', ("p->u.v.i = va_arg(ap, long); break;", "p->u.v.i = va_arg(ap, int); break;"), file=N)
B('f-vararg-decl', 'C32', ("cnsttree(longtype, n));\n\t} else\n\t\ttypeerror", "cnsttree(longtype, (int)n));\n\t} else\n\t\ttypeerror"), file=N)
B('f-addf-fold', 'C32', ("xfoldcnst(F,d,-,subd);", "xfoldcnst(F,d,-,subd);\n\t\t\tcommute(l,r);"))
B('f-lef', 'C32', ("cfoldcnst(F,d,<=); break;", "cfoldcnst(F,d,<); break;"))
B('f-lshu-warn', 'C32', ("sfoldcnst(<<);\n\t\t\tif (r->op == CNST+I && (r->u.v.i >= 8*ty->size || r->u.v.i < 0)) {\n", "sfoldcnst(<<);\n\t\t\tif (r->op == CNST+I && (r->u.v.i >= 8*ty->size || r->u.v.i < 0)) {\n\t\t\t\tr = cnsttree(inttype, r->u.v.i & 15);\n"))
B('f-divu-1', 'C32', ("case DIV+U:\t\t\n\t\t\tidentity(r,l,U,u,1);", "case DIV+U:\t\t\n\t\t\tidentity(r,l,U,u,1);\n\t\t\tidentity(l,l,U,u,1);"))
B('f-addr-local', 'C32', ("\t\taddlocal(p);\n\t\tcp = code(Address);", "\t\tcp = code(Address);\n\t\taddlocal(p);"))
B('f-addr-arena', 'C32', ("\tif (p->scope  == GLOBAL\n\t||  p->sclass == STATIC || p->sclass == EXTERN)\n\t\tNEW0(q, PERM);", "\tif (p->scope  == GLOBAL\n\t||  p->sclass == STATIC)\n\t\tNEW0(q, PERM);"))
B('f-addr-scope', 'C32', ("q->scope = p->scope;", "q->scope = level;"))
B('f-addr-computed', 'C32', ("\tq->computed = 1;\n", "\tq->computed = p->generated;\n"))
B('f-addr-nobase', 'C32', ("(*IR->address)(q, p, n);", "(*IR->address)(q, p, (int)(short)n);"))
B('f-intexpr-needconst', 'C32', ("\t\tn = cast(p, inttype)->u.v.i;\n\telse\n", "\t\treturn cast(p, inttype)->u.v.i;\n\telse\n"))
B('f-intexpr-unsigned', 'C32', ("p->op == CNST+I || p->op == CNST+U)\n\t\tn =", "p->op == CNST+I)\n\t\tn ="))
B('f-constexpr', 'C32', ("\tneedconst++;\n\tp = expr1(tok);\n\tneedconst--;", "\tneedconst++;\n\tp = expr1(tok);\n\tneedconst = 0;"))
B('f-div0', 'C32', ("\t\t\tif ((r->op == CNST+I && r->u.v.i == 0)\n\t\t\t||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i\n\t\t\t&&  r->op == CNST+I && r->u.v.i == -1))\n\t\t\t\tbreak;\n\t\t\txfoldcnst(I,i,/,divi);", "\t\t\tif ((l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i\n\t\t\t&&  r->op == CNST+I && r->u.v.i == -1))\n\t\t\t\tbreak;\n\t\t\txfoldcnst(I,i,/,divi);"))
B('f-modu0', 'C32', ("\t\t\tif (r->op == CNST+U && r->u.v.u == 0)\n\t\t\t\tbreak;\n\t\t\tfoldcnst(U,u,%);", "\t\t\tfoldcnst(U,u,%);"))
B('f-nofold-cvif', 'C32', ("\t\t\txcvtcnst(I,l->u.v.i,ty,d,(double)l->u.v.i);\n", "\t\t\tbreak;\n"))
B('f-nofold-band', 'C32', ("\t\t\tfoldcnst(I,i,&);\n", ""))
B('f-nofold-gtf', 'C32', ("case GT+F: cfoldcnst(F,d, >); break;", "case GT+F: break;"))
B('f-nofold-bcom', 'C32', ("ufoldcnst(U,cnsttree(ty, (unsigned long)((~l->u.v.u)&ones(8*ty->size))));", ""))
B('f-nofold-geu', 'C32', ("R->u.v.u == 0 && L->op != CNST+U) do", "R->u.v.u == 0) do"))
