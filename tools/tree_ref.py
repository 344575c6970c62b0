N = 'lcc/src/enode.c'
X = 'lcc/src/expr.c'
EDITS = []
def R(name, *edits, file=N):
    EDITS.append((name, 'ref', file, list(edits)))

R('add-helper', ("static Tree addtree(int op, Tree l, Tree r) {\n\tType ty = inttype;\n\n\tif (isarith(l->type) && isarith(r->type)) {\n\t\tty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n",
  "static Type usual(Tree *l, Tree *r) {\n\tType ty = binary((*l)->type, (*r)->type);\n\t*l = cast(*l, ty);\n\t*r = cast(*r, ty);\n\treturn ty;\n}\nstatic Tree addtree(int op, Tree l, Tree r) {\n\tType ty = inttype;\n\n\tif (isarith(l->type) && isarith(r->type)) {\n\t\tty = usual(&l, &r);\n"))
R('mul-order', ("ty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);\n}\n\n/* shtree", "ty = binary(l->type, r->type);\n\t\tr = cast(r, ty);\n\t\tl = cast(l, ty);\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);\n}\n\n/* shtree"))
R('shift-early', ("\tif (isint(l->type) && isint(r->type)) {\n\t\tty = promote(l->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, inttype);\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);", "\tif (!isint(l->type) || !isint(r->type)) {\n\t\ttypeerror(op, l, r);\n\t\treturn simplify(op, ty, l, r);\n\t}\n\tty = promote(l->type);\n\treturn simplify(op, ty, cast(l, ty), cast(r, inttype));"))
R('add-swap', ("else if (isptr(l->type) && isint(r->type))\n\t\treturn addtree(ADD, r, l);", "else if (isptr(l->type) && isint(r->type)) {\n\t\tTree x = l;\n\t\tl = r;\n\t\tr = x;\n\t\treturn addtree(ADD, l, r);\n\t}"))
R('scale-always', ("if (n > 1)\n\t\t\t\tl = multree(MUL, cnsttree(signedptr, n), l);", "if (n != 1)\n\t\t\t\tl = multree(MUL, l, cnsttree(signedptr, n));"))
R('compat-split', ("return isptr(ty1) && !isfunc(ty1->type)\n\t    && isptr(ty2) && !isfunc(ty2->type)\n\t    && eqtype(unqual(ty1->type), unqual(ty2->type), 0);", "if (!isptr(ty1) || !isptr(ty2))\n\t\treturn 0;\n\tif (isfunc(ty1->type) || isfunc(ty2->type))\n\t\treturn 0;\n\treturn eqtype(unqual(ty1->type), unqual(ty2->type), 0);"))
R('null-switch', ("return generic(e->op) == CNST\n\t    && ((ty->op == INT      && e->u.v.i == 0)\n\t     || (ty->op == UNSIGNED && e->u.v.u == 0)\n\t     || (isvoidptr(ty)      && e->u.v.p == NULL));", "if (generic(e->op) != CNST)\n\t\treturn 0;\n\tswitch (ty->op) {\n\tcase INT: return e->u.v.i == 0;\n\tcase UNSIGNED: return e->u.v.u == 0;\n\t}\n\treturn isvoidptr(ty) && e->u.v.p == NULL;"))
R('eq-helper', ("Tree eqtree(int op, Tree l, Tree r) {\n\tType xty = l->type, yty = r->type;\n\n\tif ((isptr(xty) && isnullptr(r))\n\t||  (isptr(xty) && !isfunc(xty->type) && isvoidptr(yty))\n\t||  (isptr(xty) && isptr(yty)\n\t    && eqtype(unqual(xty->type), unqual(yty->type), 1))) {\n\t\tType ty = unsignedptr;\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\n\t\treturn simplify(mkop(op,ty), inttype, l, r);\n\t}", "static Tree eqptr(int op, Tree l, Tree r) {\n\treturn simplify(mkop(op,unsignedptr), inttype, cast(l, unsignedptr), cast(r, unsignedptr));\n}\nTree eqtree(int op, Tree l, Tree r) {\n\tType xty = l->type, yty = r->type;\n\n\tif (isptr(xty)) {\n\t\tif (isnullptr(r))\n\t\t\treturn eqptr(op, l, r);\n\t\tif (!isfunc(xty->type) && isvoidptr(yty))\n\t\t\treturn eqptr(op, l, r);\n\t\tif (isptr(yty) && eqtype(unqual(xty->type), unqual(yty->type), 1))\n\t\t\treturn eqptr(op, l, r);\n\t}"))
R('assign-order', ("\tif (isptr(xty) && isnullptr(e))\n\t\treturn xty;\n\tif (((isvoidptr(xty)", "\tif (isnullptr(e) && isptr(xty))\n\t\treturn xty;\n\tif (((isvoidptr(xty)"))
R('cond-if', ("\tswitch (e->op) {\n\tcase CNST+I: return cast(e->u.v.i != 0   ? l : r, ty);\n\tcase CNST+U: return cast(e->u.v.u != 0   ? l : r, ty);", "\tif (e->op == CNST+I)\n\t\treturn cast(e->u.v.i ? l : r, ty);\n\tswitch (e->op) {\n\tcase CNST+U:\n\t\tif (e->u.v.u == 0)\n\t\t\tl = r;\n\t\treturn cast(l, ty);"))
R('cond-temp', ("t1 = genident(REGISTER, unqual(ty), level);\n\t/*\tt1 = temporary(REGISTER, unqual(ty)); */\n\t\tl = asgn(t1, l);\n\t\tr = asgn(t1, r);", "t1 = temporary(REGISTER, unqual(ty));\n\t\tr = asgn(t1, r);\n\t\tl = asgn(t1, l);"))
R('andtree', ("return simplify(op, inttype, cond(l), cond(r));", "l = cond(l);\n\tr = cond(r);\n\treturn simplify(op, inttype, l, r);"))
R('bitfield-mask', ("r = bittree(BAND, r,\n\t\t\t\tcnsttree(r->type, (unsigned long)fieldmask(l->u.field)));", "{\n\t\t\tunsigned long m = fieldmask(l->u.field);\n\t\t\tr = bittree(BAND, r, cnsttree(r->type, m));\n\t\t}"))
R('value-helper', ("Tree value(Tree p) {\n\tint op = generic(rightkid(p)->op);\n\n\tif (p->type != voidtype\n\t&& (op==AND || op==OR || op==NOT || op==EQ || op==NE\n\t||  op== LE || op==LT || op== GE || op==GT))", "static int iscond(int op) {\n\treturn op==AND || op==OR || op==NOT || op==EQ || op==NE\n\t||  op== LE || op==LT || op== GE || op==GT;\n}\nTree value(Tree p) {\n\tif (p->type != voidtype && iscond(generic(rightkid(p)->op)))"), file=X)
R('cond-switch', ("\tif (op == AND || op == OR || op == NOT\n\t||  op == EQ  || op == NE\n\t||  op == LE  || op == LT || op == GE || op == GT)\n\t\treturn p;", "\tswitch (op) {\n\tcase AND: case OR: case NOT: case EQ: case NE:\n\tcase LE: case LT: case GE: case GT:\n\t\treturn p;\n\t}"), file=X)
R('cond-direct', ("return (*optree[NEQ])(NE, p, consttree(0, inttype));", "return eqtree(NE, p, consttree(0, inttype));"), file=X)
R('binary-if', ("\txx(longtype);\n\txx(unsignedtype);\n\treturn inttype;", "\tif (xty == longtype || yty == longtype)\n\t\treturn longtype;\n\treturn xty == unsignedtype || yty == unsignedtype ? unsignedtype : inttype;"), file=X)
R('cast-helper', ("\t\tcase INT:\n\t\t\tif (src->size < inttype->size)\n\t\t\t\tp = simplify(CVI, inttype, p, NULL);\n\t\t\tbreak;", "\t\tcase INT:\n\t\t\tif (src->size >= inttype->size)\n\t\t\t\tbreak;\n\t\t\tp = simplify(CVI, inttype, p, NULL);\n\t\t\tbreak;"), file=X)
R('cast-early', ("\tif (p->type == type)\n\t\treturn p;\n\tdst", "\tif (type == p->type)\n\t\treturn retype(p, type);\n\tdst"), file=X)
R('neg-decl', ("p = simplify(ADD, ty, simplify(BCOM, ty, p, NULL), cnsttree(ty, 1UL));", "{\n\t\t\t\t\t\t\t\tTree q = simplify(BCOM, ty, p, NULL);\n\t\t\t\t\t\t\t\tp = simplify(ADD, ty, q, cnsttree(ty, 1UL));\n\t\t\t\t\t\t\t}"), file=X)
R('not-ne', ("p = simplify(NOT, inttype, cond(p), NULL);", "{ Tree q = cond(p); p = simplify(NOT, inttype, q, NULL); }"), file=X)
R('cast-unary-order', ("if ((isarith(pty) && isarith(ty))\n\t\t\t||  (isptr(pty)   && isptr(ty))) {", "if ((isptr(ty) && isptr(pty))\n\t\t\t||  (isarith(ty) && isarith(pty))) {"), file=X)
R('postinc-helper', ("\t\tcase INCR:  p = tree(RIGHT, p->type,\n\t\t\t    \ttree(RIGHT, p->type,\n\t\t\t    \t\tp,\n\t\t\t    \t\tincr(t, p, consttree(1, inttype))),\n\t\t\t    \tp);\n\t\t\t    t = gettok(); break;\n\t\tcase DECR:  p", "\t\tcase INCR:\n\t\tcase DECR:  p"), file=X)
R('call-arg', ("q = value(q);\n\t\t\t\t\taty = assign(*proto, q);\n\t\t\t\t\tif (aty)\n\t\t\t\t\t\tq = cast(q, aty);\n\t\t\t\t\telse\n\t\t\t\t\t\terror(", "q = value(q);\n\t\t\t\t\tif ((aty = assign(*proto, q)) != NULL)\n\t\t\t\t\t\tq = cast(q, aty);\n\t\t\t\t\telse\n\t\t\t\t\t\terror("))
R('call-promote', ("if ((isint(q->type) || isenum(q->type))\n\t\t\t\t\t&& q->type->size != inttype->size)\n\t\t\t\t\t\tq = cast(q, promote(q->type));", "if (isint(q->type) || isenum(q->type))\n\t\t\t\t\t\tq = cast(q, promote(q->type));"))
R('calltree', ("if (isptr(ty) || p->type->size > ty->size)\n\t\t\tp = cast(p, ty);", "if (p->type != ty)\n\t\t\tp = cast(p, ty);"))
