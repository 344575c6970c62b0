N = 'lcc/src/enode.c'
X = 'lcc/src/expr.c'
T = 'lcc/src/token.h'
EDITS = []
def B(name, *edits, file=N, exp='C36'):
    EDITS.append((name, 'bug', file, list(edits), exp.split()))

# conversions
B('cast-char-noext', ("if (src->size < inttype->size)\n\t\t\t\tp = simplify(CVI, inttype, p, NULL);", "if (src->size < shorttype->size)\n\t\t\t\tp = simplify(CVI, inttype, p, NULL);"), file=X)
B('cast-ushort', ("if (src->size < inttype->size)\n\t\t\t\tp = simplify(CVU, inttype, p, NULL);", "if (src->size < inttype->size)\n\t\t\t\tp = retype(p, inttype);"), file=X)
B('cast-ptr-super', ("p = simplify(CVP, super(src), p, NULL);", "p = simplify(CVP, dst, p, NULL);"), file=X)
B('cast-uf-shift', ("p, consttree(1, inttype)), NULL)),", "p, consttree(2, inttype)), NULL)),"), file=X)
B('cast-uf-lowbit', ("simplify(BAND, src,\n\t\t\t\t\t\t\t\t\tp, consttree(1, unsignedtype)), NULL));", "simplify(BOR, src,\n\t\t\t\t\t\t\t\t\tp, consttree(1, unsignedtype)), NULL));"), file=X)
B('cast-uf-signed', ("if (isfloat(dst)) {\n\t\t\t\t\t\tType ssrc", "if (isfloat(dst) && dst == longdouble) {\n\t\t\t\t\t\tType ssrc"), file=X)
B('cast-fu-max', ("u.limits.max.i + 1), src);", "u.limits.max.i), src);"), file=X)
B('cast-fu-ge', ("simplify(GE, src, p, c),", "simplify(GT, src, c, p),"), file=X)
B('cast-fu-signed', ("if (isunsigned(dst)) {\n\t\t\t\t\t\tType sdst", "if (isunsigned(dst) && needconst) {\n\t\t\t\t\t\tType sdst"), file=X)
B('cast-narrow-size', ("case INT:\n\t\tif (src->op != dst->op || src->size != dst->size)\n\t\t\tp = simplify(CVI, dst, p, NULL);", "case INT:\n\t\tif (src->op != dst->op || src->size < dst->size)\n\t\t\tp = simplify(CVI, dst, p, NULL);"), file=X)
B('cast-narrow-u', ("case UNSIGNED:\n\t\tif (src->op != dst->op || src->size != dst->size)\n\t\t\tp = simplify(CVU, dst, p, NULL);", "case UNSIGNED:\n\t\tif (src->op != dst->op)\n\t\t\tp = simplify(CVU, dst, p, NULL);"), file=X)
B('cast-novalue', ("Type src, dst;\n\n\tp = value(p);", "Type src, dst;\n\n\tif (isfloat(type)) p = value(p);"), file=X)
B('promote-unsigned', ("return inttype;\n\tdefault:" , "return inttype;\n\tdefault:"), file='lcc/src/types.c') if False else None
B('binary-long', ("if (longtype->size > unsignedtype->size)", "if (longtype->size >= unsignedtype->size)"), file=X)
B('binary-unsigned-first', ("\txx(longtype);\n\txx(unsignedtype);\n", "\txx(longtype);\n"), file=X)
B('binary-float', ("\txx(floattype);\n", ""), file=X)
B('binary-order', ("\txx(unsignedlong);\n\tif", "\tif"), file=X)
B('qualified-cast', ("ty1 = unqual(ty1);", "ty1 = ty1;"), file=X)

# operators
B('add-ptr-unscaled', ("if (n > 1)\n\t\t\t\tl = multree(MUL, cnsttree(signedptr, n), l);", "if (n > 4)\n\t\t\t\tl = multree(MUL, cnsttree(signedptr, n), l);"))
B('add-no-promote', ("l = cast(l, promote(l->type));\n\t\t\tif (n > 1)", "if (n > 1)"))
B('add-float-ptr', ("else if (isptr(l->type) && isint(r->type))\n\t\treturn addtree(ADD, r, l);\n\telse if (  isptr(r->type) && isint(l->type)", "else if (isptr(l->type) && isarith(r->type))\n\t\treturn addtree(ADD, r, l);\n\telse if (  isptr(r->type) && isarith(l->type)"))
B('sub-ptr-swap', ("cast(l, unsignedptr), cast(r, unsignedptr));", "cast(r, unsignedptr), cast(l, unsignedptr));"))
B('sub-ptr-divu', ("return simplify(DIV+I, longtype,\n\t\t\tcast(l, longtype), cnsttree(longtype, n));", "return simplify(DIV+U, unsignedlong,\n\t\t\tcast(l, unsignedlong), cnsttree(unsignedlong, n));"))
B('sub-int-unscaled', ("if (n > 1)\n\t\t\tr = multree(MUL, cnsttree(signedptr, n), r);", "if (n > 1 && !isunsigned(r->type))\n\t\t\tr = multree(MUL, cnsttree(signedptr, n), r);"))
B('sub-scale-char', ("if (n > 1)\n\t\t\tr = multree(MUL, cnsttree(signedptr, n), r);", "if (n > 1)\n\t\t\tr = multree(MUL, cnsttree(chartype, n), r);"))
B('shift-type', ("ty = promote(l->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, inttype);", "ty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, inttype);"))
B('shift-count', ("r = cast(r, inttype);\n\t} else\n\t\ttypeerror(op, l, r);", "r = cast(r, ty);\n\t} else\n\t\ttypeerror(op, l, r);"))
B('shift-nopromote', ("ty = promote(l->type);\n\t\tl = cast(l, ty);", "ty = unqual(l->type);\n\t\tl = cast(l, ty);"))
B('bit-arith', ("Tree bittree(int op, Tree l, Tree r) {\n\tType ty = inttype;\n\n\tif (isint(l->type) && isint(r->type)) {", "Tree bittree(int op, Tree l, Tree r) {\n\tType ty = inttype;\n\n\tif (isarith(l->type) && isarith(r->type)) {"))
B('bit-left', ("ty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);\n}\n\n/* multree", "ty = promote(l->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);\n}\n\n/* multree"))
B('mul-commute', ("ty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n\t} else\n\t\ttypeerror(op, l, r);\n\treturn simplify(op, ty, l, r);\n}\n\n/* shtree", "ty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\t\t\n\t} else\n\t\ttypeerror(op, l, r);\n\tif (l->op == CNST+I) { Tree x = l; l = r; r = x; }\n\treturn simplify(op, ty, l, r);\n}\n\n/* shtree"))
B('cmp-ptr-signed', ("else if (compatible(l->type, r->type)) {\n\t\tty = unsignedptr;", "else if (compatible(l->type, r->type)) {\n\t\tty = signedptr;"))
B('cmp-promote', ("if (isarith(l->type) && isarith(r->type)) {\n\t\tty = binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\n\t} else if (comp", "if (isarith(l->type) && isarith(r->type)) {\n\t\tty = isint(r->type) ? promote(l->type) : binary(l->type, r->type);\n\t\tl = cast(l, ty);\n\t\tr = cast(r, ty);\n\t} else if (comp"))
B('cmp-type', ("return simplify(mkop(op,ty), inttype, l, r);\n}\nstatic int compatible", "return simplify(mkop(op,ty), ty, l, r);\n}\nstatic int compatible"))
B('compat-qual', ("&& eqtype(unqual(ty1->type), unqual(ty2->type), 0);", "&& unqual(ty1->type)->op == unqual(ty2->type)->op;"))
B('null-unsigned', ("|| (ty->op == UNSIGNED && e->u.v.u == 0)\n", ""))
B('null-nonconst', ("return generic(e->op) == CNST\n\t    && ((ty->op == INT      && e->u.v.i == 0)", "return (generic(e->op) == CNST || ty->op == INT)\n\t    && ((ty->op == INT      && e->u.v.i == 0)"))
B('null-any', ("ty->op == INT      && e->u.v.i == 0)", "ty->op == INT)"))
B('eq-swap-op', ("return eqtree(op, r, l);", "return cmptree(op, r, l);"))
B('eq-func-void', ("||  (isptr(xty) && !isfunc(xty->type) && isvoidptr(yty))\n\t||  (isptr(xty) && isptr(yty)\n\t    && eqtype(unqual(xty->type), unqual(yty->type), 1))) {", "||  (isptr(xty) && isvoidptr(yty))\n\t||  (isptr(xty) && isptr(yty)\n\t    && eqtype(unqual(xty->type), unqual(yty->type), 1))) {"))
B('and-novalue', ("return simplify(op, inttype, cond(l), cond(r));", "return simplify(op, inttype, cond(r), cond(l));"))
B('and-scalar', ("if (!isscalar(l->type) || !isscalar(r->type))", "if (!isscalar(l->type) && !isscalar(r->type))"))
B('cond-float', ("return (*optree[NEQ])(NE, p, consttree(0, inttype));", "return (*optree[NEQ])(NE, cast(p, inttype), consttree(0, inttype));"), file=X)
B('cond-missing-not', ("if (op == AND || op == OR || op == NOT\n\t||  op == EQ  || op == NE", "if (op == AND || op == OR\n\t||  op == EQ  || op == NE"), file=X)
B('value-missing-ge', ("||  op== LE || op==LT || op== GE || op==GT))\n\t\tp = condtree(", "||  op== LE || op==LT || op==GT))\n\t\tp = condtree("), file=X)
B('value-swapped', ("p = condtree(p, consttree(1, inttype),\n\t\t\tconsttree(0, inttype));", "p = condtree(p, consttree(0, inttype),\n\t\t\tconsttree(1, inttype));"), file=X)

# assignment
B('assign-const', ("return xty;\n\tif (isptr(xty) && isnullptr(e))", "return xty;\n\tif (isptr(xty) && isint(yty))"))
B('assign-discard', ("&& (  (isconst(xty->type)    || !isconst(yty->type))\n\t   && (isvolatile(xty->type) || !isvolatile(yty->type))))\n\t\treturn xty;\n\n\tif", ")\n\t\treturn xty;\n\n\tif"))
B('assign-struct', ("||  (isstruct(xty) && xty == yty))", "||  (isstruct(xty) && isstruct(yty)))"))
B('asgn-nocast', ("\tif (ty)\n\t\tr = cast(r, ty);\n\telse {\n\t\ttypeerror(ASGN", "\tif (ty && ty->size != r->type->size)\n\t\tr = cast(r, ty);\n\telse if (!ty) {\n\t\ttypeerror(ASGN"))
B('asgn-type', ("return tree(mkop(op,ty), ty, l, r);\n}\nTree condtree", "return tree(mkop(op,inttype), ty, l, r);\n}\nTree condtree"))
B('asgn-constcheck', ("if ( isconst(aty)\n\t||", "if ( isconst(aty) && !isptr(ty)\n\t||"))
B('bitfield-nomask', ("if (n > 0 && isunsigned(l->u.field->type))", "if (n > 8 && isunsigned(l->u.field->type))"))
B('bitfield-logical', ("r = shtree(RSH,\n\t\t\t\t\tshtree(LSH, r, cnsttree(inttype, n)),", "r = shtree(RSH,\n\t\t\t\t\tshtree(LSH, r, cnsttree(inttype, n - 1)),"))
B('bitfield-const', ("n |= ~0UL<<fieldsize(l->u.field);\n\t\t\t\telse", "n |= ~0UL<<(fieldsize(l->u.field)-1);\n\t\t\t\telse"), )
B('bitfield-const2', ("if (n&(1<<(fieldsize(l->u.field)-1)))", "if (n < 0)"))
B('cond-type', ("if (isarith(xty) && isarith(yty))\n\t\tty = binary(xty, yty);\n\telse if (eqtype(xty, yty, 1))", "if (isarith(xty) && isarith(yty))\n\t\tty = xty == yty ? xty : binary(xty, yty);\n\telse if (eqtype(xty, yty, 1))"))
B('cond-const-swap', ("case CNST+U: return cast(e->u.v.u != 0   ? l : r, ty);", "case CNST+U: return cast(e->u.v.u != 0   ? r : l, ty);"))
B('cond-const-nocast', ("case CNST+I: return cast(e->u.v.i != 0   ? l : r, ty);", "case CNST+I: return e->u.v.i != 0   ? l : r;"))
B('cond-const-trunc', ("case CNST+F: return cast(e->u.v.d != 0.0 ? l : r, ty);", "case CNST+F: return cast((int)e->u.v.d != 0 ? l : r, ty);"))
B('cond-qual', ("||  (isptr(yty) && isconst(unqual(yty)->type)))\n\t\t\tty = qual(CONST, ty);", ")\n\t\t\tty = qual(CONST, ty);"))
B('cond-temp', ("t1 = genident(REGISTER, unqual(ty), level);", "t1 = genident(REGISTER, unqual(xty), level);"))
B('cond-noassign', ("l = asgn(t1, l);\n\t\tr = asgn(t1, r);", "l = asgn(t1, l);\n\t\tr = asgn(t1, l);"))

# unary
B('neg-nopromote', ("Type ty = promote(p->type);\n\t\t\t\t\t\t  \tp = cast(p, ty);\n\t\t\t\t\t\t  \tif (isunsigned(ty)) {", "Type ty = unqual(p->type);\n\t\t\t\t\t\t  \tp = cast(p, ty);\n\t\t\t\t\t\t  \tif (isunsigned(ty)) {"), file=X)
B('neg-u', ("simplify(BCOM, ty, p, NULL), cnsttree(ty, 1UL));", "simplify(BCOM, ty, p, NULL), cnsttree(ty, 0UL));"), file=X)
B('neg-kid', ("p = simplify(NEG, ty, p, NULL);", "p = simplify(BCOM, ty, p, NULL);"), file=X)
B('plus-type', ("if (isarith(p->type))\n\t\t\t\t\t\t  \tp = cast(p, promote(p->type));", "if (isarith(p->type))\n\t\t\t\t\t\t  \tp = value(p);"), file=X)
B('bcom-float', ("case '~':    t = gettok(); p = unary(); p = pointer(p);\n\t\t\t\t\t\t  if (isint(p->type)) {", "case '~':    t = gettok(); p = unary(); p = pointer(p);\n\t\t\t\t\t\t  if (isarith(p->type)) {"), file=X)
B('not-cond', ("p = simplify(NOT, inttype, cond(p), NULL);", "p = simplify(NOT, inttype, p, NULL);"), file=X)
B('not-type', ("p = simplify(NOT, inttype, cond(p), NULL);", "p = simplify(NOT, p->type, cond(p), NULL);"), file=X)
B('addrof-mark', ("p->u.sym->addressed = 1;\n break;", ";\n break;"), file=X)
B('sizeof-type', ("p = cnsttree(unsignedlong, (unsigned long)ty->size);", "p = cnsttree(longtype, (long)ty->size);"), file=X)
B('sizeof-align', ("p = cnsttree(unsignedlong, (unsigned long)ty->size);", "p = cnsttree(unsignedlong, (unsigned long)ty->align);"), file=X)
B('sizeof-func', ("if (isfunc(ty) || ty->size == 0)\n\t\t\t\t      \t\terror", "if (ty->size == 0 && !isstruct(ty) && !isfunc(ty))\n\t\t\t\t      \t\terror"), file=X)
B('castexpr-struct', ("} else if (ty != voidtype) {\n\t\t\t\terror(\"cast", "} else if (ty != voidtype && !isstruct(pty)) {\n\t\t\t\terror(\"cast"), file=X)
B('castexpr-noconv', ("||       (isint(pty) && isptr(ty))) {", "||       (isint(pty) && isptr(ty) && pty->size == 4)) {"), file=X)
B('castexpr-retype', ("||  (isptr(pty)   && isptr(ty))) {\n\t\t\t\texplicitCast++;\n\t\t\t\tp = cast(p, ty);", "||  (isptr(pty)   && isptr(ty))) {\n\t\t\t\texplicitCast++;\n\t\t\t\tif (ty->op != pty->op) p = cast(p, ty);"), file=X)
B('preinc-dec', ("case DECR:   t = gettok(); p = unary(); p = incr(DECR, pointer(p), consttree(1, inttype)); break;", "case DECR:   t = gettok(); p = unary(); p = incr(DECR, pointer(p), consttree(-1, inttype)); break;"), file=X)
B('postdec-value', ("case DECR:  p = tree(RIGHT, p->type,\n\t\t\t    \ttree(RIGHT, p->type,\n\t\t\t    \t\tp,\n\t\t\t    \t\tincr(t, p, consttree(1, inttype))),\n\t\t\t    \tp);", "case DECR:  p = tree(RIGHT, p->type,\n\t\t\t    \tNULL,\n\t\t\t    \t\tincr(t, p, consttree(1, inttype)));"), file=X)
B('incr-op', ("return asgntree(ASGN, v, (*optree[op])(oper[op], v, e));", "return asgntree(ASGN, v, (*optree[op])(oper[op], e, v));"), file=X)
B('incr-cast', ("return asgntree(ASGN, v, (*optree[op])(oper[op], v, e));", "return asgntree(ASGN, v, (*optree[op])(oper[op], v, cast(e, v->type)));"), file=X)
B('tok-mod', ("yy(0,         37,     13,     MOD,  bittree", "yy(0,         37,     12,     MOD,  bittree"), file=T) if False else B('tok-mod', ("13,     MOD,  bittree,'%'", "12,     MOD,  bittree,'%'"), file=T)
B('tok-shift', ("11,     RSH,    shtree, RSHIFT", "10,     RSH,    shtree, RSHIFT"), file=T)
B('tok-xor', ("7,      BXOR,   bittree", "6,      BXOR,   bittree"), file=T)

# calls
B('arg-proto-cast', ("\t\t\t\t\tif (aty)\n\t\t\t\t\t\tq = cast(q, aty);", "\t\t\t\t\tif (aty && !isint(aty))\n\t\t\t\t\t\tq = cast(q, aty);\n\t\t\t\t\telse if (aty) ;"))
B('arg-promote', ("if ((isint(q->type) || isenum(q->type))\n\t\t\t\t\t&& q->type->size != inttype->size)\n\t\t\t\t\t\tq = cast(q, promote(q->type));", ""))
B('arg-noproto', ("q = cast(q, promote(q->type));\n\t\t\t\t}\n\t\t\tif (!IR", ";\n\t\t\t\t}\n\t\t\tif (!IR"))
B('arg-unsigned', ("&& q->type->size != inttype->size)\n\t\t\t\t\t\tq = cast(q, promote(q->type));", "&& q->type->size != inttype->size && !isunsigned(q->type))\n\t\t\t\t\t\tq = cast(q, promote(q->type));"))
B('arg-op', ("args = tree(mkop(ARG, q->type), q->type, q, args);\n\t\t\tn++;", "args = tree(mkop(ARG, proto && proto[-1] ? proto[-1] : q->type), q->type, q, args);\n\t\t\tn++;"))
B('call-res', ("if (isptr(ty) || p->type->size > ty->size)\n\t\t\tp = cast(p, ty);", "if (isptr(ty))\n\t\t\tp = cast(p, ty);"))
B('call-res2', ("p = tree(mkop(CALL, rty), rty, f, NULL);", "p = tree(mkop(CALL, rty), ty, f, NULL);"))
B('call-flt', ("if (!isfloat(rty))\n\t\t\trty = promote(rty);", "rty = isfloat(rty) ? inttype : promote(rty);"))
B('call-args', ("f = tree(RIGHT, f->type, args, f);", "f = tree(RIGHT, f->type, f, args);"))
