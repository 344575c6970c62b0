I = 'lcc/src/init.c'
D = 'lcc/src/decl.c'
T = 'lcc/src/types.c'
EDITS = []
def R(name, *edits, file=I):
    EDITS.append((name, 'ref', file, list(edits), []))

R('dar-swtoseg', ("\tif (curseg != seg)\n\t\t(*IR->segment)(seg);\n\tcurseg = seg;", "\tint old = curseg;\n\tcurseg = seg;\n\tif (old != seg)\n\t\t(*IR->segment)(seg);"))
R('dar-genconst', ("\tfor (;;)\n\t\tswitch (generic(e->op)) {\n\t\tcase ADDRG:\n\t\t\tif (def)\n\t\t\t\t(*IR->defaddress)(e->u.sym);\n\t\t\treturn e->type->size;", "\tfor (;;)\n\t\tif (generic(e->op) == ADDRG) {\n\t\t\tif (def)\n\t\t\t\t(*IR->defaddress)(e->u.sym);\n\t\t\treturn e->type->size;\n\t\t} else\n\t\tswitch (generic(e->op)) {"))
R('dar-genconst-def', ("\t\t\tif (def)\n\t\t\t\t(*IR->defconst)(e->type->op, e->type->size, e->u.v);\n\t\t\treturn e->type->size;", "\t\t\t{\n\t\t\t\tType ty = e->type;\n\t\t\t\tif (def)\n\t\t\t\t\t(*IR->defconst)(ty->op, ty->size, e->u.v);\n\t\t\t\treturn ty->size;\n\t\t\t}"))
R('dar-genconst-right', ("\t\t\tassert(e->kids[0] || e->kids[1]);\n\t\t\tif (e->kids[1] && e->kids[0])\n\t\t\t\terror(\"initializer must be constant\\n\");\n\t\t\te = e->kids[1] ? e->kids[1] : e->kids[0];\n", "\t\t\tif (e->kids[1]) {\n\t\t\t\tif (e->kids[0])\n\t\t\t\t\terror(\"initializer must be constant\\n\");\n\t\t\t\te = e->kids[1];\n\t\t\t} else\n\t\t\t\te = e->kids[0];\n"))
R('dar-array', ("\tdo {\n\t\tinitializer(ty, lev);\n\t\tn += ty->size;\n\t\tif ((len > 0 && n >= len) || t != ',')\n\t\t\tbreak;\n\t\tt = gettok();\n\t} while (t != '}');\n\treturn n;", "\tfor (;;) {\n\t\tinitializer(ty, lev);\n\t\tn = n + ty->size;\n\t\tif (len > 0)\n\t\t\tif (n >= len)\n\t\t\t\treturn n;\n\t\tif (t != ',')\n\t\t\treturn n;\n\t\tif ((t = gettok()) == '}')\n\t\t\treturn n;\n\t}"))
R('dar-char', ("\t\t*s++ = initvalue(ty)->u.v.i;\n\t\tif (++n%inttype->size == 0) {\n\t\t\t(*IR->defstring)(inttype->size, buf);\n\t\t\ts = buf;\n\t\t}", "\t\tTree e = initvalue(ty);\n\t\t*s = e->u.v.i;\n\t\ts++;\n\t\tn++;\n\t\tif (s - buf == inttype->size) {\n\t\t\t(*IR->defstring)(s - buf, buf);\n\t\t\ts = buf;\n\t\t}"))
R('dar-char8', ("if (++n%inttype->size == 0) {\n\t\t\t(*IR->defstring)(inttype->size, buf);", "if (++n%(2*inttype->size) == 0) {\n\t\t\t(*IR->defstring)(2*inttype->size, buf);"))
R('dar-char1', ("if (++n%inttype->size == 0) {\n\t\t\t(*IR->defstring)(inttype->size, buf);", "if (++n) {\n\t\t\t(*IR->defstring)(1, buf);"))
R('dar-initend', ("\tif (lev == 0 && t == ',')\n\t\tt = gettok();", "\tif (t == ',')\n\t\tif (lev == 0)\n\t\t\tt = gettok();"))
R('dar-bits-or', ("\t\tbits |= i<<fieldright(p);\n", "\t\tbits = bits | (unsigned)i<<fieldright(p);\n"))
R('dar-bits-n', ("\t\t\tif (fieldsize(p) + fieldright(p) > n)\n\t\t\t\tn = fieldsize(p) + fieldright(p);\n", "\t\t\tint end = fieldsize(p) + fieldright(p);\n\t\t\tn = end > n ? end : n;\n"))
R('dar-bits-end', ("\t\tif (IR->little_endian) {\n\t\t\tif (fieldsize(p) + fieldright(p) > n)\n\t\t\t\tn = fieldsize(p) + fieldright(p);\n\t\t} else {\n\t\t\tif (fieldsize(p) + fieldleft(p) > n)\n\t\t\t\tn = fieldsize(p) + fieldleft(p);\n\t\t}\n", "\t\t{\n\t\t\tint pos = IR->little_endian ? fieldright(p) : fieldleft(p);\n\t\t\tif (n < pos + fieldsize(p))\n\t\t\t\tn = pos + fieldsize(p);\n\t\t}\n"))
R('dar-bits-bytes', ("\t\tif (IR->little_endian) {\n\t\t\tv.u = (unsigned char)bits;\n\t\t\tbits >>= 8;\n\t\t} else {", "\t\tif (IR->little_endian)\n\t\t\tv.u = (bits>>(8*i))&0xff;\n\t\telse {"))
R('dar-bits-warn', ("\t\t\tif ((p->type == inttype &&\n\t\t\t   (i < -(int)(fieldmask(p)>>1)-1 || i > (int)(fieldmask(p)>>1)))\n\t\t\t||  (p->type == unsignedtype && (i&~fieldmask(p)) !=  0))\n\t\t\t\twarning(\"initializer exceeds bit-field width\\n\");\n\t\t\ti &= fieldmask(p);", "\t\t\tint cut = i&fieldmask(p);\n\t\t\tif ((p->type == inttype &&\n\t\t\t   (i < -(int)(fieldmask(p)>>1)-1 || i > (int)(fieldmask(p)>>1)))\n\t\t\t||  (p->type == unsignedtype && i != cut))\n\t\t\t\twarning(\"initializer exceeds bit-field width\\n\");\n\t\t\ti = cut;"))
R('dar-struct-gap', ("\t\tif (p->offset > n) {\n\t\t\t(*IR->space)(p->offset - n);\n\t\t\tn += p->offset - n;\n\t\t}", "\t\tif (n < p->offset) {\n\t\t\tint gap = p->offset - n;\n\t\t\t(*IR->space)(gap);\n\t\t\tn = p->offset;\n\t\t}"))
R('dar-struct-q', ("\t\t\tField q = p;\n\t\t\twhile (!isunion(ty) && q->link && q->link->offset == p->offset)\n\t\t\t\tq = q->link;\n", "\t\t\tField q = p;\n\t\t\tif (!isunion(ty))\n\t\t\t\tfor ( ; q->link != NULL; q = q->link)\n\t\t\t\t\tif (q->link->offset != p->offset)\n\t\t\t\t\t\tbreak;\n"))
R('dar-struct-pad', ("\t\tif (p->link) {\n\t\t\tp = p->link;\n\t\t\ta = p->type->align;\n\t\t} else\n\t\t\ta = ty->align;\n\t\tif (a && n%a) {\n\t\t\t(*IR->space)(a - n%a);\n\t\t\tn = roundup(n, a);\n\t\t}", "\t\tif (p->link)\n\t\t\ta = (p = p->link)->type->align;\n\t\telse\n\t\t\ta = ty->align;\n\t\tif (a > 1) {\n\t\t\tint pad = roundup(n, a) - n;\n\t\t\tif (pad > 0)\n\t\t\t\t(*IR->space)(pad);\n\t\t\tn += pad;\n\t\t}"))
R('dar-struct-member', ("\t\t\tinitializer(p->type, lev);\n\t\t\tn += p->type->size;", "\t\t\tType mty = p->type;\n\t\t\tinitializer(mty, lev);\n\t\t\tn = n + mty->size;"))
R('dar-scalar', ("\t\tif (t == '{') {\n\t\t\tt = gettok();\n\t\t\te = expr1(0);\n\t\t\tinitend(lev, follow);\n\t\t} else\n\t\t\te = expr1(0);\n\t\te = pointer(e);", "\t\tint brace = t == '{';\n\t\tif (brace)\n\t\t\tt = gettok();\n\t\te = expr1(0);\n\t\tif (brace)\n\t\t\tinitend(lev, follow);\n\t\te = pointer(e);"))
R('dar-union', ("\t\tif (t == '{') {\n\t\t\tt = gettok();\n\t\t\tn = initstruct(ty->u.sym->u.s.flist->type->size, ty, lev + 1);\n\t\t\tinitend(lev, follow);\n\t\t} else {\n\t\t\tif (lev == 0)\n\t\t\t\terror(\"missing { in initialization of `%t'\\n\", ty);\n\t\t\tn = initstruct(ty->u.sym->u.s.flist->type->size, ty, lev + 1);\n\t\t}", "\t\tint open = t == '{', len = ty->u.sym->u.s.flist->type->size;\n\t\tif (open)\n\t\t\tt = gettok();\n\t\telse if (lev == 0)\n\t\t\terror(\"missing { in initialization of `%t'\\n\", ty);\n\t\tn = initstruct(len, ty, lev + 1);\n\t\tif (open)\n\t\t\tinitend(lev, follow);"))
R('dar-struct', ("\t\tif (t == '{') {\n\t\t\tt = gettok();\n\t\t\tn = initstruct(0, ty, lev + 1);\n\t\t\ttest('}', follow);\n\t\t} else if (lev > 0)\n", "\t\tif (t == '{') {\n\t\t\tint inner = lev + 1;\n\t\t\tt = gettok();\n\t\t\tn = initstruct(0, ty, inner);\n\t\t\ttest('}', follow);\n\t\t} else if (lev >= 1)\n"))
R('dar-string', ("\t\t\tif (ty->size > 0 && ty->size == tsym->type->size - 1)\n\t\t\t\ttsym->type = array(chartype, ty->size, 0);\n\t\t\tn = tsym->type->size;\n\t\t\t(*IR->defstring)(tsym->type->size, tsym->u.c.v.p);", "\t\t\tif (ty->size != 0 && ty->size + 1 == tsym->type->size)\n\t\t\t\ttsym->type = array(chartype, ty->size, 0);\n\t\t\tn = tsym->type->size;\n\t\t\t(*IR->defstring)(n, tsym->u.c.v.p);"))
R('dar-tail', ("\tif (ty->size) {\n\t\tif (n > ty->size)\n\t\t\terror(\"too many initializers\\n\");\n\t\telse if (n < ty->size)\n\t\t\t(*IR->space)(ty->size - n);\n\t} else if (isarray(ty) && ty->type->size > 0)\n\t\tty = array(ty->type, n/ty->type->size, 0);\n\telse\n\t\tty->size = n;\n\treturn ty;", "\tif (ty->size == 0) {\n\t\tif (isarray(ty) && ty->type->size > 0)\n\t\t\treturn array(ty->type, n/ty->type->size, 0);\n\t\tty->size = n;\n\t\treturn ty;\n\t}\n\tif (n < ty->size)\n\t\t(*IR->space)(ty->size - n);\n\telse if (n != ty->size)\n\t\terror(\"too many initializers\\n\");\n\treturn ty;"))
def E(name, *edits):
    R(name, *edits, file=D)
E('ddr-initglobal', ("\t\tif (p->sclass == STATIC) {\n\t\t\tfor (ty = p->type; isarray(ty); ty = ty->type)\n\t\t\t\t;\n\t\t\tdefglobal(p, isconst(ty) ? LIT : DATA);\n\t\t} else\n\t\t\tdefglobal(p, DATA);\n", "\t\tint seg = DATA;\n\t\tif (p->sclass == STATIC) {\n\t\t\tty = p->type;\n\t\t\twhile (isarray(ty))\n\t\t\t\tty = ty->type;\n\t\t\tif (isconst(ty))\n\t\t\t\tseg = LIT;\n\t\t}\n\t\tdefglobal(p, seg);\n"))
E('ddr-defglobal', ("\tp->u.seg = seg;\n\tswtoseg(p->u.seg);\n\tif (p->sclass != STATIC)", "\tp->defined = 1;\n\tp->u.seg = seg;\n\tswtoseg(seg);\n\tif (p->sclass != STATIC)"), ("\t(*IR->global)(p);\n\tp->defined = 1;\n", "\t(*IR->global)(p);\n"))
E('ddr-doglobal', ("\t\tif (p->type->size > 0) {\n\t\t\tdefglobal(p, BSS);\n\t\t\t(*IR->space)(p->type->size);\n\t\t\tif (glevel", "\t\tint size = p->type->size;\n\t\tif (size > 0) {\n\t\t\tdefglobal(p, BSS);\n\t\t\t(*IR->space)(size);\n\t\t\tif (glevel"))
E('ddr-bss', ("void defglobal(Symbol p, int seg) {", "static void reserve(Symbol p) {\n\tdefglobal(p, BSS);\n\t(*IR->space)(p->type->size);\n}\nvoid defglobal(Symbol p, int seg) {"), ("\t\t\tdefglobal(p, BSS);\n\t\t\t(*IR->space)(p->type->size);\n\t\t\tif (glevel", "\t\t\treserve(p);\n\t\t\tif (glevel"), ("\t\t       \t\tdefglobal(p, BSS);\n\t\t       \t\t(*IR->space)(p->type->size);\n", "\t\t       \t\treserve(p);\n"))
E('ddr-doconst', ("\tif (p->u.c.loc) {\n\t\tassert(p->u.c.loc->u.seg == 0); \n\t\tdefglobal(p->u.c.loc, LIT);", "\tSymbol loc = p->u.c.loc;\n\tif (loc) {\n\t\tassert(loc->u.seg == 0); \n\t\tp->u.c.loc = NULL;\n\t\tdefglobal(loc, LIT);"), ("\t\tp->u.c.loc = NULL;\n\t}\n}", "\t}\n}"))
E('ddr-doconst-wide', ("\t\t\twhile (n-- > 0) {\n\t\t\t\tValue v;\n\t\t\t\tv.u = *s++;", "\t\t\tint i;\n\t\t\tfor (i = 0; i < n; i++) {\n\t\t\t\tValue v;\n\t\t\t\tv.u = s[i];"))
E('ddr-local-class', ("\tif (sclass == 0)\n\t\tsclass = isfunc(ty) ? EXTERN : AUTO;\n\telse if (isfunc(ty) && sclass != EXTERN) {", "\tif (sclass == 0) {\n\t\tsclass = AUTO;\n\t\tif (isfunc(ty))\n\t\t\tsclass = EXTERN;\n\t} else if (isfunc(ty) && sclass != EXTERN) {"))
E('ddr-local-init', ("\t\t\twhile (isarray(ty1))\n\t\t\t\tty1 = ty1->type;\n\t\t\tif (!isconst(ty) && (!isarray(ty) || !isconst(ty1)))\n\t\t\t\tty = qual(CONST, ty);", "\t\t\tfor ( ; isarray(ty1); ty1 = ty1->type)\n\t\t\t\t;\n\t\t\tif (!isconst(isarray(ty) ? ty1 : ty))\n\t\t\t\tty = qual(CONST, ty);"))
E('ddr-fields-a', ("\t  \tint a = p->type->align ? p->type->align : 1;\n\t\tif (p->lsb)\n\t\t\ta = unsignedtype->align;\n", "\t  \tint a = p->lsb ? unsignedtype->align : p->type->align;\n\t\tif (a == 0)\n\t\t\ta = 1;\n"))
E('ddr-fields-off', ("\t\telse if (p->bitsize == 0 || bits == 0\n\t\t|| bits - 1 + p->bitsize > 8*unsignedtype->size) {\n", "\t\telse if (!(p->bitsize > 0 && bits > 0\n\t\t&& bits + p->bitsize <= 8*unsignedtype->size + 1)) {\n"))
E('ddr-fields-size', ("\t\tif (off + bits2bytes(bits-1) > ty->size)\n\t\t\tty->size = off + bits2bytes(bits-1);", "\t\t{\n\t\t\tint end = off + bits2bytes(bits-1);\n\t\t\tif (ty->size < end)\n\t\t\t\tty->size = end;\n\t\t}"))
E('ddr-fields-bits', ("\t\t\tif (IR->little_endian)\n\t\t\t\tp->lsb = bits;\n\t\t\telse\n\t\t\t\tp->lsb = 8*unsignedtype->size - bits + 1\n\t\t\t\t\t- p->bitsize + 1;\n\t\t\tbits += p->bitsize;", "\t\t\tp->lsb = bits;\n\t\t\tbits += p->bitsize;\n\t\t\tif (!IR->little_endian)\n\t\t\t\tp->lsb = 8*unsignedtype->size - bits + 2;"))
E('ddr-member-const', ("\t\t\tif (isconst(p->type))\n\t\t\t\tty->u.sym->u.s.cfields = 1;\n\t\t\tif (isvolatile(p->type))\n\t\t\t\tty->u.sym->u.s.vfields = 1;", "\t\t\tty->u.sym->u.s.vfields |= isvolatile(p->type) ? 1 : 0;\n\t\t\tty->u.sym->u.s.cfields |= isconst(p->type) ? 1 : 0;"))
def F(name, *edits):
    R(name, *edits, file=T)
F('dtr-newfield', ("\tfor (p = *q; p; q = &p->link, p = *q)\n\t\tif (p->name == name)\n\t\t\terror(\"duplicate field name `%s' in `%t'\\n\",\n\t\t\t\tname, ty);", "\twhile ((p = *q) != NULL) {\n\t\tif (p->name == name)\n\t\t\terror(\"duplicate field name `%s' in `%t'\\n\",\n\t\t\t\tname, ty);\n\t\tq = &p->link;\n\t}"))
F('dtr-eq-array', ("\tcase ARRAY:    if (eqtype(ty1->type, ty2->type, 1)) {\n\t\t       \tif (ty1->size == ty2->size)\n\t\t       \t\treturn 1;\n\t\t       \tif (ty1->size == 0 || ty2->size == 0)\n\t\t       \t\treturn ret;\n\t\t       }\n\t\t       return 0;", "\tcase ARRAY:    if (!eqtype(ty1->type, ty2->type, 1))\n\t\t       \treturn 0;\n\t\t       if (ty1->size == ty2->size)\n\t\t       \treturn 1;\n\t\t       return ty1->size == 0 || ty2->size == 0 ? ret : 0;"))
F('dtr-eq-proto', ("\t\t       \t\tfor ( ; *p1 && *p2; p1++, p2++)\n\t\t\t\t\tif (eqtype(unqual(*p1), unqual(*p2), 1) == 0)\n\t\t\t\t\t\treturn 0;\n\t\t\t\tif (*p1 == NULL && *p2 == NULL)\n\t\t\t\t\treturn 1;", "\t\t       \t\tint i;\n\t\t       \t\tfor (i = 0; p1[i] && p2[i]; i++)\n\t\t\t\t\tif (!eqtype(unqual(p1[i]), unqual(p2[i]), 1))\n\t\t\t\t\t\treturn 0;\n\t\t\t\tif (p1[i] == p2[i])\n\t\t\t\t\treturn 1;"))
F('dtr-type', ("\tif (op != FUNCTION && (op != ARRAY || size > 0))\n\t\tfor (tn = typetable[h]; tn; tn = tn->link)\n\t\t\tif (tn->type.op    == op   && tn->type.type  == ty\n\t\t\t&&  tn->type.size  == size && tn->type.align == align\n\t\t\t&&  tn->type.u.sym == sym)\n\t\t\t\treturn &tn->type;", "\tif (!(op == FUNCTION || op == ARRAY && size <= 0)) {\n\t\ttn = typetable[h];\n\t\twhile (tn != NULL) {\n\t\t\tType tt = &tn->type;\n\t\t\tif (tt->type == ty && tt->op == op && tt->align == align\n\t\t\t&&  tt->size == size && tt->u.sym == sym)\n\t\t\t\treturn tt;\n\t\t\ttn = tn->link;\n\t\t}\n\t}"))
F('dtr-hash', ("unsigned h = (op^((unsigned long)ty>>3))\n", "unsigned h = (op + size + ((unsigned long)ty>>4))\n"))
F('dtr-qual', ("\t\tif (isqual(ty)) {\n\t\t\top += ty->op;\n\t\t\tty = ty->type;\n\t\t}\n", "\t\tif (isqual(ty))\n\t\t\top += ty->op, ty = ty->type;\n"))
F('dtr-array', ("} else if (n > INT_MAX/ty->size) {", "} else if ((long)n*ty->size > INT_MAX) {"))
F('dtr-compose', ("\tcase CONST: case VOLATILE:\n\t\treturn qual(ty1->op, compose(ty1->type, ty2->type));\n", "\tcase VOLATILE: case CONST: {\n\t\tType inner = compose(ty1->type, ty2->type);\n\t\treturn qual(ty1->op, inner); }\n"))
