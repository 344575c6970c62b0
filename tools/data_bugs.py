I = 'lcc/src/init.c'
D = 'lcc/src/decl.c'
T = 'lcc/src/types.c'
EDITS = []
def B(name, *edits, file=I):
    EDITS.append((name, 'bug', file, list(edits), ['C38']))

B('da-genconst-cv', ("case CVI: case CVU: case CVF:\n\t\t\te = e->kids[0];", "case CVI: case CVU: case CVF:\n\t\t\tif (e->kids[0]->op == CNST+P) def = 0;\n\t\t\te = e->kids[0];"))
B('da-genconst-size', ("(*IR->defconst)(e->type->op, e->type->size, e->u.v);\n\t\t\treturn e->type->size;", "(*IR->defconst)(e->type->op, e->type->size, e->u.v);\n\t\t\treturn e->type->size < 4 ? 4 : e->type->size;"))
B('da-genconst-silent', ("\t\tdefault:\n\t\t\terror(\"initializer must be constant\\n\");\n", "\t\tdefault:\n\t\t\tif (generic(e->op) != INDIR)\n\t\t\terror(\"initializer must be constant\\n\");\n"))
B('da-genconst-arith', ("\t\t\tif (isarith(e->type))\n", "\t\t\tif (isfloat(e->type))\n"))
B('da-initvalue-type', ("if ((aty = assign(ty, e)) != NULL)\n\t\te = cast(e, aty);\n\telse {\n\t\terror(\"invalid", "if ((aty = assign(ty, e)) != NULL)\n\t\te = cast(e, inttype);\n\telse {\n\t\terror(\"invalid"))
B('da-initvalue-cnst', ("if (generic(e->op) != CNST) {", "if (generic(e->op) == INDIR) {"))
B('da-array-n', ("\t\tn += ty->size;\n\t\tif ((len > 0 && n >= len)", "\t\tn += ty->size;\n\t\tif ((len > 0 && n > len)"))
B('da-array-comma', ("\t\tinitializer(ty, lev);\n\t\tn += ty->size;\n\t\tif ((len > 0 && n >= len) || t != ',')\n\t\t\tbreak;\n\t\tt = gettok();", "\t\tinitializer(ty, lev);\n\t\tn += ty->size;\n\t\tif (t == ',' && len > 0 && n == len) { t = gettok(); break; }\n\t\tif ((len > 0 && n >= len) || t != ',')\n\t\t\tbreak;\n\t\tt = gettok();"))
B('da-char-flush', ("if (++n%inttype->size == 0) {\n\t\t\t(*IR->defstring)(inttype->size, buf);\n\t\t\ts = buf;", "if (++n%inttype->size == 0) {\n\t\t\t(*IR->defstring)(inttype->size, buf);\n\t\t\ts = buf + (n > 8);"))
B('da-char-rest', ("\tif (s > buf)\n\t\t(*IR->defstring)(s - buf, buf);", "\tif (s > buf + 1)\n\t\t(*IR->defstring)(s - buf, buf);"))
B('da-char-size', ("\tif (s > buf)\n\t\t(*IR->defstring)(s - buf, buf);", "\tif (s > buf)\n\t\t(*IR->defstring)(n, buf);"))
B('da-bits-mask', ("\t\t\ti &= fieldmask(p);\n", "\t\t\tif (i >= 0) i &= fieldmask(p);\n"))
B('da-bits-last', ("if (fieldsize(p) + fieldright(p) > n)\n\t\t\t\tn = fieldsize(p) + fieldright(p);", "n += fieldsize(p);"))
B('da-bits-break', ("\t\tif (p->link == q)\n\t\t\tbreak;\n\t\tp = p->link;\n\t} while", "\t\tp = p->link;\n\t\tif (p == q || !p)\n\t\t\tbreak;\n\t} while"), ("n = (n + 7)/8;", "n = n/8 + 1;"))
B('da-bits-round', ("n = (n + 7)/8;", "n = n/8 + (n%8 > 1);"))
B('da-bits-shift', ("v.u = (unsigned char)bits;\n\t\t\tbits >>= 8;", "v.u = (unsigned char)bits;\n\t\t\tbits = (int)bits >> 7;"))
B('da-struct-gap', ("\t\t\t(*IR->space)(p->offset - n);\n\t\t\tn += p->offset - n;", "\t\t\t(*IR->space)(p->offset - n);\n\t\t\tn += p->offset;"))
B('da-struct-nogap', ("if (p->offset > n) {", "if (p->offset > n && !p->lsb) {"))
B('da-struct-group', ("while (!isunion(ty) && q->link && q->link->offset == p->offset)", "while (!isunion(ty) && q->link && q->link->lsb)"))
B('da-struct-union', ("if (isunion(ty) || (len > 0 && n >= len) || t != ',')", "if ((len > 0 && n >= len) || t != ',')"))
B('da-struct-union2', ("while (!isunion(ty) && q->link &&", "while (q->link &&"))
B('da-struct-len', ("if (isunion(ty) || (len > 0 && n >= len) || t != ',')", "if (isunion(ty) || (len > 0 && n + 4 >= len) || t != ',')"))
B('da-struct-align', ("\t\tif (a && n%a) {\n\t\t\t(*IR->space)(a - n%a);", "\t\tif (a && n%a) {\n\t\t\t(*IR->space)(n%a);"))
B('da-struct-member', ("\t\t\tinitializer(p->type, lev);\n\t\t\tn += p->type->size;", "\t\t\tinitializer(p->type, lev);\n\t\t\tn += p->type->align;"))
B('da-init-brace', ("\t\t\te = expr1(0);\n\t\t\tinitend(lev, follow);", "\t\t\te = expr1(0);\n\t\t\tif (lev == 0) initend(lev, follow);"))
B('da-init-assign', ("\t\te = pointer(e);\n\t\tif ((aty = assign(ty, e)) != NULL)\n\t\t\te = cast(e, aty);", "\t\te = pointer(e);\n\t\tif ((aty = assign(ty, e)) != NULL && !isptr(aty))\n\t\t\te = cast(e, aty);"))
B('da-init-union-lev', ("\t\t\t\terror(\"missing { in initialization of `%t'\\n\", ty);\n\t\t\tn = initstruct(ty->u.sym->u.s.flist->type->size, ty, lev + 1);\n\t\t}\n\t} else if", "\t\t\t\terror(\"missing { in initialization of `%t'\\n\", ty);\n\t\t\tn = initstruct(ty->u.sym->u.s.flist->type->size, ty, lev);\n\t\t}\n\t} else if"))
B('da-init-struct-size', ("\t\t} else if (lev > 0)\n\t\t\tn = initstruct(ty->size, ty, lev + 1);", "\t\t} else if (lev > 0)\n\t\t\tn = initstruct(0, ty, lev + 1);"))
B('da-init-str', ("if (ty->size > 0 && ty->size == tsym->type->size - 1)", "if (ty->size > 0 && ty->size <= tsym->type->size - 1)"))
B('da-init-str-n', ("\t\t\tn = tsym->type->size;\n\t\t\t(*IR->defstring)(tsym->type->size, tsym->u.c.v.p);", "\t\t\tn = tsym->type->size - 1;\n\t\t\t(*IR->defstring)(tsym->type->size, tsym->u.c.v.p);"))
B('da-init-charlen', ("else if (lev > 0 && ty->size > 0)\n\t\t\tn = initchar(ty->size, aty);", "else if (lev > 0 && ty->size > 0)\n\t\t\tn = initchar(0, aty);"))
B('da-init-many', ("if (n > ty->size)\n\t\t\terror", "if (n > roundup(ty->size, 4))\n\t\t\terror"))
B('da-init-fill', ("else if (n < ty->size)\n\t\t\t(*IR->space)(ty->size - n);", "else if (n < ty->size && n%4 == 0)\n\t\t\t(*IR->space)(ty->size - n);"))
B('da-init-elems', ("ty = array(ty->type, n/ty->type->size, 0);", "ty = array(ty->type, (n - 1)/ty->type->size + (n > 8), 0);"))
B('da-swtoseg', ("\tif (curseg != seg)\n\t\t(*IR->segment)(seg);\n\tcurseg = seg;", "\tif (curseg != seg)\n\t\t(*IR->segment)(seg);\n\tif (seg != LIT) curseg = seg;"))
B('da-wide', ("(*IR->defconst)(widechar->op, widechar->size, v);\n\t\t\t}\n\t\t\tt = gettok();", "(*IR->defconst)(widechar->op, unsignedchar->size, v);\n\t\t\t}\n\t\t\tt = gettok();"))
# decl.c
def E(name, *edits):
    B(name, *edits, file=D)
E('dd-seg-array', ("for (ty = p->type; isarray(ty); ty = ty->type)\n\t\t\t\t;\n\t\t\tdefglobal(p, isconst(ty) ? LIT : DATA);", "for (ty = p->type; isptr(ty) || isarray(ty); ty = ty->type)\n\t\t\t\t;\n\t\t\tdefglobal(p, isconst(ty) ? LIT : DATA);"))
E('dd-seg-bss', ("\t\t} else\n\t\t\tdefglobal(p, DATA);\n\t\tif (t == '=')", "\t\t} else\n\t\t\tdefglobal(p, p->sclass == EXTERN ? BSS : DATA);\n\t\tif (t == '=')"))
E('dd-size', ("\t\tif (isarray(p->type) && p->type->size == 0)\n\t\t\tp->type = ty;\n\t\tif (p->sclass == EXTERN)", "\t\tif (isarray(p->type) && p->type->size == 0 && p->sclass != EXTERN)\n\t\t\tp->type = ty;\n\t\tif (p->sclass == EXTERN)"))
E('dd-extern', ("\t\tif (p->sclass == EXTERN)\n\t\t\tp->sclass = AUTO;\n\t}\n}", "\t}\n}"))
E('dd-export', ("\tif (p->sclass != STATIC)\n\t\t(*IR->export)(p);\n\t(*IR->global)(p);", "\tif (p->sclass == AUTO)\n\t\t(*IR->export)(p);\n\t(*IR->global)(p);"))
E('dd-noseg', ("\tp->u.seg = seg;\n\tswtoseg(p->u.seg);\n\tif (p->sclass", "\tswtoseg(p->u.seg ? p->u.seg : seg);\n\tp->u.seg = seg;\n\tif (p->sclass"))
E('dd-space', ("\t\t\tdefglobal(p, BSS);\n\t\t\t(*IR->space)(p->type->size);\n\t\t\tif (glevel", "\t\t\tdefglobal(p, BSS);\n\t\t\t(*IR->space)(isarray(p->type) ? p->type->type->size : p->type->size);\n\t\t\tif (glevel"))
E('dd-one', ("\t\tif (isarray(p->type)\n\t\t&& p->type->size == 0 && p->type->type->size > 0)\n\t\t\tp->type = array(p->type->type, 1, 0);\n", "\t\tif (isarray(p->type)\n\t\t&& p->type->size == 0 && p->type->type->size > 0)\n\t\t\tp->type = array(p->type->type, 0, 0);\n"))
E('dd-import', ("\tif (!p->defined && (p->sclass == EXTERN\n\t|| (isfunc(p->type) && p->sclass == AUTO)))", "\tif (!p->defined && (p->sclass == EXTERN\n\t&& p->ref > 0 || (isfunc(p->type) && p->sclass == AUTO)))"))
E('dd-tentative', ("\t&& (p->sclass == AUTO || p->sclass == STATIC)) {\n\t\tif (isarray", "\t&& (p->sclass == AUTO || p->sclass == STATIC && p->ref > 0)) {\n\t\tif (isarray"))
E('dd-const-seg', ("\t\tdefglobal(p->u.c.loc, LIT);\n", "\t\tdefglobal(p->u.c.loc, isarray(p->type) ? LIT : DATA);\n"))
E('dd-const-wide', ("int n = p->type->size/widechar->size;", "int n = p->type->size/widechar->size - 1;"))
E('dd-const-twice', ("\t\tp->u.c.loc = NULL;\n", "\t\tif (isarray(p->type)) p->u.c.loc = NULL;\n"))
E('dd-static-perm', ("sclass == STATIC || sclass == EXTERN ? PERM : FUNC);", "sclass == EXTERN ? PERM : FUNC);"))
E('dd-static-bss', ("\t\t       \t\tdefglobal(p, BSS);\n\t\t       \t\t(*IR->space)(p->type->size);", "\t\t       \t\tdefglobal(p, BSS);\n\t\t       \t\t(*IR->space)(p->type->align);"))
E('dd-alias', ("if (q == NULL || q->sclass == TYPEDEF || q->sclass == ENUM) {\n\t\t       \tq = lookup(id, externals);\n\t\t       \tif (q == NULL) {", "if (q == NULL || q->sclass == TYPEDEF || q->sclass == ENUM) {\n\t\t       \tq = lookup(id, externals);\n\t\t       \tif (q == NULL || q->type != p->type) {"))
E('dd-register', ("\t&& (isvolatile(ty) || isstruct(ty) || isarray(ty))) {", "\t&& (isvolatile(ty) || isarray(ty))) {"))
E('dd-auto-grow', ("\t\t\tif (isarray(p->type) && p->type->size == 0\n\t\t\t&& t1->type->size > 0)", "\t\t\tif (isarray(p->type) && p->type->size == 0\n\t\t\t&& t1->type->size > t1->type->type->size)"))
E('dd-auto-const', ("if (!isconst(ty) && (!isarray(ty) || !isconst(ty1)))\n\t\t\t\tty = qual(CONST, ty);", "if (!isconst(ty) && !isarray(ty))\n\t\t\t\tty = qual(CONST, ty);"))
E('dd-auto-brace', ("\t\t|| \t(isstruct(p->type) && t != '{')) {", "\t\t|| \t(isstruct(p->type))) {") if False else ("\t\t||  (isstruct(p->type) && t != '{')) {", "\t\t||  (isstruct(p->type) && t == ID)) {"))
E('dd-relocate', ("\t\t\tp = relocate(id, externals, globals);\n\t\t\tp->sclass = sclass;", "\t\t\tp = relocate(id, externals, globals);"))
E('dd-glob-type', ("\t\tif (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))\n\t\t\tty = compose(ty, p->type);", "\t\tif (p->sclass != TYPEDEF && eqtype(ty, p->type, 1))\n\t\t\tty = p->type;"))
E('dd-glob-redef', ("if (!isfunc(ty) && p->defined && t == '=')", "if (!isfunc(ty) && p->defined && p->ref > 0 && t == '=')"))
E('dd-glob-static', ("\t} else if (p->sclass == EXTERN)\n\t\tp->sclass = sclass;\n", "\t} else if (p->sclass != STATIC)\n\t\tp->sclass = sclass;\n"))
E('dd-finalize', ("\tforeach(constants,   CONSTANTS, doconst,  NULL);", "\tif (glevel == 0 && xref) foreach(constants,   CONSTANTS, doconst,  NULL);"))
E('dl-bits-fit', ("|| bits - 1 + p->bitsize > 8*unsignedtype->size) {", "|| bits + p->bitsize > 8*unsignedtype->size + 2) {"))
E('dl-zero', ("\t\telse if (p->bitsize == 0 || bits == 0", "\t\telse if (bits == 0"))
E('dl-align', ("\t\tif (a > ty->align)\n\t\t\tty->align = a;", "\t\tif (a > ty->align || ty->align == 4)\n\t\t\tty->align = a;"))
E('dl-off', ("off = add(off, bits2bytes(bits-1));\n\t\t\tbits = 0;", "off = add(off, bits2bytes(bits-1));\n\t\t\tif (p->lsb) bits = 0;"))
E('dl-union', ("\t\tif (ty->op == UNION)\n\t\t\toff = bits = 0;", "\t\tif (ty->op == UNION)\n\t\t\toff = 0;"))
E('dl-size', ("if (off + bits2bytes(bits-1) > ty->size)\n\t\t\tty->size = off + bits2bytes(bits-1);", "if (ty->op != UNION || off + bits2bytes(bits-1) > ty->size)\n\t\t\tty->size = off + bits/8;"))
E('dl-unnamed', ("\t  \t\t*q = p;\n\t  \t\tq = &p->link;\n\t  \t}", "\t  \t\t*q = p;\n\t  \t\tif (p->name) q = &p->link;\n\t  \t}") if False else ("|| !('1' <= *p->name && *p->name <= '9')) {", "|| !('1' <= *p->name && *p->name <= '9') || p->bitsize > 8) {"))
E('dl-round', ("ty->size = roundup(ty->size, ty->align);\n\t  if (overflow)", "ty->size = roundup(ty->size, ty->align > 2 ? ty->align : 4) - (ty->align == 8);\n\t  if (ty->op == STRUCT && ty->size > 64) ty->size -= ty->align;\n\t  if (overflow)"))
E('dm-type', ("\t\t\t\tif (unqual(p->type) != inttype\n\t\t\t\t&&  unqual(p->type) != unsignedtype) {", "\t\t\t\tif (!isint(p->type)) {"))
E('dm-neg', ("width > 8*inttype->size ||", "width > 8*inttype->size + 1 ||"), ('width < 0', 'width < -1'))
E('dm-zero', ("p->name = stringd(genlabel(1));", "p->lsb = 0;"))
E('dm-const', ("\t\t\tif (isconst(p->type))\n\t\t\t\tty->u.sym->u.s.cfields = 1;", "\t\t\tif (p->type->op == CONST)\n\t\t\t\tty->u.sym->u.s.cfields = 1;"))
# types.c
def F(name, *edits):
    B(name, *edits, file=T)
F('dt-dup', ("\t\tif (p->name == name)\n\t\t\terror(\"duplicate", "\t\tif (p->name == name && p->link)\n\t\t\terror(\"duplicate"))
F('dt-front', ("\tfor (p = *q; p; q = &p->link, p = *q)\n\t\tif (p->name == name)\n\t\t\terror(\"duplicate field name `%s' in `%t'\\n\",\n\t\t\t\tname, ty);\n\tNEW0(p, PERM);\n\t*q = p;", "\tfor (p = *q; p; q = &p->link, p = *q)\n\t\tif (p->name == name)\n\t\t\terror(\"duplicate field name `%s' in `%t'\\n\",\n\t\t\t\tname, ty);\n\tNEW0(p, PERM);\n\tq = &ty->u.sym->u.s.flist; p->link = *q;\n\t*q = p;"))
F('dt-eq-array', ("\t\t       \tif (ty1->size == 0 || ty2->size == 0)\n\t\t       \t\treturn ret;", "\t\t       \tif (ty1->size == 0 || ty2->size == 0 || ret)\n\t\t       \t\treturn ret;"))
F('dt-eq-proto', ("if (*p1 == NULL && *p2 == NULL)\n\t\t\t\t\treturn 1;", "if (*p1 == NULL)\n\t\t\t\t\treturn 1;"))
F('dt-eq-var', ("if (variadic(p1 ? ty1 : ty2))\n\t\t\t\t\treturn 0;", "if (variadic(p1 ? ty2 : ty1))\n\t\t\t\t\treturn 0;"))
F('dt-eq-prom', ("\t\t\t\tfor ( ; *p1; p1++) {\n\t\t\t\t\tType ty = unqual(*p1);", "\t\t\t\tfor ( ; *p1 && p1[1]; p1++) {\n\t\t\t\t\tType ty = unqual(*p1);"))
F('dt-eq-qual', ("case VOLATILE: case CONST+VOLATILE:\n\tcase CONST:    return eqtype(ty1->type, ty2->type, 1);", "case VOLATILE: case CONST+VOLATILE:\n\tcase CONST:    return eqtype(unqual(ty1)->type, ty2->type, 1);") if False else ("case POINTER:  return eqtype(ty1->type, ty2->type, 1);", "case POINTER:  return eqtype(ty1->type, ty2->type, 1) || ty1->size == ty2->size && ret;"))
F('dt-array-max', ("} else if (n > INT_MAX/ty->size) {", "} else if (n > INT_MAX/ty->size + 1) {"))
F('dt-array-align', ("a ? a : ty->align, NULL);", "a ? a : 4, NULL);"))
F('dt-qual-both', ("\t\t\top += ty->op;\n\t\t\tty = ty->type;", "\t\t\tty = ty->type;"))
F('dt-qual-array', ("\t\tty = type(ARRAY, qual(op, ty->type), ty->size,\n\t\t\tty->align, NULL);", "\t\tty = type(op, ty, ty->size,\n\t\t\tty->align, NULL);"))
F('dt-comp-size', ("ty1->size/ty1->type->size, ty1->align);", "ty1->size/ty->size, ty1->align);"))
F('dt-comp-proto', ("if (p2 && p1 == NULL)\n\t\t\t \treturn func(ty, p2, ty2->u.f.oldstyle);", "if (p2 && p1 == NULL)\n\t\t\t \treturn func(ty, NULL, ty2->u.f.oldstyle);"))
F('dt-ptr-size', ("return type(POINTER, ty, IR->ptrmetric.size,", "return type(POINTER, ty, IR->ptrmetric.align + isfunc(ty),"))
F('dt-ttob', ("\tcase ENUM:\n\t\treturn INT + sizeop(inttype->size);", "\tcase ENUM:\n\t\treturn INT + sizeop(ty->size);"))
F('dt-intern', ("if (tn->type.op    == op   && tn->type.type  == ty", "if (tn->type.op    == op   && (tn->type.type  == ty || op == ARRAY)"))
E2 = 'lcc/src/bytecode.c'
B("db-endian", ("	1,		/* little_endian */", "	0,		/* little_endian */"), file=E2)
