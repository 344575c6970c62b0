EDITS = []
def R(name, *edits, file='lcc/src/decl.c'):
    EDITS.append((name, 'ref', file, list(edits)))

R('dr-cls', ("\tif (sclass == NULL)\n\t\tcls = AUTO;\n", "\tif (!sclass)\n\t\tcls = AUTO;\n"), ("\tif (sclass)\n\t\t*sclass = cls;", "\tif (sclass != NULL)\n\t\t*sclass = cls;"))
R('dr-switch', ("case CONST:    p = &cons; t = gettok();      break;\n\t\tcase VOLATILE: p = &vol;  t = gettok();      break;", "case CONST:\n\t\tcase VOLATILE: p = t == CONST ? &cons : &vol;  t = gettok();      break;"))
R('dr-default', ("\tif (type == 0) {\n\t\ttype = INT;\n\t\tty = inttype;\n\t}", "\tif (!type) {\n\t\tty = inttype;\n\t\ttype = INT;\n\t}"))
R('dr-valid', ("\tif ((size == SHORT     && type != INT)\n\t||  (size == LONG+LONG && type != INT)\n", "\tif (((size == SHORT || size == LONG+LONG) && type != INT)\n"))
R('dr-type', ("static Type specifier(int *sclass) {\n", "static Type pick(int sign, Type u, Type s) {\n\treturn sign == UNSIGNED ? u : s;\n}\nstatic Type specifier(int *sclass) {\n"), ("ty = sign == UNSIGNED ? unsignedchar : signedchar;", "ty = pick(sign, unsignedchar, signedchar);"), ("ty = sign == UNSIGNED ? unsignedlong : longtype;", "ty = pick(sign, unsignedlong, longtype);"))
R('dr-quals', ("\tif (cons == CONST)\n\t\tty = qual(CONST, ty);\n\tif (vol  == VOLATILE)\n\t\tty = qual(VOLATILE, ty);\n\treturn ty;", "\tif (vol)\n\t\tty = qual(VOLATILE, ty);\n\tif (cons)\n\t\tty = qual(CONST, ty);\n\treturn ty;"))
R('dr-while', ("\twhile (t == '(' || t == '[')\n\t\tswitch (t) {\n\t\tcase '(': t", "\tfor ( ; t == '[' || t == '('; )\n\t\tswitch (t) {\n\t\tcase '(': t"))
R('dr-ptr', ("while ((t = gettok()) == CONST || t == VOLATILE)\n\t\t\t\t\t\tty1 = tnode(t, ty1);", "for (t = gettok(); t == CONST || t == VOLATILE; t = gettok())\n\t\t\t\t\t\tty1 = tnode(t, ty1);"))
R('dr-scope', ("\t\t\t\t\tty = tnode(FUNCTION, ty);\n\t\t\t\t\tenterscope();\n\t\t\t\t\tif (level > PARAM)\n\t\t\t\t\t\tenterscope();\n\t\t\t\t\targs", "\t\t\t\t\tenterscope();\n\t\t\t\t\tif (level > PARAM)\n\t\t\t\t\t\tenterscope();\n\t\t\t\t\tty = tnode(FUNCTION, ty);\n\t\t\t\t\targs"))
R('dr-array', ("\t\t\t\t\t  ty = tnode(ARRAY, ty);\n\t\t\t\t\t  ty->size = n; } break;", "\t\t\t\t\t  { Type a = tnode(ARRAY, ty);\n\t\t\t\t\t  a->size = n; ty = a; } } break;"))
R('dr-dclr', ("\tfor ( ; ty; ty = ty->type)\n\t\tswitch (ty->op) {\n\t\tcase POINTER:\n\t\t\tbasety = ptr(basety);\n\t\t\tbreak;", "\twhile (ty) {\n\t\tif (ty->op == POINTER)\n\t\t\tbasety = ptr(basety);\n\t\telse switch (ty->op) {"), ("\t\tdefault: assert(0);\n\t\t}\n\tif (Aflag >= 2 && basety->size", "\t\tdefault: assert(0);\n\t\t}\n\t\tty = ty->type;\n\t}\n\tif (Aflag >= 2 && basety->size"))
R('dr-params', ("\t\tfor (n = 0; params[n]; n++)\n\t\t\tfty->u.f.proto[n] = params[n]->type;\n\t\tfty->u.f.proto[n] = NULL;", "\t\tn = 0;\n\t\twhile (params[n] != NULL) {\n\t\t\tfty->u.f.proto[n] = params[n]->type;\n\t\t\tn++;\n\t\t}\n\t\tfty->u.f.proto[n] = NULL;"))
R('dr-void', ("if ( (ty == voidtype && (ty1 || id))\n\t\t\t||  ty1 == voidtype)", "if (ty1 == voidtype || (ty == voidtype && (id || ty1)))"))
R('dr-class', ("\tif (sclass == 0)\n\t\tsclass = AUTO;\n\telse if (sclass != REGISTER) {\n\t\terror(\"invalid storage class `%k' for `%t%s", "\tif (!sclass)\n\t\tsclass = AUTO;\n\telse if (!(sclass == REGISTER)) {\n\t\terror(\"invalid storage class `%k' for `%t%s"))
R('dr-set', ("\tp->sclass = sclass;\n\tp->src = *pos;\n\tp->type = ty;\n\tp->defined = 1;\n\tif (t == '=') {\n\t\terror(\"illegal init", "\tp->type = ty;\n\tp->defined = 1;\n\tp->src = *pos;\n\tp->sclass = sclass;\n\tif (t == '=') {\n\t\terror(\"illegal init"))
R('dr-exit', ("if (level > PARAM)\n\t\texitscope();\n\texitscope();", "if (level > PARAM) {\n\t\texitscope();\n\t\texitscope();\n\t} else\n\t\texitscope();"))
R('dr-tag', ("\tif (t == ID) {\n\t\ttag = token;\n\t\tt = gettok();\n\t} else\n\t\ttag = \"\";\n\tif (t == '{') {\n\t\tstatic char stop[] = { IF, ',', 0 };\n\t\tty = newstruct", "\ttag = \"\";\n\tif (t == ID) {\n\t\ttag = token;\n\t\tt = gettok();\n\t}\n\tif (t == '{') {\n\t\tstatic char stop[] = { IF, ',', 0 };\n\t\tty = newstruct"))
R('dr-newstruct', ("\tif (*tag == 0)\n\t\ttag = stringd(genlabel(1));\n\telse\n\t\tif ((p = lookup(tag, types)) != NULL && (p->scope == level\n\t\t|| (p->scope == PARAM && level == PARAM+1))) {\n\t\t\tif (p->type->op == op && !p->defined)\n\t\t\t\treturn p->type;\n\t\t\terror(\"redef", "\tif (!*tag)\n\t\ttag = stringd(genlabel(1));\n\telse {\n\t\tp = lookup(tag, types);\n\t\tif (p && (p->scope == level\n\t\t|| (level == PARAM+1 && p->scope == PARAM))) {\n\t\t\tif (!p->defined && p->type->op == op)\n\t\t\t\treturn p->type;\n\t\t\terror(\"redef"), ("\t\t\t\tp->name, &p->src);\n\t\t}\n\tp = install(tag, &types, level, PERM);\n\tp->type = type(op, NULL, 0, 0, p);\n\tif (p", "\t\t\t\tp->name, &p->src);\n\t\t}\n\t}\n\tp = install(tag, &types, level, PERM);\n\tp->type = type(op, NULL, 0, 0, p);\n\tif (p"), file='lcc/src/types.c')
R('dr-enum', ("\t\twhile (t == ID) {\n\t\t\tchar *id = token;", "\t\tfor ( ; t == ID; ) {\n\t\t\tchar *id = token;"), ("\t\t\tp->src = s;\n\t\t\tp->type = ty;\n\t\t\tp->sclass = ENUM;\n\t\t\tp->u.value = k;", "\t\t\tp->u.value = k;\n\t\t\tp->sclass = ENUM;\n\t\t\tp->type = ty;\n\t\t\tp->src = s;"))
R('dr-enum2', ("\t\tty->type = inttype;\n\t\tty->size = ty->type->size;\n\t\tty->align = ty->type->align;", "\t\tty->type = inttype;\n\t\tty->align = inttype->align;\n\t\tty->size = inttype->size;"))
R('dr-enum3', ("\t\t\t\tk++;\n", "\t\t\t\tk = k + 1;\n"))
R('dr-enum4', ("Type enumdcl(void) {\n", "static Symbol enumconst(char *id, Type ty, long k, Coordinate s) {\n\tSymbol p = install(id, &identifiers, level, level < LOCAL ? PERM : FUNC);\n\n\tp->src = s;\n\tp->type = ty;\n\tp->sclass = ENUM;\n\tp->u.value = k;\n\treturn p;\n}\nType enumdcl(void) {\n"), ("p = install(id, &identifiers, level,  level < LOCAL ? PERM : FUNC);\n\t\t\tp->src = s;\n\t\t\tp->type = ty;\n\t\t\tp->sclass = ENUM;\n\t\t\tp->u.value = k;", "p = enumconst(id, ty, k, s);"))
R('dr-typedef', ("static void decl(Symbol (*dcl)", "static void newtypename(char *id, Type ty, Coordinate *pos) {\n\tSymbol p = lookup(id, identifiers);\n\n\tif (p && p->scope == level)\n\t\terror(\"redeclaration of `%s'\\n\", id);\n\tp = install(id, &identifiers, level, level < LOCAL ? PERM : FUNC);\n\tp->src = *pos;\n\tp->sclass = TYPEDEF;\n\tp->type = ty;\n}\nstatic void decl(Symbol (*dcl)"), ("\t\t\t\t{\n\t\t\t\t\tSymbol p = lookup(id, identifiers);\n\t\t\t\t\tif (p && p->scope == level)\n\t\t\t\t\t\terror(\"redeclaration of `%s'\\n\", id);\n\t\t\t\t\tp = install(id, &identifiers, level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);\n\t\t\t\t\tp->type = ty1;\n\t\t\t\t\tp->sclass = TYPEDEF;\n\t\t\t\t\tp->src = pos;\n\t\t\t\t}\n", "\t\t\t\tnewtypename(id, ty1, &pos);\n"))
R('dr-oldparam', ("\tfor (i = 0; callee[i]; i++)\n\t\tif (p->name == callee[i]->name) {\n\t\t\tcallee[i] = p;\n\t\t\treturn;\n\t\t}", "\tfor ( ; *callee; callee++)\n\t\tif (p->name == (*callee)->name) {\n\t\t\t*callee = p;\n\t\t\treturn;\n\t\t}"), ("static void oldparam(Symbol p, void *cl) {\n\tint i;\n", "static void oldparam(Symbol p, void *cl) {\n"))
R('dr-typename', ("\tif (t == '*' || t == '(' || t == '[') {\n\t\tty = dclr(ty, NULL", "\tswitch (t) {\n\tcase '*': case '(': case '[':\n\t\tty = dclr(ty, NULL"))
R('dr-sort', ("\t\tint i = nregs, j;\n\t\tSymbol p;\n\t\tfor ( ; (p = cp->u.block.locals[i]) != NULL; i++) {\n\t\t\tfor (j = i; j > nregs\n\t\t\t\t&& cp->u.block.locals[j-1]->ref < p->ref; j--)\n\t\t\t\tcp->u.block.locals[j] = cp->u.block.locals[j-1];\n\t\t\tcp->u.block.locals[j] = p;", "\t\tint i, j;\n\t\tSymbol p, *v = cp->u.block.locals;\n\t\tfor (i = nregs; v[i] != NULL; i++) {\n\t\t\tp = v[i];\n\t\t\tj = i;\n\t\t\twhile (j > nregs && v[j-1]->ref < p->ref) {\n\t\t\t\tv[j] = v[j-1];\n\t\t\t\tj--;\n\t\t\t}\n\t\t\tv[j] = p;"))
R('dr-block', ("\tcp->u.block.level = level;\n\tcp->u.block.identifiers = identifiers;\n\tcp->u.block.types = types;\n", "\tcp->u.block.types = types;\n\tcp->u.block.identifiers = identifiers;\n\tcp->u.block.level = level;\n"))
R('dr-lists', ("\tautos = registers = NULL;\n\tif", "\tregisters = NULL;\n\tautos = NULL;\n\tif"), ("\t\tfor (i = 0; a[i]; i++)\n\t\t\tregisters = append(a[i], registers);", "\t\ti = 0;\n\t\twhile (a[i] != NULL)\n\t\t\tregisters = append(a[i++], registers);"))
