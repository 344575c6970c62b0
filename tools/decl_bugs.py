EDITS = []
def B(name, *edits, file='lcc/src/decl.c'):
    EDITS.append((name, 'bug', file, list(edits), ['C41']))

B('dc-cls-order', ("case CONST:    p = &cons; t = gettok();      break;", "case CONST:    p = cons ? NULL : &cons; t = gettok();      break;"))
B('dc-auto-level', ("if (level <= GLOBAL && cls == 0)", "if (level < GLOBAL && cls == 0)"))
B('dc-vol-cons', ("case VOLATILE: p = &vol;  t = gettok();", "case VOLATILE: p = type ? &cons : &vol;  t = gettok();"))
B('dc-typename-sign', ("if (istypename(t, tsym) && type == 0\n\t\t\t&& sign == 0 && size == 0)", "if (istypename(t, tsym) && type == 0\n\t\t\t&& size == 0)"))
B('dc-typename-type', ("if (istypename(t, tsym) && type == 0\n\t\t\t&& sign == 0 && size == 0)", "if (istypename(t, tsym)\n\t\t\t&& sign == 0 && size == 0)"))
B('dc-stale-vol', ("\t\t\t\t\tif (isvolatile(tsym->type))\n\t\t\t\t\t\tty = qual(VOLATILE, ty);\n", ""))
B('dc-double-long', ("if (size == LONG && type == DOUBLE)", "if (size == LONG && type == DOUBLE && !sign && !cons)"))
B('dc-int-default', ("\tif (type == 0) {\n\t\ttype = INT;\n\t\tty = inttype;", "\tif (type == 0) {\n\t\ttype = INT;\n\t\tty = size == SHORT ? shorttype : inttype;\n\t\tif (sign == SIGNED && size == LONG) size = 0;"))
B('dc-short-char', ("if ((size == SHORT     && type != INT)", "if ((size == SHORT     && type != INT && type != CHAR)"))
B('dc-long-float', ("type != INT && type != DOUBLE)", "type != INT && type != DOUBLE && type != FLOAT)"))
B('dc-sign-double', ("(sign && type != INT && type != CHAR)", "(sign == UNSIGNED && type != INT && type != CHAR)"))
B('dc-signed-char', ("ty = sign == UNSIGNED ? unsignedchar : signedchar;", "ty = sign == UNSIGNED || vol ? unsignedchar : signedchar;"))
B('dc-ushort', ("ty = sign == UNSIGNED ? unsignedshort : shorttype;", "ty = sign == UNSIGNED && type == INT && cls != TYPEDEF ? unsignedshort : shorttype;"))
B('dc-ulong', ("ty = sign == UNSIGNED ? unsignedlong : longtype;", "ty = sign ? unsignedlong : longtype;"))
B('dc-const-void', ("if (cons == CONST)", "if (cons == CONST && type != VOID)"))
B('dc-vol-enum', ("if (vol  == VOLATILE)", "if (vol  == VOLATILE && type != ENUM)"))
B('dc-cls-static', ("\tif (sclass)\n\t\t*sclass = cls;", "\tif (sclass && (cls != REGISTER || level > PARAM))\n\t\t*sclass = cls;"))
B('dc-dup', ("\t\tif (*p)\n\t\t\terror(\"invalid use of `%k'\\n\", tt);", "\t\tif (*p && *p != tt)\n\t\t\terror(\"invalid use of `%k'\\n\", tt);"))
B('dc-longlong3', ("if (size == LONG) {\n", "if (size == LONG || size == LONG+LONG) {\n"))
B('dc-longlong-u', ("ty = sign == UNSIGNED ? unsignedlonglong : longlong;", "ty = sign != SIGNED && sign ? longlong : longlong;"))
# declarators
B('dc-ptr-qual', ("ty->type = dclr1(id, params, abstract);\n\t\t\t\t\tty = ty1;", "ty->type = dclr1(id, params, abstract);"))
B('dc-ptr-qual2', ("ty1 = tnode(t, ty1);\n", "ty1 = tnode(CONST, ty1);\n"))
B('dc-ptr-last', ("\t\t\t\t\tty = ty1;\n\t\t\t\t} else\n\t\t\t\t\tty = dclr1(id, params, abstract);\n\t\t\t\tty = tnode(POINTER, ty); break;", "\t\t\t\t\tty = ty1;\n\t\t\t\t\tty = tnode(POINTER, ty); break;\n\t\t\t\t} else\n\t\t\t\t\tty = dclr1(id, params, 0);\n\t\t\t\tty = tnode(POINTER, ty); break;"))
B('dc-arr-zero', ("if (n <= 0) {", "if (n < 0) {"))
B('dc-arr-keep', ("is an illegal array size\\n\", n);\n\t\t\t\t\t  \t\tn = 1;", "is an illegal array size\\n\", n);"))
B('dc-arr-const', ("if (kind[t] == ID) {\n\t\t\t\t\t  \tn = intexpr", "if (t == ICON || t == ID) {\n\t\t\t\t\t  \tn = intexpr"))
B('dc-arr-size', ("ty->size = n; } break;", "ty->size = abstract ? 0 : n; } break;"))
B('dc-params-first', ("if (params && *params == NULL)", "if (params)"))
B('dc-params-exit', ("\t\t\t\t\t  else\n\t\t\t\t\t  \texitparams(args);", "\t\t\t\t\t  else if (!params)\n\t\t\t\t\t  \texitparams(args);"))
B('dc-abs-close', ("|| istypename(t, tsym) || t == ')')) {", "|| istypename(t, tsym))) {"))
B('dc-abs-reg', ("&& (t == REGISTER || istypename(t, tsym)", "&& (istypename(t, tsym)"))
B('dc-abs-scope', ("\t\t\t\t\tenterscope();\n\t\t\t\t\tif (level > PARAM)\n\t\t\t\t\t\tenterscope();\n\t\t\t\t\targs = parameters(ty);\n\t\t\t\t\texitparams(args);", "\t\t\t\t\tenterscope();\n\t\t\t\t\targs = parameters(ty);\n\t\t\t\t\texitparams(args);"))
B('dc-dclr-old', ("basety = func(basety, ty->u.f.proto,\n\t\t\t\tty->u.f.oldstyle);", "basety = func(basety, ty->u.f.proto,\n\t\t\t\tty->u.f.proto == NULL);"))
B('dc-dclr-quals', ("basety = qual(ty->op, basety);", "basety = isptr(basety) ? qual(ty->op, basety) : basety;"))
B('dc-dclr-arr', ("basety = array(basety, ty->size, 0);", "basety = array(basety, ty->size, basety->align);"))
B('dc-extra-id', ("if (id)\n\t\t\t\t\t*id = token;", "if (id && *id == NULL)\n\t\t\t\t\t*id = token;"))
B('dc-extra-id2', ("if (id)\n\t\t\t\t\t*id = token;\n\t\t\t\telse\n\t\t\t\t\terror(\"extraneous identifier `%s'\\n\", token);", "if (id)\n\t\t\t\t\t*id = token;"))
B('dc-while', ("\twhile (t == '(' || t == '[')\n\t\tswitch (t) {\n\t\tcase '(': t", "\twhile (t == '(' || (t == '[' && (ty == NULL || ty->op != FUNCTION)))\n\t\tswitch (t) {\n\t\tcase '(': t"))
# parameters
B('dc-par-dots', ("sentinel.type = voidtype;", "sentinel.type = inttype;"))
B('dc-par-dots-void', ("\t\t\t\tif (ty1 == voidtype)\n\t\t\t\t\terror(\"illegal formal parameter types\\n\");\n\t\t\t\tlist", "\t\t\t\tlist"))
B('dc-par-void-id', ("if ( (ty == voidtype && (ty1 || id))", "if ( (ty == voidtype && ty1)"))
B('dc-par-void2', ("\t\t\t||  ty1 == voidtype)\n", "\t\t\t)\n"))
B('dc-par-void3', ("if ( (ty == voidtype && (ty1 || id))", "if ( (ty == voidtype && id)"))
B('dc-par-num', ("\t\t\t\tid = stringd(n);", "\t\t\t\tid = stringd(n > 2 ? 2 : n);"))
B('dc-par-class', ("list = append(dclparam(sclass, id, ty, &src), list);", "list = append(dclparam(n > 1 ? 0 : sclass, id, ty, &src), list);"))
B('dc-par-room', ("newarray(length(list) + 1,\n", "newarray(length(list),\n"))
B('dc-par-arena', ("\t\t\tsizeof (Type *), PERM);\n\t\tparams", "\t\t\tsizeof (Type *), FUNC);\n\t\tparams"))
B('dc-par-null', ("\t\tfty->u.f.proto[n] = NULL;\n", ""))
B('dc-par-old', ("\t\tfty->u.f.oldstyle = 0;\n", "\t\tfty->u.f.oldstyle = n == 1;\n"))
B('dc-par-oldproto', ("\t\tfty->u.f.proto = NULL;\n\t\tfty->u.f.oldstyle = 1;", "\t\tfty->u.f.proto = NULL;\n\t\tfty->u.f.oldstyle = params[0] != NULL;"))
B('dc-par-olddef', ("\t\t\t\tp->defined = 0;\n", "\t\t\t\tif (list == NULL) p->defined = 0;\n"))
B('dc-par-oldtype', ("p = dclparam(0, token, inttype, &src);", "p = dclparam(0, token, list ? inttype : voidptype, &src);"))
B('dc-par-prototy', ("fty->u.f.proto[n] = params[n]->type;", "fty->u.f.proto[n] = unqual(params[n]->type);"))
B('dc-par-close', ("\tif (t == ')')\n\t\tt = gettok();\n\treturn params;", "\tif (t == ')' && params[0])\n\t\tt = gettok();\n\treturn params;"))
B('dc-par-reg', ("if (!istypename(t, tsym) && t != REGISTER)", "if (!istypename(t, tsym))"))
B('dc-prm-func', ("\tif (isfunc(ty))\n\t\tty = ptr(ty);\n\telse if", "\tif"))
B('dc-prm-arr', ("\telse if (isarray(ty))\n\t\tty = atop(ty);\n", ""))
B('dc-prm-qual', ("ty = atop(ty);\n\tif (sclass == 0)", "ty = ptr(ty);\n\tif (sclass == 0)"))
B('dc-prm-vol', ("} else if (isvolatile(ty) || isstruct(ty)) {\n\t\twarning(\"register declaration ignored for `%t%s\\n\",\n\t\t\tty, stringf(id ? \" %s'\" : \"' parameter\", id));", "} else if (isstruct(ty)) {\n\t\twarning(\"register declaration ignored for `%t%s\\n\",\n\t\t\tty, stringf(id ? \" %s'\" : \"' parameter\", id));"))
B('dc-prm-cls', ("else if (sclass != REGISTER) {\n\t\terror(\"invalid storage class `%k' for `%t%s", "else if (sclass != REGISTER && sclass != AUTO) {\n\t\terror(\"invalid storage class `%k' for `%t%s"))
B('dc-prm-cls2', ("ty, stringf(id ? \" %s'\" : \"' parameter\", id));\n\t\tsclass = AUTO;\n\t}\n\n\tp = lookup(id, identifiers);", "ty, stringf(id ? \" %s'\" : \"' parameter\", id));\n\t}\n\n\tp = lookup(id, identifiers);"))
B('dc-prm-dup', ("if (p && p->scope == level)\n\t\terror(\"duplicate declaration for", "if (p && p->scope == level && p->type == ty)\n\t\terror(\"duplicate declaration for"))
B('dc-prm-dup2', ("if (p && p->scope == level)\n\t\terror(\"duplicate declaration for", "if (p && p->scope >= PARAM-1)\n\t\terror(\"duplicate declaration for"))
B('dc-prm-lev', ("p = install(id, &identifiers, level, FUNC);\n\tp->sclass", "p = install(id, &identifiers, PARAM, FUNC);\n\tp->sclass"))
B('dc-prm-type', ("\tp->type = ty;\n\tp->defined = 1;\n\tif (t == '=') {\n\t\terror(\"illegal init", "\tp->type = unqual(ty);\n\tp->defined = 1;\n\tif (t == '=') {\n\t\terror(\"illegal init"))
B('dc-prm-def', ("\tp->type = ty;\n\tp->defined = 1;\n\tif (t == '=') {\n\t\terror(\"illegal init", "\tp->type = ty;\n\tif (sclass == AUTO) p->defined = 1;\n\tif (t == '=') {\n\t\terror(\"illegal init"))
B('dc-exit-lev', ("if (level > PARAM)\n\t\texitscope();\n\texitscope();", "if (level > LOCAL)\n\t\texitscope();\n\texitscope();"))
B('dc-exit-one', ("if (level > PARAM)\n\t\texitscope();\n\texitscope();", "exitscope();"))
B('dc-exit-ext', ("if (params[0] && !params[0]->defined)\n\t\terror(\"extra", "if (params[0] && params[1] && !params[0]->defined)\n\t\terror(\"extra"))
# tags
B('dc-tag-op', ("&& p->type->op == op) {\n\t\tty = p->type;", "&& p->type->op != ENUM) {\n\t\tty = p->type;"))
B('dc-tag-new', ("if (t == ';' && p->scope < level)", "if (t == ';' && p->scope < level && p->defined)"))
B('dc-tag-new2', ("if (t == ';' && p->scope < level)", "if (p->scope < level)"))
B('dc-tag-def', ("\t\tty->u.sym->defined = 1;\n\t\tt = gettok();\n\t\tif (istypename", "\t\tty->u.sym->defined = *tag != 0;\n\t\tt = gettok();\n\t\tif (istypename"))
B('dc-tag-lookup', ("if (*tag && (p = lookup(tag, types)) != NULL\n\t&& p->type->op == op)", "if (*tag && (p = lookup(tag, identifiers)) != NULL\n\t&& p->type->op == op)"))
B('dc-tag-missing', ("\t\tif (*tag == 0)\n\t\t\terror(\"missing %k tag\\n\", op);\n", ""))
B('dc-new-same', ("(p->scope == PARAM && level == PARAM+1)", "(p->scope == PARAM && level > PARAM)"), file='lcc/src/types.c')
B('dc-new-param', ("(p->scope == level\n\t\t|| (p->scope == PARAM && level == PARAM+1))", "(p->scope == level)"), file='lcc/src/types.c')
B('dc-new-defd', ("if (p->type->op == op && !p->defined)", "if (p->type->op == op)"), file='lcc/src/types.c')
B('dc-new-op', ("if (p->type->op == op && !p->defined)", "if (!p->defined)"), file='lcc/src/types.c')
B('dc-new-arena', ("p = install(tag, &types, level, PERM);\n\tp->type = type(op, NULL, 0, 0, p);\n\tif", "p = install(tag, &types, level, level > GLOBAL ? FUNC : PERM);\n\tp->type = type(op, NULL, 0, 0, p);\n\tif"), file='lcc/src/types.c')
# enumerations
B('dc-enum-max', ("if (k == inttype->u.sym->u.limits.max.i)", "if (k > inttype->u.sym->u.limits.max.i)"))
B('dc-enum-after', ("p->u.value = k;", "p->u.value = k < -1 ? n : k;"))
B('dc-enum-scope', ("level,  level < LOCAL ? PERM : FUNC);\n\t\t\tp->src = s;", "level,  level <= LOCAL ? PERM : FUNC);\n\t\t\tp->src = s;"))
B('dc-enum-scope2', ("level,  level < LOCAL ? PERM : FUNC);\n\t\t\tp->src = s;", "level < LOCAL ? GLOBAL : level,  level < LOCAL ? PERM : FUNC);\n\t\t\tp->src = s;"))
B('dc-enum-redecl', ("if (tsym && tsym->scope == level)\n\t\t\t\terror", "if (tsym && tsym->scope == level && tsym->sclass != ENUM)\n\t\t\t\terror"))
B('dc-enum-size', ("\t\tty->size = ty->type->size;\n", "\t\tty->size = n > 128 ? ty->type->size : chartype->size;\n"))
B('dc-enum-align', ("\t\tty->align = ty->type->align;\n\t\tty->u.sym->u.idlist", "\t\tty->u.sym->u.idlist"))
B('dc-enum-list', ("\t\t\tidlist = append(p, idlist);\n", "\t\t\tif (s.file || n) idlist = append(p, idlist);\n"))
B('dc-enum-defd', ("\t\tty->u.sym->defined = 1;\n\t} else if", "\t\tty->u.sym->defined = n > 1;\n\t} else if"))
B('dc-enum-tag', ("&& p->type->op == ENUM) {\n\t\tty = p->type;", "&& p->type->op == ENUM && p->scope == level) {\n\t\tty = p->type;"))
B('dc-enum-class', ("p->sclass = ENUM;\n\t\t\tp->u.value", "p->sclass = n ? ENUM : STATIC;\n\t\t\tp->u.value"))
B('dc-enum-id', ("p = install(id, &identifiers, level,  level", "p = install(token, &identifiers, level,  level"))
# declarations
B('dc-dec-first', ("\t\t\tid = NULL;\n\t\t\tpos = src;\n\t\t\tty1 = dclr(ty, &id, NULL, 0);", "\t\t\tid = NULL;\n\t\t\tpos = src;\n\t\t\tty1 = dclr(ty1, &id, NULL, 0);"))
B('dc-dec-id', ("\t\t\tid = NULL;\n\t\t\tpos = src;\n\t\t\tty1 = dclr", "\t\t\tpos = src;\n\t\t\tty1 = dclr"))
B('dc-dec-td-arena', ("p = install(id, &identifiers, level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);", "p = install(id, &identifiers, level,\n\t\t\t\t\t\tlevel <= LOCAL ? PERM : FUNC);"))
B('dc-dec-td-level', ("p = install(id, &identifiers, level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);", "p = install(id, &identifiers, level < LOCAL ? GLOBAL : level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);"))
B('dc-dec-td-type', ("\t\t\t\t\tp->type = ty1;\n\t\t\t\t\tp->sclass = TYPEDEF;", "\t\t\t\t\tp->type = unqual(ty1);\n\t\t\t\t\tp->sclass = TYPEDEF;"))
B('dc-dec-td-class', ("\t\t\t\t\tp->sclass = TYPEDEF;\n", "\t\t\t\t\tp->sclass = sclass = TYPEDEF + (pos.y < 0);\n\t\t\t\t\tif (t == ',') sclass = 0;\n"))
B('dc-dec-td-dup', ("if (p && p->scope == level)\n\t\t\t\t\t\terror(\"redeclaration of `%s'\\n\", id);", "if (p && p->scope == level && p->sclass == TYPEDEF)\n\t\t\t\t\t\terror(\"redeclaration of `%s'\\n\", id);"))
B('dc-dec-fn', ("if (params && id && isfunc(ty1)\n", "if (params && id\n"))
B('dc-dec-static', ("|| (kind[t] == STATIC && t != TYPEDEF)))", "|| kind[t] == STATIC))"))
B('dc-dec-static2', ("\t\t\t    || (kind[t] == STATIC && t != TYPEDEF))) {", "\t\t\t    )) {"))
B('dc-dec-old', ("if (ty1->u.f.oldstyle)\n\t\t\t\t\texitscope();", "if (ty1->u.f.oldstyle && params[0])\n\t\t\t\t\texitscope();"))
B('dc-dec-exit', ("} else if (params)\n\t\t\t\texitparams(params);", "} else if (params && isfunc(ty1))\n\t\t\t\texitparams(params);"))
B('dc-dec-tdfn', ("\t\t\t\t\tsclass = EXTERN;\n\t\t\t\t}\n\t\t\t\tif (ty1", "\t\t\t\t\tsclass = STATIC;\n\t\t\t\t}\n\t\t\t\tif (ty1"))
B('dc-dec-empty', ("(isstruct(ty) && (*unqual(ty)->u.sym->name < '1' || *unqual(ty)->u.sym->name > '9'))", "(isstruct(ty) && (*unqual(ty)->u.sym->name < '0' || *unqual(ty)->u.sym->name > '9' || ty != unqual(ty)))"))
B('dc-dec-enum', ("|| !(isenum(ty) ||\n", "|| !(\n"))
B('dc-dec-bracket', ("if (t == ID || t == '*' || t == '(' || t == '[') {\n\t\tchar *id;", "if (t == ID || t == '*' || t == '[') {\n\t\tchar *id;"))
B('dc-tn-abs', ("ty = dclr(ty, NULL, NULL, 1);\n\t\tif (Aflag", "ty = dclr(ty, NULL, NULL, 0);\n\t\tif (Aflag"))
B('dc-tn-brack', ("if (t == '*' || t == '(' || t == '[') {\n\t\tty = dclr(ty, NULL", "if (t == '*' || t == '(') {\n\t\tty = dclr(ty, NULL"))
B('dc-op-first', ("if (p->name == callee[i]->name) {\n\t\t\tcallee[i] = p;\n\t\t\treturn;", "if (p->name == callee[i]->name) {\n\t\t\tcallee[i]->type = p->type;\n\t\t\treturn;"))
B('dc-op-miss', ("\terror(\"declared parameter `%s' is missing\\n\", p->name);", "\tif (i) error(\"declared parameter `%s' is missing\\n\", p->name);"))
# blocks
B('dc-blk-sort', ("cp->u.block.locals[j] = cp->u.block.locals[j-1];", "cp->u.block.locals[j] = cp->u.block.locals[i-1];"))
B('dc-blk-sort2', ("\t\t\tcp->u.block.locals[j] = p;\n", "\t\t\tif (i - j < 2) cp->u.block.locals[j] = p;\n"))
B('dc-blk-first', ("for (i = 0; a[i]; i++)\n\t\t\tregisters", "for (i = nregs > 1; a[i]; i++)\n\t\t\tregisters"))
B('dc-blk-level', ("\tcp->u.block.level = level;\n", "\tcp->u.block.level = level + lev;\n\tif (nregs) cp->u.block.level = LOCAL;\n"))
B('dc-blk-types', ("\tcp->u.block.types = types;\n", "\tcp->u.block.types = identifiers;\n"))
B('dc-blk-label', ("|| (istypename(t, tsym) && getchr() != ':'))", "|| istypename(t, tsym))"))
B('dc-blk-label2', ("|| (istypename(t, tsym) && getchr() != ':'))", "|| (t == ID && getchr() != ':' && 0))"))
B('dc-blk-walk', ("\t\tstatement(loop, swp, lev);\n\twalk(NULL, 0, 0);", "\t\tstatement(loop, swp, lev);\n\tif (level > LOCAL) walk(NULL, 0, 0);"))
B('dc-blk-walk2', ("\twalk(NULL, 0, 0);\n\tcp = code(Blockbeg);", "\tif (lev > 0) walk(NULL, 0, 0);\n\tcp = code(Blockbeg);"))
B('dc-blk-end', ("code(Blockend)->u.begin = cp;", "code(Blockend)->u.begin = level > LOCAL ? cp : cp->prev;"))
B('dc-blk-exit', ("\tif (level > LOCAL) {\n\t\texitscope();\n\t\texpect('}');", "\tif (level > LOCAL) {\n\t\tif (cp->u.block.locals[0]) exitscope();\n\t\texpect('}');"))
B('dc-blk-enter', ("\tenterscope();\n\tassert(level >= LOCAL);", "\tif (level < LOCAL || t != '{') enterscope();\n\tassert(level >= LOCAL);"))
B('dc-blk-stmt', ("while (kind[t] == IF || kind[t] == ID)\n\t\tstatement", "while (kind[t] == IF || (kind[t] == ID && !istypename(t, tsym)))\n\t\tstatement"))
B('dc-blk-check', ("\tforeach(identifiers, level, checkref, NULL);\n\t{", "\tif (nregs || cp->u.block.locals[0]) foreach(identifiers, level, checkref, NULL);\n\t{"))
