S = 'lcc/src/stmt.c'
EDITS = []
def R(name, *edits, file=S):
    EDITS.append((name, 'ref', file, list(edits)))

R('sr-brk', ("if (swp && swp->lab > loop)\n\t\t       \tbranch(swp->lab + 1);\n\t\t       else if (loop)\n\t\t       \tbranch(loop + 2);\n\t\t       else\n\t\t       \terror(\"illegal break statement\\n\");", "{\n\t\t\tint target = 0;\n\t\t\tif (swp != NULL && swp->lab > loop)\n\t\t\t\ttarget = swp->lab + 1;\n\t\t\telse if (loop != 0)\n\t\t\t\ttarget = loop + 2;\n\t\t\tif (target)\n\t\t\t\tbranch(target);\n\t\t\telse\n\t\t\t\terror(\"illegal break statement\\n\");\n\t\t\t}"))
R('sr-cont', ("\t\t       if (loop)\n\t\t       \tbranch(loop + 1);\n\t\t       else\n\t\t       \terror(\"illegal continue statement\\n\");", "\t\t       if (!loop)\n\t\t       \terror(\"illegal continue statement\\n\");\n\t\t       else\n\t\t       \tbranch(loop + 1);"))
R('sr-caselab', ("\t\t       \t\t\tif (swp) {\n\t\t       \t\t\t\tneedconst++;\n\t\t       \t\t\t\tp = cast(p, swp->sym->type);\n\t\t       \t\t\t\tif (p->type->op == UNSIGNED)\n\t\t       \t\t\t\t\tp->u.v.i = extend(p->u.v.u, p->type);\n\t\t       \t\t\t\tneedconst--;\n\t\t       \t\t\t\tcaselabel(swp, p->u.v.i, lab);\n\t\t       \t\t\t}", "\t\t       \t\t\tif (swp)\n\t\t       \t\t\t\tcaselabel(swp, casevalue(p, swp->sym->type), lab);"), ("void statement(int loop, Swtch swp, int lev) {", "static long casevalue(Tree p, Type ty) {\n\tlong val;\n\n\tneedconst++;\n\tp = cast(p, ty);\n\tval = p->u.v.i;\n\tif (p->type->op == UNSIGNED)\n\t\tval = extend(p->u.v.u, p->type);\n\tneedconst--;\n\treturn val;\n}\nvoid statement(int loop, Swtch swp, int lev) {"))
R('sr-usrlab', ("static void stmtlabel(void) {\n\tSymbol p = lookup(token, stmtlabs);\n\n\tif (p == NULL) {\n\t\tp = install(token, &stmtlabs, 0, FUNC);\n\t\tp->scope = LABELS;\n\t\tp->u.l.label = genlabel(1);\n\t\tp->src = src;\n\t}\n", "static Symbol userlabel(void) {\n\tSymbol p = lookup(token, stmtlabs);\n\n\tif (p == NULL) {\n\t\tp = install(token, &stmtlabs, 0, FUNC);\n\t\tp->scope = LABELS;\n\t\tp->u.l.label = genlabel(1);\n\t\tp->src = src;\n\t}\n\treturn p;\n}\nstatic void stmtlabel(void) {\n\tSymbol p = userlabel();\n"))
R('sr-if', ("\t\tbranch(lab + 1);\n\t\tt = gettok();\n\t\tdefinelab(lab);\n\t\tstatement(loop, swp, lev);\n\t\tif (findlabel(lab + 1)->ref)\n\t\t\tdefinelab(lab + 1);\n\t} else\n\t\tdefinelab(lab);", "\t\tt = gettok();\n\t\tbranch(lab + 1);\n\t\tdefinelab(lab);\n\t\tstatement(loop, swp, lev);\n\t\tdefinelab(lab + 1);\n\t} else {\n\t\tdefinelab(lab);\n\t}"))
R('sr-breaklab', ("\twalk(conditional(')'), lab, 0);\n\tif (findlabel(lab + 2)->ref)\n\t\tdefinelab(lab + 2);\n}", "\twalk(conditional(')'), lab, 0);\n\tbreaklab(lab + 2);\n}"), ("\twalk(e, lab, 0);\n\tif (findlabel(lab + 2)->ref)\n\t\tdefinelab(lab + 2);\n}", "\twalk(e, lab, 0);\n\tbreaklab(lab + 2);\n}"), ("static void ifstmt(int lab, int loop, Swtch swp, int lev) {", "static void breaklab(int lab) {\n\tSymbol p = findlabel(lab);\n\n\tif (p->ref != 0)\n\t\tdefinelab(lab);\n}\nstatic void ifstmt(int lab, int loop, Swtch swp, int lev) {"))
R('sr-while-top', ("\tbranch(lab + 1);\n\tdefinelab(lab);\n\tstatement(lab, swp, lev);\n\tdefinelab(lab + 1);\n\tdefinept(&pt);\n\twalk(e, lab, 0);\n\tif (findlabel(lab + 2)->ref)\n\t\tdefinelab(lab + 2);", "\tdefinelab(lab + 1);\n\tdefinept(&pt);\n\twalk(e, 0, lab + 2);\n\tstatement(lab, swp, lev);\n\tbranch(lab + 1);\n\tdefinelab(lab + 2);"))
R('sr-for-head', ("\tif (kind[t] == ID)\n\t\te1 = texpr(expr0, ';', FUNC);\n\telse\n\t\texpect(';');\n\twalk(e1, 0, 0);", "\tif (kind[t] != ID)\n\t\texpect(';');\n\telse\n\t\te1 = texpr(expr0, ';', FUNC);\n\tif (e1)\n\t\twalk(e1, 0, 0);\n\telse\n\t\twalk(NULL, 0, 0);"))
R('sr-for-tail', ("\tif (e2) {\n\t\tif (!once)\n\t\t\tdefinelab(lab + 3);\n\t\tdefinept(&pt2);\n\t\twalk(e2, lab, 0);\n\t} else {\n\t\tdefinept(&pt2);\n\t\tbranch(lab);\n\t}", "\tif (e2 && !once)\n\t\tdefinelab(lab + 3);\n\tdefinept(&pt2);\n\tif (e2 == NULL)\n\t\tbranch(lab);\n\telse\n\t\twalk(e2, lab, 0);"))
R('sr-for-notest', ("\t\tonce = foldcond(e1, e2);\n\t\tif (!once)", "\t\tif (!once)"))
R('sr-sw-temp', ("\tif (generic(e->op) == INDIR && isaddrop(e->kids[0]->op)\n\t&& e->kids[0]->u.sym->type == e->type\n\t&& !isvolatile(e->kids[0]->u.sym->type)) {\n\t\tsw.sym = e->kids[0]->u.sym;\n\t\twalk(NULL, 0, 0);\n\t} else {\n\t\tsw.sym = genident(REGISTER, e->type, level);\n\t\taddlocal(sw.sym);\n\t\twalk(asgn(sw.sym, e), 0, 0);\n\t}", "\tsw.sym = NULL;\n\tif (generic(e->op) == INDIR && isaddrop(e->kids[0]->op)) {\n\t\tSymbol v = e->kids[0]->u.sym;\n\t\tif (!isvolatile(v->type) && v->type == e->type)\n\t\t\tsw.sym = v;\n\t}\n\tif (sw.sym)\n\t\twalk(NULL, 0, 0);\n\telse {\n\t\tsw.sym = genident(REGISTER, e->type, level);\n\t\taddlocal(sw.sym);\n\t\twalk(asgn(sw.sym, e), 0, 0);\n\t}"))
R('sr-sw-alwaystemp', ("\tif (generic(e->op) == INDIR && isaddrop(e->kids[0]->op)\n\t&& e->kids[0]->u.sym->type == e->type\n\t&& !isvolatile(e->kids[0]->u.sym->type)) {\n\t\tsw.sym = e->kids[0]->u.sym;\n\t\twalk(NULL, 0, 0);\n\t} else {\n\t\tsw.sym = genident(REGISTER, e->type, level);\n\t\taddlocal(sw.sym);\n\t\twalk(asgn(sw.sym, e), 0, 0);\n\t}", "\tsw.sym = genident(REGISTER, e->type, level);\n\taddlocal(sw.sym);\n\twalk(asgn(sw.sym, e), 0, 0);"))
R('sr-sw-init', ("\tsw.lab = lab;\n\tsw.deflab = NULL;\n\tsw.ncases = 0;\n\tsw.size = SWSIZE;\n\tsw.values = newarray(SWSIZE, sizeof *sw.values, FUNC);\n\tsw.labels = newarray(SWSIZE, sizeof *sw.labels, FUNC);", "\tsw.size = SWSIZE;\n\tsw.labels = newarray(sw.size, sizeof *sw.labels, FUNC);\n\tsw.values = newarray(sw.size, sizeof *sw.values, FUNC);\n\tsw.ncases = 0;\n\tsw.deflab = NULL;\n\tsw.lab = lab;"))
R('sr-cl', ("\tk = swp->ncases;\n\tfor ( ; k > 0 && swp->values[k-1] >= val; k--) {\n\t\tswp->values[k] = swp->values[k-1];\n\t\tswp->labels[k] = swp->labels[k-1];\n\t}", "\tk = swp->ncases;\n\twhile (k > 0) {\n\t\tif (swp->values[k-1] < val)\n\t\t\tbreak;\n\t\tswp->labels[k] = swp->labels[k-1];\n\t\tswp->values[k] = swp->values[k-1];\n\t\tk--;\n\t}"))
R('sr-cl-grow', ("\t\tlong   *vals = swp->values;\n\t\tSymbol *labs = swp->labels;\n\t\tswp->size *= 2;\n\t\tswp->values = newarray(swp->size, sizeof *swp->values, FUNC);\n\t\tswp->labels = newarray(swp->size, sizeof *swp->labels, FUNC);\n\t\tfor (k = 0; k < swp->ncases; k++) {\n\t\t\tswp->values[k] = vals[k];\n\t\t\tswp->labels[k] = labs[k];\n\t\t}", "\t\tint size = swp->size + SWSIZE;\n\t\tlong   *vals = newarray(size, sizeof *vals, FUNC);\n\t\tSymbol *labs = newarray(size, sizeof *labs, FUNC);\n\t\tfor (k = 0; k < swp->ncases; k++) {\n\t\t\tvals[k] = swp->values[k];\n\t\t\tlabs[k] = swp->labels[k];\n\t\t}\n\t\tswp->size = size;\n\t\tswp->values = vals;\n\t\tswp->labels = labs;"))
R('sr-gen', ("\tfor (n = k = 0; k < swp->ncases; k++, n++) {\n\t\tbuckets[n] = k;\n\t\twhile (n > 0 && den(n-1, k) >= density)\n\t\t\tn--;\n\t}", "\tn = 0;\n\tfor (k = 0; k < swp->ncases; k++) {\n\t\tbuckets[n++] = k;\n\t\tfor ( ; n > 1 && den(n-2, k) >= density; n--)\n\t\t\t;\n\t}"))
R('sr-code-small', ("\t\t\tif (k > lb && k < ub)\n\t\t\t\tcmp(GT, swp->sym, v[u], hilab);\n\t\t\telse if (k > lb)\n\t\t\t\tcmp(GT, swp->sym, v[u], hilab);\n\t\t\telse if (k < ub)", "\t\t\tif (k > lb)\n\t\t\t\tcmp(GT, swp->sym, v[u], hilab);\n\t\t\telse if (k < ub)"))
R('sr-code-labs', ("\tif (k > lb && k < ub) {\n\t\tlolab = genlabel(1);\n\t\thilab = genlabel(1);\n\t} else if (k > lb) {\n\t\tlolab = genlabel(1);\n\t\thilab = swp->deflab->u.l.label;\n\t} else if (k < ub) {\n\t\tlolab = swp->deflab->u.l.label;\n\t\thilab = genlabel(1);\n\t} else\n\t\tlolab = hilab = swp->deflab->u.l.label;", "\tlolab = hilab = swp->deflab->u.l.label;\n\tif (k > lb)\n\t\tlolab = genlabel(1);\n\tif (k < ub)\n\t\thilab = genlabel(1);"))
R('sr-code-table', ("\t\t\tcmp(EQ, swp->sym, v[i], swp->labels[i]->u.l.label);", "\t\t\tSymbol lab = swp->labels[i];\n\t\t\t\tcmp(EQ, swp->sym, v[i], lab->u.l.label);") if False else ("\t\tcode(Switch);\n\t\tcodelist->u.swtch.table = table;\n\t\tcodelist->u.swtch.sym = swp->sym;\n\t\tcodelist->u.swtch.deflab = swp->deflab;\n\t\tcodelist->u.swtch.size = u - l + 1;\n\t\tcodelist->u.swtch.values = &v[l];\n\t\tcodelist->u.swtch.labels = &swp->labels[l];", "\t\t{\n\t\tCode cp = code(Switch);\n\t\tcp->u.swtch.values = v + l;\n\t\tcp->u.swtch.labels = swp->labels + l;\n\t\tcp->u.swtch.size = b[k+1] - l;\n\t\tcp->u.swtch.sym = swp->sym;\n\t\tcp->u.swtch.deflab = swp->deflab;\n\t\tcp->u.swtch.table = table;\n\t\t}"))
R('sr-code-helper', ("\tif (k > lb) {\n\t\tassert(lolab != swp->deflab->u.l.label);\n\t\tdefinelab(lolab);\n\t\tswcode(swp, b, lb, k - 1);\n\t}\n\tif (k < ub) {\n\t\tassert(hilab != swp->deflab->u.l.label);\n\t\tdefinelab(hilab);\n\t\tswcode(swp, b, k + 1, ub);\n\t}", "\tswpart(swp, b, lb, k - 1, lolab);\n\tswpart(swp, b, k + 1, ub, hilab);"), ("void swcode(Swtch swp, int b[], int lb, int ub) {", "static void swpart(Swtch swp, int b[], int lb, int ub, int lab) {\n\tif (lb <= ub) {\n\t\tdefinelab(lab);\n\t\tswcode(swp, b, lb, ub);\n\t}\n}\nvoid swcode(Swtch swp, int b[], int lb, int ub) {"))
R('sr-code-four', ("if (u - l + 1 <= 3)", "if (u - l < 4)"))
R('sr-gt-lt', ("\t\tcmp(LT, swp->sym, v[l], lolab);\t/* cmp is signed, for unsigned values, too */\n\t\tcmp(GT, swp->sym, v[u], hilab);", "\t\tcmp(GT, swp->sym, v[u], hilab);\n\t\tcmp(LT, swp->sym, v[l], lolab);"))
R('sr-dl', ("\twhile (   cp->kind == Jump\n\t       && cp->u.forest->kids[0]\n\t       && specific(cp->u.forest->kids[0]->op) == ADDRG+P\n\t       && cp->u.forest->kids[0]->syms[0] == p) {", "\tfor (;;) {\n\t\tNode a;\n\t\tif (cp->kind != Jump)\n\t\t\tbreak;\n\t\ta = cp->u.forest->kids[0];\n\t\tif (!a || specific(a->op) != ADDRG+P || a->syms[0] != p)\n\t\t\tbreak;"))
R('sr-dl-none', ("\twhile (   cp->kind == Jump\n\t       && cp->u.forest->kids[0]\n", "\twhile (0 && cp->kind == Jump\n\t       && cp->u.forest->kids[0]\n"))
R('sr-unlist', ("\t\tequatelab(cp->u.forest->syms[0], p);\n\t\tassert(cp->next);\n\t\tassert(cp->prev);\n\t\tcp->prev->next = cp->next;\n\t\tcp->next->prev = cp->prev;\n\t\tcp = cp->prev;", "\t\tequatelab(cp->u.forest->syms[0], p);\n\t\tcp = dropcode(cp);"), ("void branch(int lab) {", "static Code dropcode(Code cp) {\n\tcp->next->prev = cp->prev;\n\tcp->prev->next = cp->next;\n\treturn cp->prev;\n}\nvoid branch(int lab) {"))
R('sr-br', ("\tif (cp->kind == Jump || cp->kind == Switch) {\n\t\tp->ref--;\n\t\tcodelist->prev->next = NULL;\n\t\tcodelist = codelist->prev;\n\t} else {", "\tif (cp->kind == Switch || cp->kind == Jump) {\n\t\tp->ref -= 1;\n\t\tcodelist = codelist->prev;\n\t\tcodelist->next = NULL;\n\t} else {"))
R('sr-reach', ("\tif (kind > Start) {\n\t\tCode cp;\n\t\tfor (cp = codelist; cp->kind < Label; )\n\t\t\tcp = cp->prev;\n\t\tif (cp->kind == Jump || cp->kind == Switch)\n\t\t\treturn 0;\n\t}\n\treturn 1;", "\tCode cp = codelist;\n\n\tif (kind <= Start)\n\t\treturn 1;\n\twhile (cp->kind < Label)\n\t\tcp = cp->prev;\n\treturn cp->kind != Jump && cp->kind != Switch;"))
R('sr-equal', ("\tfor ( ; dst; dst = dst->u.l.equatedto)\n\t\tif (lprime == dst)\n\t\t\treturn 1;\n\treturn 0;", "\tdo {\n\t\tif (lprime == dst)\n\t\t\treturn 1;\n\t\tdst = dst->u.l.equatedto;\n\t} while (dst);\n\treturn 0;"))
R('sr-fold', ("\tif (generic(e1->op) == ASGN && isaddrop(e1->kids[0]->op)\n\t&& generic(e1->kids[1]->op) == CNST) {\n\t\tv = e1->kids[0]->u.sym;\n\t\te1 = e1->kids[1];\n\t} else\n\t\treturn 0;", "\tif (generic(e1->op) != ASGN)\n\t\treturn 0;\n\tif (!isaddrop(e1->kids[0]->op) || generic(e1->kids[1]->op) != CNST)\n\t\treturn 0;\n\tv = e1->kids[0]->u.sym;\n\te1 = e1->kids[1];"))
R('sr-ret', ("\tif (!isfloat(p->type))\n\t\tp = cast(p, promote(p->type));", "\tif (isfloat(p->type) == 0) {\n\t\tType pty = promote(p->type);\n\t\tp = cast(p, pty);\n\t}"))
R('sr-return', ("\t\t       	if (t != ';')\n\t\t       		if (rty == voidtype) {\n\t\t       			error(\"extraneous return value\\n\");\n\t\t       			expr(0);\n\t\t       			retcode(NULL);\n\t\t       		} else\n\t\t       			retcode(expr(0));\n\t\t       	else {", "\t\t       	if (t != ';') {\n\t\t       		Tree e = expr(0);\n\t\t       		if (rty == voidtype) {\n\t\t       			error(\"extraneous return value\\n\");\n\t\t       			e = NULL;\n\t\t       		}\n\t\t       		retcode(e);\n\t\t       	} else {"))
R('sr-expr', ("\t\t       	Tree e = expr0(0);\n\t\t       	listnodes(e, 0, 0);\n\t\t       	if (nodecount == 0 || nodecount > 200)\n\t\t       		walk(NULL, 0, 0);\n\t\t       	else if (glevel) walk(NULL, 0, 0);\n\t\t       	deallocate(STMT);", "\t\t       	walk(expr0(0), 0, 0);\n\t\t       	deallocate(STMT);"))
R('sr-cmp', ("\tlistnodes(eqtree(op,\n\t\t\tcast(idtree(p), ty),\n\t\t\tcnsttree(ty, n)),\n\t\tlab, 0);", "\tTree l = cast(idtree(p), ty);\n\tTree r = cnsttree(ty, n);\n\twalk(eqtree(op, l, r), lab, 0);"))
R('sr-sw-novol', ("\n\t&& !isvolatile(e->kids[0]->u.sym->type)) {", ") {"))
