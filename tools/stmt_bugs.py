S = 'lcc/src/stmt.c'
EDITS = []
def B(name, *edits, file=S):
    EDITS.append((name, 'bug', file, list(edits), ['C39']))

B('st-brk-order', ("if (swp && swp->lab > loop)\n\t\t       \tbranch(swp->lab + 1);\n\t\t       else if (loop)\n\t\t       \tbranch(loop + 2);", "if (loop)\n\t\t       \tbranch(loop + 2);\n\t\t       else if (swp)\n\t\t       \tbranch(swp->lab + 1);"))
B('st-brk-ge', ("if (swp && swp->lab > loop)", "if (swp && swp->lab < loop)"))
B('st-cont', ("\t\t       \tbranch(loop + 1);\n\t\t       else\n\t\t       \terror(\"illegal continue", "\t\t       \tbranch(swp && swp->lab > loop ? swp->lab + 1 : loop + 1);\n\t\t       else\n\t\t       \terror(\"illegal continue"))
B('st-brk-walk', ("case BREAK:    walk(NULL, 0, 0);\n\t\t       definept(NULL);", "case BREAK:    definept(NULL);"), ("branch(swp->lab + 1);\n", "branch(swp->lab);\n"))
B('st-default-lab', ("swp->deflab = findlabel(swp->lab);", "swp->deflab = findlabel(swp->lab + 1);"))
B('st-case-shared', ("\t\t       \t\t\t\tcaselabel(swp, p->u.v.i, lab);", "\t\t       \t\t\t\tcaselabel(swp, p->u.v.i, swp->deflab ? swp->lab : lab);"))
B('st-case-ext', ("p->u.v.i = extend(p->u.v.u, p->type);", "p->u.v.i = p->u.v.u;"))
B('st-case-ext16', ("p->u.v.i = extend(p->u.v.u, p->type);", "p->u.v.i = (short)p->u.v.u;"))
B('st-case-cast', ("p = cast(p, swp->sym->type);", "p = cast(p, promote(p->type));"))
B('st-case-need', ("\t\t       \t\t\t\tneedconst--;\n", ""))
B('st-return-branch', ("branch(cfunc->u.f.label);\n\t\t       } expect", "if (level > LOCAL) branch(cfunc->u.f.label);\n\t\t       } expect"))
B('st-goto-def', ("branch(p->u.l.label);", "if (!p->defined) branch(p->u.l.label); else branch(cfunc->u.f.label);"))
B('st-goto-ident', ("Symbol p = lookup(token, stmtlabs);\n\t\t       \tif (p == NULL) {", "Symbol p = lookup(token, stmtlabs);\n\t\t       \tif (p == NULL || p->scope < LABELS) {"))
B('st-label-late', ("\tp->defined = 1;\n\tdefinelab(p->u.l.label);\n\tt = gettok();", "\tp->defined = 1;\n\tif (p->ref > 0) definelab(p->u.l.label);\n\tt = gettok();"))
B('st-if-shared', ("\t\tbranch(lab + 1);\n\t\tt = gettok();\n\t\tdefinelab(lab);\n\t\tstatement(loop, swp, lev);", "\t\tif (reachable(Gen)) branch(lab + 1);\n\t\tt = gettok();\n\t\tdefinelab(lab);\n\t\tstatement(lev > 5 ? 0 : loop, swp, lev);"))
B('st-if-fall', ("\t\tbranch(lab + 1);\n\t\tt = gettok();\n\t\tdefinelab(lab);", "\t\tt = gettok();\n\t\tdefinelab(lab);"))
B('st-if-gen', ("ifstmt(genlabel(2), loop", "ifstmt(genlabel(1), loop"))
B('st-if-ref', ("if (findlabel(lab + 1)->ref)\n\t\t\tdefinelab(lab + 1);\n\t} else", "if (findlabel(lab + 1)->ref > 1)\n\t\t\tdefinelab(lab + 1);\n\t} else"))
B('st-while-gen', ("whilestmt(genlabel(3), swp", "whilestmt(genlabel(2), swp"))
B('st-for-gen', ("forstmt(genlabel(4), swp", "forstmt(genlabel(3), swp"))
B('st-sw-gen', ("swstmt(loop, genlabel(2)", "swstmt(loop, genlabel(1)"))
B('st-while-texpr', ("e = texpr(conditional, ')', FUNC);", "e = conditional(')');"))
B('st-while-stmt', ("e = texpr(conditional, ')', FUNC);", "e = texpr(conditional, ')', STMT);"))
B('st-while-first', ("\tbranch(lab + 1);\n\tdefinelab(lab);", "\tif (e->op != CNST+I) branch(lab + 1);\n\tdefinelab(lab);"))
B('st-while-swp', ("\tbranch(lab + 1);\n\tdefinelab(lab);\n\tstatement(lab, swp, lev);", "\tbranch(lab + 1);\n\tdefinelab(lab);\n\tstatement(lab, NULL, lev);"))
B('st-do-cont', ("\tdefinelab(lab);\n\tstatement(lab, swp, lev);\n\tdefinelab(lab + 1);\n\texpect(WHILE);", "\tdefinelab(lab);\n\tdefinelab(lab + 1);\n\tstatement(lab, swp, lev);\n\texpect(WHILE);"))
B('st-do-ref', ("\twalk(conditional(')'), lab, 0);\n\tif (findlabel(lab + 2)->ref)\n\t\tdefinelab(lab + 2);", "\twalk(conditional(')'), lab, 0);\n\tif (findlabel(lab + 1)->ref)\n\t\tdefinelab(lab + 2);"))
B('st-do-neg', ("walk(conditional(')'), lab, 0);\n\tif", "walk(conditional(')'), 0, lab);\n\tif"))
B('st-for-cont', ("\tdefinelab(lab + 1);\n\tdefinept(&pt3);\n\tif (e3)\n\t\twalk(e3, 0, 0);", "\tdefinept(&pt3);\n\tif (e3)\n\t\twalk(e3, 0, 0);\n\tdefinelab(lab + 1);"))
B('st-for-once', ("if (!once)\n\t\t\tdefinelab(lab + 3);", "definelab(lab + 3);"), ("if (!once)\n\t\t\tbranch(lab + 3);", "if (!once || e3 == NULL)\n\t\t\tbranch(lab);"))
B('st-for-inf', ("\t\tdefinept(&pt2);\n\t\tbranch(lab);", "\t\tdefinept(&pt2);\n\t\tbranch(lab + 1);"))
B('st-for-skip', ("once = foldcond(e1, e2);", "once = e1 && e2->op == CNST+I ? 0 : foldcond(e1, e2) || (e1 && e2->op == CNST+U);"))
B('st-for-e3', ("e3 = texpr(expr0, ')', FUNC);", "e3 = texpr(expr0, ')', STMT);"))
B('st-for-e1', ("\telse\n\t\texpect(';');\n\twalk(e1, 0, 0);", "\telse\n\t\texpect(';');"), ("\tdefinelab(lab);\n\tstatement(lab, swp, lev);\n\tdefinelab(lab + 1);\n\tdefinept(&pt3);", "\twalk(e1, 0, 0);\n\tdefinelab(lab);\n\tstatement(lab, swp, lev);\n\tdefinelab(lab + 1);\n\tdefinept(&pt3);"))
B('st-sw-type', ("&& e->kids[0]->u.sym->type == e->type\n", "&& e->kids[0]->u.sym->type->size == e->type->size\n"))
B('st-sw-vol', ("&& e->kids[0]->u.sym->type == e->type\n\t&& !isvolatile(e->kids[0]->u.sym->type)) {", "&& unqual(e->kids[0]->u.sym->type) == e->type) {"))
B('st-sw-addr', ("if (generic(e->op) == INDIR && isaddrop(e->kids[0]->op)\n", "if (generic(e->op) == INDIR\n"))
B('st-sw-flush', ("\t\tsw.sym = e->kids[0]->u.sym;\n\t\twalk(NULL, 0, 0);", "\t\tsw.sym = e->kids[0]->u.sym;"))
B('st-sw-promote', ("e = cast(e, promote(e->type));\n\tif (generic", "if (e->type->size < inttype->size) e = cast(e, inttype);\n\tif (generic"))
B('st-sw-default', ("\tif (sw.deflab == NULL) {\n\t\tsw.deflab = findlabel(lab);\n\t\tdefinelab(lab);", "\tif (sw.deflab == NULL) {\n\t\tsw.deflab = findlabel(lab + 1);\n\t\tif (sw.ncases == 0) definelab(lab);"))
B('st-sw-nodef', ("\tif (sw.ncases > 0)\n\t\tswgen(&sw);\n\tbranch(lab);", "\tif (sw.ncases > 0)\n\t\tswgen(&sw);\n\telse branch(lab);"))
B('st-sw-prev', ("\thead->next->prev = codelist;\n", ""))
B('st-sw-tail', ("\tcodelist = tail;\n}\nstatic void caselabel", "\tif (head->next != tail) codelist = tail;\n}\nstatic void caselabel"))
B('st-sw-brk', ("\tif (findlabel(lab + 1)->ref)\n\t\tdefinelab(lab + 1);\n\ttail = codelist;", "\tif (sw.deflab && findlabel(lab + 1)->ref && sw.ncases)\n\t\tdefinelab(lab + 1);\n\ttail = codelist;"))
B('st-sw-labels', ("sw.labels = newarray(SWSIZE, sizeof *sw.labels, FUNC);", "sw.labels = newarray(SWSIZE, sizeof **sw.labels.p, FUNC);") if False else ("sw.values = newarray(SWSIZE, sizeof *sw.values, FUNC);", "sw.values = newarray(SWSIZE, sizeof (int), FUNC);"))
B('st-cl-grow', ("\t\tswp->size *= 2;\n", "\t\tswp->size += 1 + swp->size/2;\n"), ("swp->labels = newarray(swp->size, sizeof *swp->labels, FUNC);", "swp->labels = newarray(swp->ncases, sizeof *swp->labels, FUNC);"))
B('st-cl-copy', ("\t\t\tswp->labels[k] = labs[k];\n", ""))
B('st-cl-gt', ("for ( ; k > 0 && swp->values[k-1] >= val; k--) {", "for ( ; k > 0 && swp->values[k-1] > val; k--) {"))
B('st-cl-int', ("swp->values[k-1] >= val; k--", "(unsigned long)swp->values[k-1] >= (unsigned long)val; k--"))
B('st-cl-lab', ("\t\tswp->labels[k] = swp->labels[k-1];\n\t}\n\tif", "\t}\n\tif"))
B('st-cl-full', ("if (swp->ncases >= swp->size)", "if (swp->ncases > swp->size)"))
B('st-gen-last', ("\tbuckets[n] = swp->ncases;\n", "\tbuckets[n] = swp->ncases - (n == 1 && swp->ncases > 4);\n"))
B('st-gen-size', ("buckets = newarray(swp->ncases + 1,", "buckets = newarray(swp->ncases,"))
B('st-gen-merge2', ("\t\t\tn--;\n\t}", "\t\t\tbuckets[--n] = k;\n\t}"))
B('st-code-unsigned', ("\t\tcmp(LT, swp->sym, v[l], lolab);\t/*", "\t\tif (!isunsigned(swp->sym->type) || v[l] != 0)\n\t\tcmp(LT, swp->sym, v[l], lolab);\t/*"))
B('st-code-mid', ("\t\t\tif (k > lb && k < ub)\n\t\t\t\tcmp(GT, swp->sym, v[u], hilab);", "\t\t\tif (k > lb && k < ub)\n\t\t\t\tcmp(GT, swp->sym, v[u], lolab);"))
B('st-code-sub', ("(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]))", "(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[b[lb]]))"))
B('st-code-vals', ("codelist->u.swtch.labels = &swp->labels[l];", "codelist->u.swtch.labels = &swp->labels[b[lb]];"))
B('st-code-size', ("codelist->u.swtch.size = u - l + 1;", "codelist->u.swtch.size = u - l;"))
B('st-code-rec', ("swcode(swp, b, k + 1, ub);", "swcode(swp, b, k + 1 < ub ? k + 1 : ub - 1, ub);"))
B('st-code-lolab', ("\t\tlolab = genlabel(1);\n\t\thilab = genlabel(1);", "\t\tlolab = genlabel(2);\n\t\thilab = lolab + 2;"))
B('st-code-defsym', ("\t\t(*IR->defsymbol)(table);\n", ""))
B('st-cmp', ("\tType ty = signedint(p->type);\n\n\tlistnodes", "\tType ty = p->type;\n\n\tlistnodes"))
B('st-ret-cast', ("\tp = cast(p, ty);\n\tif (retv)", "\tif (isarith(ty)) p = cast(p, ty);\n\tif (retv)"))
B('st-ret-promote', ("\tif (!isfloat(p->type))\n\t\tp = cast(p, promote(p->type));", "\tif (isint(p->type) && isunsigned(p->type))\n\t\tp = cast(p, promote(p->type));"))
B('st-ret-assign', ("\tty = assign(freturn(cfunc->type), p);", "\tty = freturn(cfunc->type);"))
B('st-dl-lookback', ("for (cp = codelist->prev; cp->kind <= Label; )\n\t\tcp = cp->prev;\n\twhile (   cp->kind == Jump\n", "for (cp = codelist->prev; cp->kind < Gen && cp->kind != Start; )\n\t\tcp = cp->prev;\n\tif (cp->kind == Switch) cp = cp->prev;\n\twhile (   cp->kind == Jump\n"))
B('st-dl-any', ("\t       && cp->u.forest->kids[0]->syms[0] == p) {", "\t       ) {\n\t\tif (cp->u.forest->kids[0]->syms[0] != p && !cp->next->next) break;"))
B('st-dl-ref', ("\t\tp->ref--;\n\t\tassert(cp->next);", "\t\tp->ref -= 2;\n\t\tassert(cp->next);"))
B('st-dl-link', ("\t\tcp->prev->next = cp->next;\n\t\tcp->next->prev = cp->prev;\n\t\tcp = cp->prev;\n\t\twhile (cp->kind <= Label)", "\t\tcp->prev->next = cp->next;\n\t\tcp = cp->prev;\n\t\twhile (cp->kind <= Label)"))
B('st-dl-skip', ("\t\twhile (cp->kind <= Label)\n\t\t\tcp = cp->prev;\n\t}\n}\nNode jump", "\t\twhile (cp->kind <= Gen)\n\t\t\tcp = cp->prev;\n\t}\n}\nNode jump"))
B('st-br-equal', ("\t       && !equal(cp->u.forest->syms[0], p)) {", "\t       && cp->u.forest->syms[0] != p) {"))
B('st-br-ref', ("\told->u.l.equatedto = new;\n\tnew->ref++;", "\told->u.l.equatedto = new;\n\tnew->ref--;"))
B('st-br-dead', ("if (cp->kind == Jump || cp->kind == Switch) {\n\t\tp->ref--;", "if (cp->kind == Jump || cp->kind == Label || cp->kind == Switch) {\n\t\tp->ref--;"))
B('st-br-kind', ("\t} else {\n\t\tcodelist->kind = Jump;", "\t} else {\n\t\tif (cp->kind != Label) codelist->kind = Jump;"))
B('st-br-drop', ("\t\tcodelist->prev->next = NULL;\n\t\tcodelist = codelist->prev;", "\t\tcodelist = codelist->prev;\n\t\tcodelist->next = codelist->next->next; codelist = codelist->prev;"))
B('st-br-skip', ("for (cp = codelist->prev; cp->kind < Label; )\n\t\tcp = cp->prev;\n\twhile (   cp->kind == Label", "for (cp = codelist->prev; cp->kind < Label || cp->kind == Gen; )\n\t\tcp = cp->prev;\n\twhile (   cp->kind == Label"))
B('st-br-eq', ("equatelab(cp->u.forest->syms[0], p);", "equatelab(cp->u.forest->syms[0], p->u.l.equatedto ? p->u.l.equatedto : p);\n\t\tp->u.l.equatedto = cp->u.forest->syms[0];"))
B('st-jump-ref', ("\tp->ref++;\n\treturn newnode(JUMP+V", "\tif (p->ref == 0) p->ref++;\n\treturn newnode(JUMP+V"))
B('st-reach', ("if (cp->kind == Jump || cp->kind == Switch)\n\t\t\treturn 0;", "if (cp->kind == Jump)\n\t\t\treturn 0;"))
B('st-reach2', ("\tif (kind > Start) {", "\tif (kind >= Label) {"))
B('st-code-prev', ("\tcp->prev = codelist;\n\tcp->next = NULL;", "\tcp->prev = codelist->kind == Defpoint ? codelist->prev : codelist;\n\tcp->next = NULL;"))
B('st-fold-var', ("&& e2->kids[0]->kids[0]->u.sym == v\n", "&& e2->kids[0]->kids[0]->op == e1->op\n") if False else ("\t&& e2->kids[0]->kids[0]->u.sym == v\n", ""))
B('st-fold-op', ("\t&& e2->kids[1]->op == e1->op) {", "\t&& generic(e2->kids[1]->op) == generic(e1->op)) {"))
B('st-fold-swap', ("e1 = simplify(op, e2->type, e1, e2->kids[1]);", "e1 = simplify(op, e2->type, e2->kids[1], e1);"))
B('st-cond', ("\treturn cond(p);\n}\nstatic void stmtlabel", "\treturn isptr(p->type) ? p : cond(p);\n}\nstatic void stmtlabel"))
