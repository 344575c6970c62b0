D = 'lcc/src/dag.c'
EDITS = []
def R(name, *edits, file=D):
    EDITS.append((name, 'ref', file, list(edits), []))

R('dgr-walk', ("	if (forest) {\n		Node list = forest->link;\n		forest->link = NULL;\n		if (!IR->wants_dag)\n			list = undag(list);\n		code(Gen)->u.forest = list;\n		forest = NULL;\n	}", "	if (forest != NULL) {\n		Node first = forest->link;\n		Code cp;\n\n		forest->link = NULL;\n		forest = NULL;\n		if (IR->wants_dag == 0)\n			first = undag(first);\n		cp = code(Gen);\n		cp->u.forest = first;\n	}"))
R('dgr-hash', ("i = (opindex(op)^((unsigned long)sym>>2))&(NELEMS(buckets)-1);", "i = (opindex(op) + ((unsigned long)sym>>4))%NELEMS(buckets);"))
R('dgr-node-match', ("static Node node(int op, Node l, Node r, Symbol sym) {", "static int same(Node n, int op, Node l, Node r, Symbol sym) {\n	return n->op == op && n->kids[0] == l && n->kids[1] == r && n->syms[0] == sym;\n}\nstatic Node node(int op, Node l, Node r, Symbol sym) {"), ("		if (p->node.op      == op && p->node.syms[0] == sym\n		&&  p->node.kids[0] == l  && p->node.kids[1] == r)\n", "		if (same(&p->node, op, l, r, sym))\n"))
R('dgr-dagnode', ("	if ((p->node.kids[0] = l) != NULL)\n		++l->count;\n	if ((p->node.kids[1] = r) != NULL)\n		++r->count;\n	p->node.syms[0] = sym;", "	p->node.syms[0] = sym;\n	p->node.kids[0] = l;\n	p->node.kids[1] = r;\n	if (l)\n		l->count += 1;\n	if (r)\n		r->count += 1;"))
R('dgr-kill', ("		for (q = &buckets[i]; *q; )\n			if (generic((*q)->node.op) == INDIR &&\n			    (!isaddrop((*q)->node.kids[0]->op)\n			     || (*q)->node.kids[0]->syms[0] == p)) {\n				*q = (*q)->hlink;\n				--nodecount;\n			} else\n				q = &(*q)->hlink;", "	{\n		q = &buckets[i];\n		while (*q != NULL) {\n			Node n = &(*q)->node;\n			int drop = 0;\n			if (generic(n->op) == INDIR) {\n				if (!isaddrop(n->kids[0]->op))\n					drop = 1;\n				else\n					drop = n->kids[0]->syms[0] == p;\n			}\n			if (drop) {\n				nodecount--;\n				*q = (*q)->hlink;\n			} else\n				q = &(*q)->hlink;\n		}\n	}"))
R('dgr-kill-all', ("			    (!isaddrop((*q)->node.kids[0]->op)\n			     || (*q)->node.kids[0]->syms[0] == p)) {", "			    ((*q)->node.kids[0]->syms[0] == p\n			     || !isaddrop((*q)->node.kids[0]->op))) {"))
R('dgr-reset', ("	if (nodecount > 0)\n		memset(buckets, 0, sizeof buckets);\n	nodecount = 0;", "	int i;\n	if (nodecount <= 0) {\n		nodecount = 0;\n		return;\n	}\n	for (i = 0; i < NELEMS(buckets); i++)\n		buckets[i] = NULL;\n	nodecount = 0;"))
R('dgr-and', ("		      if (flab) {\n		      	listnodes(tp->kids[0], 0, flab);\n		      	listnodes(tp->kids[1], 0, flab);\n		      } else {\n		      	listnodes(tp->kids[0], 0, flab = genlabel(1));\n		      	listnodes(tp->kids[1], tlab, 0);\n		      	labelnode(flab);\n		      } } break;", "		      int skip = flab ? flab : genlabel(1);\n		      listnodes(tp->kids[0], 0, skip);\n		      listnodes(tp->kids[1], tlab, flab);\n		      if (!flab)\n		      	labelnode(skip); } break;"))
R('dgr-or', ("		      	listnodes(tp->kids[0], tlab, 0);\n		      	listnodes(tp->kids[1], 0, flab);\n		      	labelnode(tlab);\n", "		      	listnodes(tp->kids[0], tlab, 0);\n		      	reset();\n		      	listnodes(tp->kids[1], 0, flab);\n		      	labelnode(tlab);\n"))
R('dgr-cond', ("static void list(Node p) {", "static void joined(int lab) {\n	if (forest->op == LABEL+V) {\n		equatelab(forest->syms[0], findlabel(lab));\n		unlist();\n	}\n}\nstatic void list(Node p) {"), ("static void unlist(void);\n", "static void unlist(void);\nstatic void joined(int);\n"), ("		      if (forest->op == LABEL+V) {\n		      	equatelab(forest->syms[0], findlabel(flab + 1));\n		      	unlist();\n		      }\n		      list(jump", "		      joined(flab + 1);\n		      list(jump"), ("		      if (forest->op == LABEL+V) {\n		      	equatelab(forest->syms[0], findlabel(flab + 1));\n		      	unlist();\n		      }\n		      labelnode", "		      joined(flab + 1);\n		      labelnode"))
R('dgr-cmp-table', ("		      	switch (generic(tp->op)) {\n		      	case EQ: op = NE; break;\n		      	case NE: op = EQ; break;\n		      	case GT: op = LE; break;\n		      	case LT: op = GE; break;\n		      	case GE: op = LT; break;\n		      	case LE: op = GT; break;\n		      	default: assert(0);\n		      	}\n", "		      	int g = generic(tp->op);\n		      	op = g == EQ ? NE : g == NE ? EQ : g == GT ? LE : g == LE ? GT : g == LT ? GE : LT;\n"))
R('dgr-cmp-ref', ("		      if (forest && forest->syms[0])\n		      	forest->syms[0]->ref++;", "		      if (forest != NULL)\n		      	if (forest->syms[0] != NULL)\n		      		forest->syms[0]->ref += 1;"))
R('dgr-asgn-reset', ("		      if (isaddrop(tp->kids[0]->op)\n		      && !tp->kids[0]->u.sym->computed)\n		      	kill(tp->kids[0]->u.sym);\n		      else\n		      	reset();", "		      if (!isaddrop(tp->kids[0]->op)\n		      || tp->kids[0]->u.sym->computed)\n		      	reset();\n		      else\n		      	kill(tp->kids[0]->u.sym);"))
R('dgr-asgn-always', ("		      if (isaddrop(tp->kids[0]->op)\n		      && !tp->kids[0]->u.sym->computed)\n		      	kill(tp->kids[0]->u.sym);\n		      else\n		      	reset();", "		      reset();"))
R('dgr-binary', ("	case DIV: case MUL:\n	case MOD:   { assert(tlab == 0 && flab == 0);\n		      l = listnodes(tp->kids[0], 0, 0);\n		      r = listnodes(tp->kids[1], 0, 0);\n		      p = node(op, l, r, NULL);\n", "	case DIV: case MUL:\n	case MOD:   { Tree *k = tp->kids;\n		      assert(tlab == 0 && flab == 0);\n		      l = listnodes(k[0], 0, 0), r = listnodes(k[1], 0, 0);\n		      p = node(op, l, r, NULL);\n"))
R('dgr-field', ("		      } else if (fieldsize(tp->u.field) < 8*tp->u.field->type->size)\n", "		      } else if (8*tp->u.field->type->size != fieldsize(tp->u.field))\n"))
R('dgr-field-w', ("			Field f = tp->kids[0]->u.field;\n			assert(generic(x->op) == INDIR);\n			reset();\n", "			Field f = tp->kids[0]->u.field;\n			reset();\n			assert(generic(x->op) == INDIR);\n"), ("				else {\n					listnodes(q, 0, 0);\n					q = bittree(BOR,\n						bittree(BAND, rvalue(lvalue(x)),\n							cnsttree(unsignedtype, (unsigned long)~mask)),\n						bittree(BAND, shtree(LSH, cast(q, unsignedtype),\n							cnsttree(unsignedtype, (unsigned long)fieldright(f))),\n							cnsttree(unsignedtype, (unsigned long)mask)));\n", "				else {\n					Tree old, val;\n					listnodes(q, 0, 0);\n					old = bittree(BAND, rvalue(lvalue(x)),\n						cnsttree(unsignedtype, (unsigned long)~mask));\n					val = shtree(LSH, bittree(BAND, cast(q, unsignedtype),\n							cnsttree(unsignedtype, (unsigned long)fmask)),\n							cnsttree(unsignedtype, (unsigned long)fieldright(f)));\n					q = bittree(BOR, old, val);\n"))
R('dgr-list', ("	if (p && p->link == NULL) {\n		if (forest) {\n			p->link = forest->link;\n			forest->link = p;\n		} else\n			p->link = p;\n		forest = p;\n	}", "	if (p == NULL || p->link != NULL)\n		return;\n	if (forest == NULL)\n		p->link = p;\n	else {\n		Node first = forest->link;\n		forest->link = p;\n		p->link = first;\n	}\n	forest = p;"))
R('dgr-unlist', ("	p = forest->link;\n	while (p->link != forest)\n		p = p->link;\n", "	for (p = forest; p->link != forest; )\n		p = p->link;\n"))
R('dgr-fixup', ("	for ( ; p; p = p->link)\n		switch (generic(p->op)) {\n		case JUMP:\n			if (specific(p->kids[0]->op) == ADDRG+P)\n				p->kids[0]->syms[0] =\n					equated(p->kids[0]->syms[0]);\n			break;", "	while (p != NULL) {\n		Node k = p->kids[0];\n		switch (generic(p->op)) {\n		case JUMP:\n			if (specific(k->op) == ADDRG+P)\n				k->syms[0] = equated(k->syms[0]);\n			break;"), ("			p->syms[0] = equated(p->syms[0]);\n		}\n}", "			p->syms[0] = equated(p->syms[0]);\n		}\n		p = p->link;\n	}\n}"))
R('dgr-equated', ("	while (p->u.l.equatedto)\n		p = p->u.l.equatedto;\n	return p;", "	return p->u.l.equatedto ? equated(p->u.l.equatedto) : p;"))
R('dgr-switch', ("			       	(*IR->defaddress)(equated(cp->u.swtch.labels[0]));\n			       	for (i = 1; i < cp->u.swtch.size; i++) {\n			       		long k = cp->u.swtch.values[i-1];\n			       		while (++k < cp->u.swtch.values[i])\n			       			assert(k < LONG_MAX),\n			       			(*IR->defaddress)(equated(cp->u.swtch.deflab));\n			       		(*IR->defaddress)(equated(cp->u.swtch.labels[i]));\n			       	}\n", "			       	long k = cp->u.swtch.values[0];\n			       	for (i = 0; i < cp->u.swtch.size; i++) {\n			       		for (; k < cp->u.swtch.values[i]; k++)\n			       			(*IR->defaddress)(equated(cp->u.swtch.deflab));\n			       		(*IR->defaddress)(equated(cp->u.swtch.labels[i]));\n			       		k++;\n			       	}\n"))
R('dgr-gencode', ("			       	Symbol *p = cp->u.block.locals;\n			       	(*IR->blockbeg)(&cp->u.block.x);\n			       	for ( ; *p; p++)\n			       		if ((*p)->ref != 0.0)\n			       			(*IR->local)(*p);\n			       		else if (glevel) (*IR->local)(*p);", "			       	int j;\n			       	(*IR->blockbeg)(&cp->u.block.x);\n			       	for (j = 0; cp->u.block.locals[j]; j++) {\n			       		Symbol v = cp->u.block.locals[j];\n			       		if (v->ref != 0.0 || glevel)\n			       			(*IR->local)(v);\n			       	}"))
R('dgr-gen-split', ("			       fixup(cp->u.forest);\n			       cp->u.forest = (*IR->gen)(cp->u.forest); break;", "			       { Node f = cp->u.forest;\n			       fixup(f);\n			       f = (*IR->gen)(f);\n			       cp->u.forest = f; } break;"))
R('dgr-undag', ("			visit(p, 1);\n			if (p->syms[2]) {\n				assert(p->syms[2]->u.t.cse);\n				p->syms[2]->u.t.cse = NULL;\n				addlocal(p->syms[2]);\n			}", "			Symbol t;\n			visit(p, 1);\n			if ((t = p->syms[2]) != NULL) {\n				assert(t->u.t.cse);\n				addlocal(t);\n				t->u.t.cse = NULL;\n			}"))
R('dgr-visit', ("		else if ((p->count <= 1 && !iscall(p->op))\n		||       (p->count == 0 &&  iscall(p->op))) {", "		else if (p->count <= (iscall(p->op) ? 0 : 1)) {"))
R('dgr-visit-early', ("	if (p) {\n		if (p->syms[2])\n			p = tmpnode(p);\n		else if", "	if (p == NULL)\n		return NULL;\n	{\n		if (p->syms[2])\n			return tmpnode(p);\n		else if"))
R('dgr-tmpnode', ("	if (--p->count == 0)\n		p->syms[2] = NULL;\n	p = newnode(INDIR + ttob(tmp->type),\n		newnode(ADDRL + ttob(voidptype), NULL, NULL, tmp), NULL, NULL);\n	p->count = 1;\n	return p;", "	Node a, n;\n\n	p->count--;\n	if (p->count == 0)\n		p->syms[2] = NULL;\n	a = newnode(ADDRL + ttob(voidptype), NULL, NULL, tmp);\n	n = newnode(INDIR + ttob(tmp->type), a, NULL, NULL);\n	n->count = 1;\n	return n;"))
R('dgr-prune', ("			if (!tmp->defined)\n				(*IR->local)(tmp);\n			tmp->defined = 1;", "			if (!tmp->defined) {\n				(*IR->local)(tmp);\n				tmp->defined = 1;\n			}"))
R('dgr-replace', ("	} else if (p) {\n		p->kids[0] = replace(p->kids[0]);\n		p->kids[1] = replace(p->kids[1]);\n	}\n	return p;", "	} else if (p) {\n		int i;\n		for (i = 0; i < NELEMS(p->kids); i++)\n			p->kids[i] = replace(p->kids[i]);\n	}\n	return p;"))
R('dgr-params', ("			if (p->sclass != q->sclass || p->type != q->type)\n				walk(asgn(p, idtree(q)), 0, 0);", "			if (p->sclass == q->sclass && p->type == q->type)\n				continue;\n			else\n				walk(asgn(p, idtree(q)), 0, 0);"))
R('dgr-call', ("		      	l = listnodes(tp->kids[0], 0, 0);\n		      	r = listnodes(tp->kids[1], 0, 0);\n		      	p = newnode(tp->op == CALL+B ? tp->op : op, l, r, NULL);\n		      }", "		      	int callop = tp->op == CALL+B ? tp->op : op;\n		      	l = listnodes(tp->kids[0], 0, 0);\n		      	r = listnodes(tp->kids[1], 0, 0);\n		      	p = newnode(callop, l, r, NULL);\n		      }"), ("		      list(p);\n		      reset();\n		      cfunc->u.f.ncalls++;\n		      firstarg = save;", "		      firstarg = save;\n		      cfunc->u.f.ncalls++;\n		      list(p);\n		      reset();"))
R('dgr-arg', ("		      if (firstarg) {\n		      	Tree arg = firstarg;\n		      	firstarg = NULL;\n		      	listnodes(arg, 0, 0);\n		      }\n		      l = listnodes(tp->kids[0], 0, 0);\n		      list(newnode(tp->op == ARG+B ? tp->op : op, l, NULL, NULL));\n		      forest->syms[0] = intconst(tp->type->size);\n		      forest->syms[1] = intconst(tp->type->align);", "		      { Tree arg = firstarg;\n		      	firstarg = NULL;\n		      	if (arg)\n		      		listnodes(arg, 0, 0);\n		      }\n		      l = listnodes(tp->kids[0], 0, 0);\n		      p = newnode(tp->op == ARG+B ? tp->op : op, l, NULL, NULL);\n		      p->syms[0] = intconst(tp->type->size);\n		      p->syms[1] = intconst(tp->type->align);\n		      list(p);\n		      p = NULL;"))
R('dgr-indir', ("		      if (isvolatile(ty)\n		      || (isstruct(ty) && unqual(ty)->u.sym->u.s.vfields))\n		      	p = newnode(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL);\n		      else\n		      	p = node(tp->op == INDIR+B ? tp->op : op, l, NULL, NULL); } break;", "		      { int vol = isvolatile(ty), o = tp->op == INDIR+B ? tp->op : op;\n		      if (!vol && isstruct(ty))\n		      	vol = unqual(ty)->u.sym->u.s.vfields;\n		      p = vol ? newnode(o, l, NULL, NULL) : node(o, l, NULL, NULL); } } break;"))
R('dgr-cnst', ("		      	if (tlab && tp->u.v.i != 0)\n		      		list(jump(tlab));\n		      	else if (flab && tp->u.v.i == 0)\n		      		list(jump(flab));", "		      	int to = tp->u.v.i ? tlab : flab;\n		      	if (to)\n		      		list(jump(to));"))
R('dgr-label', ("	if (forest && forest->op == LABEL+V)\n		equatelab(findlabel(lab), forest->syms[0]);\n	else\n		list(newnode(LABEL+V, NULL, NULL, findlabel(lab)));\n	reset();", "	Symbol l = findlabel(lab);\n\n	reset();\n	if (forest == NULL || forest->op != LABEL+V)\n		list(newnode(LABEL+V, NULL, NULL, l));\n	else\n		equatelab(l, forest->syms[0]);"))
R('dgr-label-plain', ("	if (forest && forest->op == LABEL+V)\n		equatelab(findlabel(lab), forest->syms[0]);\n	else\n		list(", "		list("))
