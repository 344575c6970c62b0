D = 'lcc/src/dag.c'
EDITS = []
def B(name, *edits, file=D):
    EDITS.append((name, 'bug', file, list(edits), ['C37']))

B('dg-walk-noreset', ("\treset();\n\tdeallocate(STMT);", "\tif (tlab == 0 && flab == 0)\n\t\treset();\n\tdeallocate(STMT);"))
B('dg-right-drop', ("		      	listnodes(tp->kids[0], 0, 0);\n		      	p = listnodes(tp->kids[1], tlab, flab);", "		      	if (tlab || flab || tp->kids[0]->op != ASGN+B)\n		      	listnodes(tp->kids[0], 0, 0);\n		      	p = listnodes(tp->kids[1], tlab, flab);"))
B('dg-cmp-sign', ("list(newnode(op + opkind(l->op), l, r, findlabel(flab)));", "list(newnode(op + I + sizeop(opsize(l->op)), l, r, findlabel(flab)));"))
B('dg-not', ("return listnodes(tp->kids[0], flab, tlab);", "return flab ? listnodes(tp->kids[0], 0, flab) : listnodes(tp->kids[0], 0, tlab);"))
B('dg-walk-forest', ("\t\tcode(Gen)->u.forest = list;\n\t\tforest = NULL;", "\t\tcode(Gen)->u.forest = list;\n\t\tif (tlab || flab)\n\t\t\tforest = NULL;"))
B('dg-walk-tail', ("Node list = forest->link;\n\t\tforest->link = NULL;", "Node list = forest->link;\n\t\tif (list != forest) forest->link = NULL;"))
B('dg-node-sym', ("p->node.op      == op && p->node.syms[0] == sym\n", "p->node.op      == op && (p->node.syms[0] == sym || l)\n"))
B('dg-node-kid1', ("&&  p->node.kids[0] == l  && p->node.kids[1] == r)", "&&  p->node.kids[0] == l)"))
B('dg-node-op', ("p->node.op      == op &&", "opindex(p->node.op) == opindex(op) &&"))
B('dg-node-link', ("\tp->hlink = buckets[i];\n\tbuckets[i] = p;\n", "\tif (buckets[i]) { p->hlink = buckets[i]->hlink; buckets[i]->hlink = p; } else\n\tbuckets[i] = p;\n\tif (p->hlink && p->hlink->hlink) p->hlink->hlink = NULL;\n"))
B('dg-node-countz', ("\t++nodecount;\n", "\tnodecount = p->hlink ? nodecount + 1 : nodecount;\n"))
B('dg-count', ("\tif ((p->node.kids[1] = r) != NULL)\n\t\t++r->count;", "\tif ((p->node.kids[1] = r) != NULL && r != l)\n\t\t++r->count;"))
B('dg-kill-type', ("if (generic((*q)->node.op) == INDIR &&\n", "if ((*q)->node.op == INDIR+I+sizeop(4) &&\n"))
B('dg-kill-ptr', ("(!isaddrop((*q)->node.kids[0]->op)\n\t\t\t     || (*q)->node.kids[0]->syms[0] == p)", "((*q)->node.kids[0]->syms[0] == p)"))
B('dg-kill-skip', ("\t\t\t\t*q = (*q)->hlink;\n\t\t\t\t--nodecount;", "\t\t\t\t*q = (*q)->hlink;\n\t\t\t\t--nodecount;\n\t\t\t\tif (*q) q = &(*q)->hlink;"))
B('dg-kill-range', ("for (i = 0; i < NELEMS(buckets); i++)\n\t\tfor (q", "for (i = 1; i < NELEMS(buckets); i++)\n\t\tfor (q"))
B('dg-kill-count', ("\t\t\t\t--nodecount;", "\t\t\t\tnodecount = 0;"))
B('dg-reset', ("\tif (nodecount > 0)\n\t\tmemset", "\tif (nodecount > 1)\n\t\tmemset"))
B('dg-reset-half', ("memset(buckets, 0, sizeof buckets);", "memset(buckets, 0, NELEMS(buckets));"))
B('dg-and-lab', ("listnodes(tp->kids[0], 0, flab = genlabel(1));\n\t\t      	listnodes(tp->kids[1], tlab, 0);", "listnodes(tp->kids[0], 0, flab = genlabel(1));\n\t\t      	listnodes(tp->kids[1], tlab, flab);"))
B('dg-and-order', ("		      	listnodes(tp->kids[0], 0, flab);\n		      	listnodes(tp->kids[1], 0, flab);", "		      	listnodes(tp->kids[1], 0, flab);\n		      	listnodes(tp->kids[0], 0, flab);"))
B('dg-or-lab', ("tlab = genlabel(1);\n\t\t      	listnodes(tp->kids[0], tlab, 0);\n\t\t      	listnodes(tp->kids[1], 0, flab);", "tlab = genlabel(1);\n\t\t      	listnodes(tp->kids[0], tlab, 0);\n\t\t      	listnodes(tp->kids[1], tlab, 0);"))
B('dg-or-early', ("		      	listnodes(tp->kids[1], 0, flab);\n		      	labelnode(tlab);", "		      	labelnode(tlab);\n		      	listnodes(tp->kids[1], 0, flab);"))
B('dg-cond-reset', ("		      assert(q && q->op == RIGHT);\n		      reset();\n", "		      assert(q && q->op == RIGHT);\n"))
B('dg-cond-jump', ("list(jump(flab + 1));", "if (forest->op != JUMP+V) list(jump(flab + 1));"))
B('dg-cond-equate', ("		      listnodes(q->kids[1], 0, 0);\n		      if (forest->op == LABEL+V) {\n		      	equatelab(forest->syms[0], findlabel(flab + 1));", "		      listnodes(q->kids[1], 0, 0);\n		      if (forest->op == LABEL+V) {\n		      	equatelab(forest->syms[0], findlabel(flab));"))
B('dg-cond-local', ("		      if (tp->u.sym)\n		      	addlocal(tp->u.sym);\n		      flab", "		      if (tp->u.sym && tp->u.sym->temporary)\n		      	addlocal(tp->u.sym);\n		      flab"))
B('dg-cond-lab', ("flab = genlabel(2);", "flab = genlabel(1);"))
B('dg-cnst-false', ("else if (flab && tp->u.v.i == 0)", "else if (flab && tp->u.v.i <= 0)"))
B('dg-cnst-true', ("if (tlab && tp->u.v.i != 0)", "if (tlab && tp->u.v.i == 1)"))
B('dg-cnst-type', ("p = node(op, NULL, NULL, constant(ty, tp->u.v)); } break;\n", "p = node(op, NULL, NULL, constant(isint(ty) ? inttype : ty, tp->u.v)); } break;\n"))
B('dg-right-lab', ("		      } else\n		      	p = listnodes(tp->kids[0], tlab, flab); } break;", "		      } else\n		      	p = listnodes(tp->kids[0], 0, flab); } break;"))
B('dg-post-list', ("p = listnodes(tp->kids[0], 0, 0);\n				list(p);\n				listnodes(tp->kids[1], 0, 0);", "p = listnodes(tp->kids[0], 0, 0);\n				listnodes(tp->kids[1], 0, 0);\n				list(p);"))
B('dg-post-field', ("				list(listnodes(tp->kids[0]->kids[0], 0, 0));\n				p = listnodes(tp->kids[0], 0, 0);\n				listnodes(tp->kids[1], 0, 0);", "				list(listnodes(tp->kids[0]->kids[0], 0, 0));\n				listnodes(tp->kids[1], 0, 0);\n				p = listnodes(tp->kids[0], 0, 0);"))
B('dg-jump-reset', ("list(newnode(JUMP+V, l, NULL, NULL));\n		      reset(); } break;", "list(newnode(JUMP+V, l, NULL, NULL)); } break;"))
B('dg-call-reset', ("		      list(p);\n		      reset();\n		      cfunc->u.f.ncalls++;", "		      list(p);\n		      if (p->kids[1]) reset();\n		      cfunc->u.f.ncalls++;"))
B('dg-call-save', ("		      firstarg = save;\n", ""))
B('dg-call-first', ("			if (IR->left_to_right)\n				firstarg = arg0;", "			if (IR->left_to_right && tp->kids[0]->op != ADDRG+P)\n				firstarg = arg0;"))
B('dg-call-b', ("p = newnode(tp->op == CALL+B ? tp->op : op, l, r, NULL);", "p = newnode(op, l, NULL, NULL);\n		      	if (r) p->kids[1] = r;"))
B('dg-call-node', ("p = newnode(tp->op == CALL+B ? tp->op : op, l, r, NULL);", "p = node(op, l, r, NULL);"))
B('dg-arg-order', ("		      if (IR->left_to_right)\n		      	listnodes(tp->kids[1], 0, 0);\n		      if (firstarg)", "		      if (firstarg)"), ("		      if (!IR->left_to_right)\n		      	listnodes(tp->kids[1], 0, 0); } break;", "		      listnodes(tp->kids[1], 0, 0); } break;"))
B('dg-arg-first', ("		      	Tree arg = firstarg;\n		      	firstarg = NULL;\n", "		      	Tree arg = firstarg;\n		      	if (arg->kids[1]) firstarg = NULL;\n"))
B('dg-arg-size', ("		      forest->syms[0] = intconst(tp->type->size);\n		      forest->syms[1] = intconst(tp->type->align);\n		      if (!IR", "		      forest->syms[0] = intconst(tp->kids[0]->type->align);\n		      forest->syms[1] = intconst(tp->type->align);\n		      if (!IR"))
B('dg-cmp-inv', ("case GT: op = LE; break;\n		      	case LT: op = GE; break;", "case GT: op = LT; break;\n		      	case LT: op = GE; break;"))
B('dg-cmp-kind', ("list(newnode(generic(tp->op) + opkind(l->op), l, r, findlabel(tlab)));", "list(newnode(generic(tp->op) + I + sizeop(4), l, r, findlabel(tlab)));"))
B('dg-cmp-ref', ("		      if (forest && forest->syms[0])\n		      	forest->syms[0]->ref++;", "		      if (tlab && forest && forest->syms[0])\n		      	forest->syms[0]->ref++;"))
B('dg-cmp-swap', ("list(newnode(op + opkind(l->op), l, r, findlabel(flab)));", "list(newnode(op + opkind(l->op), op == LE || op == LT ? r : l, op == LE || op == LT ? l : r, findlabel(flab)));"))
B('dg-field-noreset', ("			assert(generic(x->op) == INDIR);\n			reset();\n", "			assert(generic(x->op) == INDIR);\n"))
B('dg-field-mask', ("(q->op == CNST+I && (q->u.v.i&fmask) == fmask)", "(q->op == CNST+I && q->u.v.i == -1)\n				||      (q->op == CNST+I && (unsigned)q->u.v.i >= fmask)"))
B('dg-field-zero', ("if ((q->op == CNST+I && q->u.v.i == 0)", "if ((q->op == CNST+I && (q->u.v.i&fmask>>1) == 0)"))
B('dg-field-nomask', ("						bittree(BAND, shtree(LSH, cast(q, unsignedtype),\n							cnsttree(unsignedtype, (unsigned long)fieldright(f))),\n							cnsttree(unsignedtype, (unsigned long)mask)));", "						shtree(LSH, cast(q, unsignedtype),\n							cnsttree(unsignedtype, (unsigned long)fieldright(f))));"))
B('dg-field-right', ("unsigned int  mask = fmask<<fieldright(f);", "unsigned int  mask = fmask<<(fieldright(f)&~8);"))
B('dg-field-stale', ("bittree(BAND, rvalue(lvalue(x)),", "bittree(BAND, x,"))
B('dg-asgn-kill', ("		      if (isaddrop(tp->kids[0]->op)\n		      && !tp->kids[0]->u.sym->computed)", "		      if (isaddrop(tp->kids[0]->op))"))
B('dg-asgn-noreset', ("		      	kill(tp->kids[0]->u.sym);\n		      else\n		      	reset();", "		      	kill(tp->kids[0]->u.sym);\n		      else if (l->count > 1)\n		      	reset();"))
B('dg-asgn-size', ("forest->syms[0] = intconst(tp->kids[1]->type->size);", "forest->syms[0] = intconst(tp->kids[1]->type->align);"))
B('dg-asgn-b', ("list(newnode(tp->op == ASGN+B ? tp->op : op, l, r, NULL));", "list(newnode(op, l, r, NULL));"))
B('dg-bin-size', ("		      r = listnodes(tp->kids[1], 0, 0);\n		      p = node(op, l, r, NULL); } break;\n	case DIV", "		      r = listnodes(tp->kids[1], 0, 0);\n		      p = node(generic(op) == RSH ? op & ~U | I : op, l, r, NULL); } break;\n	case DIV"))
B('dg-mul-swap', ("		      p = node(op, l, r, NULL);\n		      if (IR->mulops", "		      p = node(op, l->op < r->op && generic(tp->op) != MUL ? r : l, l->op < r->op && generic(tp->op) != MUL ? l : r, NULL);\n		      if (IR->mulops"))
B('dg-cv-size', ("p = node(op, l, NULL, intconst(tp->kids[0]->type->size));", "p = node(op, l, NULL, intconst(tp->type->size));"))
B('dg-indir-vol', ("		      if (isvolatile(ty)\n", "		      if (isvolatile(tp->kids[0]->type)\n"))
B('dg-indir-vf', ("		      || (isstruct(ty) && unqual(ty)->u.sym->u.s.vfields))\n", "		      )\n"))
B('dg-field-read', ("cnsttree(inttype, n + fieldright(tp->u.field)));", "cnsttree(inttype, n));"))
B('dg-field-readu', ("		      	q = bittree(BAND,\n		      		shtree(RSH, q, cnsttree(inttype, (long)fieldright(tp->u.field))),\n		      		cnsttree(unsignedtype, (unsigned long)fieldmask(tp->u.field)));", "		      	q = shtree(RSH, bittree(BAND, q,\n		      		cnsttree(unsignedtype, (unsigned long)fieldmask(tp->u.field))), cnsttree(inttype, (long)fieldright(tp->u.field)));"))
B('dg-addrl-temp', ("		      if (tp->u.sym->temporary)\n		      	addlocal(tp->u.sym);\n", "		      if (tp->u.sym->temporary && tp->u.sym->addressed)\n		      	addlocal(tp->u.sym);\n"))
B('dg-nomemo', ("	tp->node = p;\n	return p;", "	if (p && p->count > 0)\n		tp->node = p;\n	return p;"))
B('dg-list-twice', ("	if (p && p->link == NULL) {", "	if (p && (p->link == NULL || p->count == 0)) {"))
B('dg-list-order', ("			p->link = forest->link;\n			forest->link = p;\n		} else", "			p->link = forest->link;\n			forest->link = p;\n			if (p->op == LABEL+V) return;\n		} else"))
B('dg-label-noreset', ("		list(newnode(LABEL+V, NULL, NULL, findlabel(lab)));\n	reset();", "		list(newnode(LABEL+V, NULL, NULL, findlabel(lab))), reset();"))
B('dg-label-equate', ("		equatelab(findlabel(lab), forest->syms[0]);", "		equatelab(forest->syms[0], findlabel(lab));"))
B('dg-unlist', ("	while (p->link != forest)\n		p = p->link;\n	p->link = forest->link;", "	while (p->link != forest)\n		p = p->link;\n	p->link = p->link->link->link;"))
B('dg-cvtconst', ("	if (q->u.c.loc == NULL)\n		q->u.c.loc =", "	if (q->u.c.loc == NULL || !isarray(p->type))\n		q->u.c.loc ="))
B('dg-params-class', ("			if (p->sclass != q->sclass || p->type != q->type)\n				walk(asgn(p, idtree(q)), 0, 0);", "			if (p->type != q->type)\n				walk(asgn(p, idtree(q)), 0, 0);"))
B('dg-params-swap', ("walk(asgn(p, idtree(q)), 0, 0);", "walk(asgn(q, idtree(p)), 0, 0);"))
B('dg-params-first', ("codelist = codehead.next;", "codelist = codehead.next->next;"))
B('dg-gen-locals', ("			       		if ((*p)->ref != 0.0)\n", "			       		if ((*p)->ref > 1.0)\n"))
B('dg-gen-prune', ("			       	cp->u.forest = prune(cp->u.forest);\n			       fixup(cp->u.forest);", "			       	cp->u.forest = prune(cp->u.forest);\n			       else\n			       fixup(cp->u.forest);"))
B('dg-gen-result', ("			       cp->u.forest = (*IR->gen)(cp->u.forest); break;", "			       (*IR->gen)(cp->u.forest); break;"))
B('dg-gen-end', ("(*IR->blockend)(&cp->u.begin->u.block.x)", "(*IR->blockend)(&cp->u.block.x)"))
B('dg-fixup-cmp', ("		case EQ: case GE: case GT: case LE: case LT: case NE:\n			assert(p->syms[0]);", "		case EQ: case GE: case GT: case LE: case NE:\n			assert(p->syms[0]);"))
B('dg-fixup-jump', ("				p->kids[0]->syms[0] =\n					equated(p->kids[0]->syms[0]);", "				if (p->kids[0]->count == 1) p->kids[0]->syms[0] =\n					equated(p->kids[0]->syms[0]);"))
B('dg-equated-one', ("	while (p->u.l.equatedto)\n		p", "	if (p->u.l.equatedto)\n		p"))
B('dg-switch-gap', ("			       			(*IR->defaddress)(equated(cp->u.swtch.deflab));", "			       			(*IR->defaddress)(equated(cp->u.swtch.labels[i]));"))
B('dg-switch-deflab', ("			       			(*IR->defaddress)(equated(cp->u.swtch.deflab));", "			       			(*IR->defaddress)(cp->u.swtch.deflab);"))
B('dg-switch-off', ("			       		while (++k < cp->u.swtch.values[i])", "			       		while (++k <= cp->u.swtch.values[i] - 2)"))
B('dg-switch-seg', ("			       		(*IR->defaddress)(equated(cp->u.swtch.labels[i]));\n			       	}\n			       	swtoseg(CODE);", "			       		(*IR->defaddress)(equated(cp->u.swtch.labels[i]));\n			       	}"))
B('dg-emit-skip', ("		case Gen: case Jump:\n		case Label:    if (cp->u.forest)\n			       	(*IR->emit)", "		case Jump: break;\n		case Gen:\n		case Label:    if (cp->u.forest)\n			       	(*IR->emit)"))
B('dg-undag-call', ("		} else if (iscall(p->op) && p->count >= 1)\n", "		} else if (iscall(p->op))\n"))
B('dg-undag-cse', ("				assert(p->syms[2]->u.t.cse);\n				p->syms[2]->u.t.cse = NULL;\n				addlocal(p->syms[2]);", "				p->syms[2]->u.t.cse = NULL;"))
B('dg-undag-keepcse', ("				p->syms[2]->u.t.cse = NULL;\n", ""))
B('dg-undag-tail', ("	*tail = NULL;\n	return forest;", "	return forest;"))
B('dg-replace-mark', ("		 && p->kids[0]->syms[0]->u.t.replace)) {", "		 )) {"))
B('dg-replace-count', ("			assert(0);\n		p->count = 1;", "			assert(0);"))
B('dg-replace-kid1', ("		p->kids[0] = replace(p->kids[0]);\n		p->kids[1] = replace(p->kids[1]);\n	}\n	return p;", "		p->kids[0] = replace(p->kids[0]);\n		if (p->kids[0]) p->kids[1] = p->kids[1] ? p->kids[1] : NULL;\n	}\n	return p;"))
B('dg-prune-count', ("				count++;\n				continue;", "				continue;"))
B('dg-prune-auto', ("&& isaddrop(p->kids[1]->kids[0]->op)) && tmp->sclass == AUTO)", "&& isaddrop(p->kids[1]->kids[0]->op)))"))
B('dg-prune-defined', ("			if (!tmp->defined)\n				(*IR->local)(tmp);", "			(*IR->local)(tmp);"))
B('dg-visit-count', ("		else if ((p->count <= 1 && !iscall(p->op))", "		else if ((p->count <= 2 && !iscall(p->op))"))
B('dg-visit-call', ("		||       (p->count == 0 &&  iscall(p->op))) {", "		||       (p->count <= 1 &&  iscall(p->op))) {"))
B('dg-visit-listed', ("			if (!listed)\n				p = tmpnode(p);", "			if (listed)\n				p = tmpnode(p);"))
B('dg-visit-order', ("			p->kids[0] = visit(p->kids[0], 0);\n			p->kids[1] = visit(p->kids[1], 0);\n			p->syms[2] = temporary(REGISTER, btot(p->op, opsize(p->op)));\n			assert(!p->syms[2]->defined);\n			p->syms[2]->ref = 1;\n			p->syms[2]->u.t.cse = p;\n\n			*tail = asgnnode(p->syms[2], p);\n			tail = &(*tail)->link;\n", "			p->syms[2] = temporary(REGISTER, btot(p->op, opsize(p->op)));\n			assert(!p->syms[2]->defined);\n			p->syms[2]->ref = 1;\n			p->syms[2]->u.t.cse = p;\n\n			*tail = asgnnode(p->syms[2], p);\n			tail = &(*tail)->link;\n			p->kids[0] = visit(p->kids[0], 0);\n			p->kids[1] = visit(p->kids[1], 0);\n"))
B('dg-visit-btot', ("temporary(REGISTER, btot(p->op, opsize(p->op)))", "temporary(REGISTER, btot(p->op, 4))"))
B('dg-visit-b', ("		else if (p->op == INDIR+B) {", "		else if (p->op == INDIR+B && p->count > 2) {"))
B('dg-tmp-last', ("	if (--p->count == 0)\n		p->syms[2] = NULL;", "	if (--p->count == 1)\n		p->syms[2] = NULL;"))
B('dg-tmp-type', ("	p = newnode(INDIR + ttob(tmp->type),\n", "	p = newnode(INDIR + ttob(inttype),\n"))
