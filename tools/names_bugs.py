S = 'lcc/src/sym.c'
EDITS = []
def B(name, *edits, file=S):
    EDITS.append((name, 'bug', file, list(edits), ['C40']))
T, L, A = 'lcc/src/string.c', 'lcc/src/list.c', 'lcc/src/alloc.c'

B('nm-table-prev', ("new->previous = tp;", "new->previous = tp && tp->level < level - 1 ? tp->previous : tp;"))
B('nm-table-all', ("\tif (tp)\n\t\tnew->all = tp->all;\n", ""))
B('nm-foreach-level', ("while (tp && tp->level > lev)", "while (tp && tp->level >= lev && tp->previous)"))
B('nm-foreach-up', ("for (p = tp->all; p && p->scope == lev; p = p->up) {\n\t\t\tsrc = p->src;\n\t\t\t(*apply)(p, cl);\n\t\t}", "for (p = tp->all; p && p->scope == lev; ) {\n\t\t\tsrc = p->src;\n\t\t\t(*apply)(p, cl);\n\t\t\tdo p = p->up; while (p && p->generated);\n\t\t}"))
B('nm-foreach-scope', ("for (p = tp->all; p && p->scope == lev; p = p->up) {\n\t\t\tsrc", "for (p = tp->all; p; p = p->up) {\n\t\t\tsrc"))
B('nm-exit-types', ("if (types->level == level)\n\t\ttypes = types->previous;", "if (types->level == level && identifiers->level == level)\n\t\ttypes = types->previous;"))
B('nm-exit-ids', ("\t\tidentifiers = identifiers->previous;", "\t\tif (identifiers->all->scope == level) identifiers = identifiers->previous;"))
B('nm-exit-twice', ("\t\tidentifiers = identifiers->previous;\n\t}", "\t\tidentifiers = identifiers->previous;\n\t\tif (identifiers->level > level - 1 && identifiers->previous) identifiers = identifiers->previous;\n\t}"))
B('nm-exit-rm', ("\trmtypes(level);\n", ""))
B('nm-exit-rm2', ("\trmtypes(level);\n", "\trmtypes(level + 1);\n"))
B('nm-inst-hash', ("unsigned h = (unsigned long)name&(HASHSIZE-1);\n\n\tassert(level", "unsigned h = ((unsigned long)name>>2)&(HASHSIZE-1);\n\n\tassert(level"))
B('nm-inst-tpp', ("tp = *tpp = table(tp, level);", "tp = table(tp, level);"))
B('nm-inst-cond', ("if (level > 0 && tp->level < level)", "if (level > LOCAL && tp->level < level)"))
B('nm-inst-end', ("p->link = tp->buckets[h];\n\ttp->buckets[h] = p;\n\treturn &p->sym;\n}\nSymbol relocate", "p->link = NULL;\n\t{ struct entry **q; for (q = &tp->buckets[h]; *q; q = &(*q)->link) ; *q = p; }\n\treturn &p->sym;\n}\nSymbol relocate"))
B('nm-inst-arena', ("NEW0(p, arena);", "NEW0(p, level > GLOBAL ? FUNC : arena);"))
B('nm-inst-scope', ("p->sym.scope = level;\n\tp->sym.up = tp->all;", "p->sym.scope = tp->level;\n\tp->sym.up = tp->all;"))
B('nm-inst-up', ("p->sym.scope = level;\n\tp->sym.up = tp->all;", "p->sym.scope = level;\n\tp->sym.up = tp->level == level ? tp->all : NULL;"))
B('nm-rel-up', ("\tp->sym.up = dst->all;\n\tdst->all = &p->sym;\n\treturn", "\tdst->all = &p->sym;\n\treturn"))
B('nm-rel-chain', ("\t*q = (*q)->link;\n\tfor (r", "\tsrc->buckets[h] = (*q)->link;\n\tfor (r"))
B('nm-rel-list', ("\t*r = p->sym.up;", "\tsrc->all = p->sym.up;"))
B('nm-look-one', ("\twhile ((tp = tp->previous) != NULL);\n\treturn NULL;\n}\nint genlabel", "\twhile ((tp = tp->previous) != NULL && tp->previous);\n\treturn NULL;\n}\nint genlabel"))
B('nm-look-skip', ("if (name == p->sym.name)\n\t\t\t\treturn &p->sym;", "if (name == p->sym.name && p->sym.type)\n\t\t\t\treturn &p->sym;"))
B('nm-look-last', ("\tdo\n\t\tfor (p = tp->buckets[h]; p; p = p->link)\n\t\t\tif (name == p->sym.name)\n\t\t\t\treturn &p->sym;\n", "\tdo {\n\t\tSymbol found = NULL;\n\t\tfor (p = tp->buckets[h]; p; p = p->link)\n\t\t\tif (name == p->sym.name)\n\t\t\t\tfound = &p->sym;\n\t\tif (found) return found;\n\t}\n"))
B('nm-gen', ("\tlabel += n;\n\treturn label - n;", "\tlabel += n;\n\treturn label - 1;"))
B('nm-gen-one', ("\tlabel += n;\n\treturn label - n;", "\tlabel++;\n\treturn label - 1;"))
B('nm-find-key', ("if (lab == p->sym.u.l.label)", "if ((short)lab == (short)p->sym.u.l.label)"))
B('nm-find-hash', ("labels->buckets[h] = p;\n\tp->sym.generated", "labels->buckets[h&127] = p;\n\tp->sym.generated"))
B('nm-find-gen', ("\tp->sym.generated = 1;\n\tp->sym.u.l.label", "\tp->sym.u.l.label"))
B('nm-find-lab', ("\tp->sym.u.l.label = lab;\n", "\tp->sym.u.l.label = h;\n"))
B('nm-con-type', ("if (eqtype(ty, p->sym.type, 1))", "if (ty->op == p->sym.type->op && ty->size == p->sym.type->size)"))
B('nm-con-int', ("case INT:      if (equalp(i))", "case INT:      if ((int)v.i == (int)p->sym.u.c.v.i && (h || 1) && (char)v.i == (char)p->sym.u.c.v.i && (unsigned short)v.i == (unsigned short)p->sym.u.c.v.i)"))
B('nm-con-uns', ("case UNSIGNED: if (equalp(u))", "case UNSIGNED: if ((unsigned short)v.u == (unsigned short)p->sym.u.c.v.u)"))
B('nm-con-ptr', ("case POINTER:  if (equalp(p))", "case POINTER:  if ((unsigned)(unsigned long)v.p == (unsigned)(unsigned long)p->sym.u.c.v.p)"))
B('nm-con-str', ("\t\t\tcase ARRAY:\n\t\t\tcase POINTER:  if (equalp(p))", "\t\t\tcase ARRAY:   if (strcmp(v.p, p->sym.u.c.v.p) == 0) return &p->sym; break;\n\t\t\tcase POINTER:  if (equalp(p))"))
B('nm-con-qual', ("\tty = unqual(ty);\n\tfor (p = constants", "\tfor (p = constants"))
B('nm-con-val', ("p->sym.u.c.v = v;", "p->sym.u.c.v.u = v.u & ones(8*ty->size);"))
B('nm-con-arena', ("NEW0(p, PERM);\n\tp->sym.name = vtoa", "NEW0(p, FUNC);\n\tp->sym.name = vtoa"))
B('nm-con-order', ("\tp->sym.u.c.v = v;\n\tp->link", "\tp->link"), ("\tp->sym.defined = 1;\n\treturn &p->sym;\n}\nSymbol intconst", "\tp->sym.defined = 1;\n\tp->sym.u.c.v = v;\n\treturn &p->sym;\n}\nSymbol intconst"))
B('nm-intconst', ("v.i = n;", "v.i = (short)n;"))
B('nm-intconst-u', ("v.i = n;", "v.i = (unsigned)n;"))
B('nm-ident-arena', ("NEW0(p, lev >= LOCAL ? FUNC : PERM);", "NEW0(p, lev >= PARAM ? FUNC : PERM);"))
B('nm-ident-perm', ("NEW0(p, lev >= LOCAL ? FUNC : PERM);", "NEW0(p, FUNC);"))
B('nm-ident-label', ("p->name = stringd(genlabel(1));", "p->name = stringd(lev >= LOCAL ? ++tempid : genlabel(1));"))
B('nm-ident-def', ("\tif (lev == GLOBAL)\n\t\t(*IR->defsymbol)(p);", "\tif (lev == GLOBAL && scls == STATIC)\n\t\t(*IR->defsymbol)(p);"))
B('nm-temp-name', ("stringd(++tempid)", "stringd(tempid++ & 255)"))
B('nm-temp-scope', ("p->scope = level < LOCAL ? LOCAL : level;", "p->scope = LOCAL;"))
B('nm-temp-flag', ("\tp->temporary = 1;\n\tp->generated = 1;", "\tp->temporary = 1;"))
B('nm-mkstr-len', ("strlen(v.p) + 1, 0)", "strlen(v.p), 0)"))
B('nm-mkstr-loc', ("\tif (p->u.c.loc == NULL)\n", ""))
B('nm-mksym', ("p = install(string(name), &globals, GLOBAL, PERM);", "p = install(string(name), &identifiers, GLOBAL, PERM);"))
B('nm-mksym-copy', ("\t\tp->name = string(name);\n\t\tp->scope = GLOBAL;", "\t\tp->name = (char *)name;\n\t\tp->scope = GLOBAL;"))
# strings
B('ns-len', ("if (len == p->len) {", "if (len <= p->len) {"), file=T)
B('ns-cmp', ("\t\t\t\tif (s1 == end)\n", "\t\t\t\tif (s1 == end || s1 == str + 31)\n"), file=T)
B('ns-hash', ("buckets[h] = p;\n\t\treturn p->str;", "buckets[h&255] = p;\n\t\treturn p->str;"), file=T)
B('ns-limit', ("if (len + 1 >= strlimit - next)", "if (len > strlimit - next)"), file=T)
B('ns-limit2', ("strlimit = next + n;", "strlimit = next + n + 1;"), file=T)
B('ns-arena', ("next = allocate(n, PERM);", "next = allocate(n, FUNC);"), file=T)
B('ns-arena2', ("NEW(p, PERM);", "NEW(p, FUNC);"), file=T)
B('ns-term', ("\t\t*next++ = 0;\n", ""), file=T)
B('ns-share', ("p->link = buckets[h];\n\t\tbuckets[h]", "p->link = NULL;\n\t\tbuckets[h]"), file=T)
B('ns-string', ("return stringn(str, s - str);", "return stringn(str, s - str > 255 ? 255 : s - str);"), file=T)
B('ns-key', ("p->len = len;", "p->len = next - p->str;"), file=T)
# lists
B('nl-front', ("\t\tlist->link = new;\n\t} else", "\t\tlist->link = new;\n\t\tif (list->link->link == list) { new->x = x; return list; }\n\t} else"), file=L)
B('nl-free', ("\t\tfreenodes = freenodes->link;\n\telse", "\t\tfreenodes = freenodes->link ? freenodes->link : freenodes;\n\telse"), file=L)
B('nl-arena', ("NEW(new, PERM);", "NEW(new, FUNC);"), file=L)
B('nl-len', ("\twhile ((lp = lp->link) != list);\n", "\twhile ((lp = lp->link) != list->link);\n"), file=L)
B('nl-len2', ("\t\tdo\n\t\t\tn++;\n\t\twhile ((lp = lp->link) != list);", "\t\twhile ((lp = lp->link) != list)\n\t\t\tn++;"), file=L)
B('nl-ltov-order', ("\t\t\tlp = lp->link;\n\t\t\tarray[i++] = lp->x;\n\t\t} while (lp != *list);", "\t\t\tarray[i++] = lp->x;\n\t\t\tlp = lp->link;\n\t\t} while (lp != *list);"), file=L)
B('nl-ltov-null', ("\tarray[i] = NULL;\n", "\tif (i == 0) array[i] = NULL;\n"), file=L)
B('nl-ltov-size', ("newarray(length(*list) + 1,", "newarray(length(*list),"), file=L)
B('nl-ltov-free', ("\t\tlp = (*list)->link;\n\t\t(*list)->link = freenodes;\n\t\tfreenodes = lp;", "\t\tlp = (*list)->link;\n\t\tfreenodes = lp;"), file=L)
B('nl-ltov-list', ("\t*list = NULL;\n", ""), file=L)
# memory
B('na-round', ("n = roundup(n, sizeof (union align));", "n = roundup(n, 4);"), file=A)
B('na-noround', ("\tn = roundup(n, sizeof (union align));\n", ""), file=A)
B('na-fit', ("while (n > ap->limit - ap->avail) {", "while (n > ap->limit - ap->avail + sizeof (union align)) {"), file=A)
B('na-m', ("sizeof (union header) + n + roundup(10*1024", "n + roundup(10*1024"), ("while (n > ap->limit - ap->avail) {", "if (n > ap->limit - ap->avail) {"), file=A)
B('na-if', ("while (n > ap->limit - ap->avail) {", "if (n > ap->limit - ap->avail) {"), file=A)
B('na-fixed', ("sizeof (union header) + n + roundup(10*1024", "sizeof (union header) + roundup(10*1024"), ("while (n > ap->limit - ap->avail) {", "if (n > ap->limit - ap->avail) {"), file=A)
B('na-limit', ("ap->limit = (char *)ap + m;", "ap->limit = (char *)(ap + 1) + m;"), file=A)
B('na-head', ("ap->avail = (char *)((union header *)ap + 1);", "ap->avail = (char *)((union align *)ap + 2);"), file=A)
B('na-head4', ("ap->avail = (char *)((union header *)ap + 1);", "ap->avail = (char *)((union header *)ap + 1) + 4;"), file=A)
B('na-free', ("\t\t\tfreeblocks = freeblocks->next;\n\t\t\tap = ap->next;", "\t\t\tap = ap->next;\n\t\t\tfreeblocks = a == 2 ? freeblocks : freeblocks->next;"), file=A)
B('na-next', ("\t\tap->next = NULL;\n\t\tarena[a] = ap;", "\t\tarena[a] = ap;"), file=A)
B('na-arena', ("\t\tarena[a] = ap;\n", "\t\tarena[a ? a : 1] = ap;\n"), file=A)
B('na-null', ("\t\t\t\tif (ap == NULL) {", "\t\t\t\tif (m == 0) {"), file=A)
B('na-ret', ("return ap->avail - n;", "return ap->avail - sizeof (union align);"), file=A)
B('na-newarray', ("return allocate(m*n, a);\n}\nvoid deallocate", "return allocate((unsigned short)m*n, a);\n}\nvoid deallocate"), file=A)
B('na-newarray-a', ("return allocate(m*n, a);\n}\nvoid deallocate", "return allocate(m*n, a == 2 ? 1 : a);\n}\nvoid deallocate"), file=A)
B('na-de-lost', ("\tarena[a]->next = freeblocks;\n\tfreeblocks", "\tfreeblocks"), file=A)
B('na-de-first', ("\tfreeblocks = first[a].next;", "\tfreeblocks = &first[a];"), file=A)
B('na-de-keep', ("\tfirst[a].next = NULL;\n\tarena[a] = &first[a];", "\tfirst[a].next = NULL;"), file=A)
B('na-de-next', ("\tfirst[a].next = NULL;\n\tarena[a] = &first[a];", "\tarena[a] = &first[a];"), file=A)
B('na-de-perm', ("\tarena[a]->next = freeblocks;\n\tfreeblocks", "\tarena[0]->next = freeblocks;\n\tfreeblocks"), file=A)
