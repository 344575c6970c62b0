S = 'lcc/src/sym.c'
EDITS = []
def R(name, *edits, file=S):
    EDITS.append((name, 'ref', file, list(edits)))
T, L, A = 'lcc/src/string.c', 'lcc/src/list.c', 'lcc/src/alloc.c'

R('nr-hash', ("#define HASHSIZE NELEMS(((Table)0)->buckets)\n", "#define HASHSIZE NELEMS(((Table)0)->buckets)\nstatic unsigned hashname(const char *name) {\n\treturn (unsigned)((unsigned long)name % HASHSIZE);\n}\n"), ("unsigned h = (unsigned long)name&(HASHSIZE-1);\n\n\tassert(level", "unsigned h = hashname(name);\n\n\tassert(level"), ("unsigned h = (unsigned long)name&(HASHSIZE-1);\n\n\tfor (q", "unsigned h = hashname(name);\n\n\tfor (q"), ("unsigned h = (unsigned long)name&(HASHSIZE-1);\n\n\tassert(tp);", "unsigned h = hashname(name);\n\n\tassert(tp);"))
R('nr-lookup', ("\tassert(tp);\n\tdo\n\t\tfor (p = tp->buckets[h]; p; p = p->link)\n\t\t\tif (name == p->sym.name)\n\t\t\t\treturn &p->sym;\n\twhile ((tp = tp->previous) != NULL);\n\treturn NULL;\n}\nint genlabel", "\tassert(tp);\n\tfor ( ; tp != NULL; tp = tp->previous) {\n\t\tp = tp->buckets[h];\n\t\twhile (p && p->sym.name != name)\n\t\t\tp = p->link;\n\t\tif (p)\n\t\t\treturn &p->sym;\n\t}\n\treturn NULL;\n}\nint genlabel"))
R('nr-install', ("\tNEW0(p, arena);\n\tp->sym.name = (char *)name;\n\tp->sym.scope = level;\n\tp->sym.up = tp->all;\n\ttp->all = &p->sym;\n\tp->link = tp->buckets[h];\n\ttp->buckets[h] = p;\n\treturn &p->sym;\n}\nSymbol relocate", "\tNEW0(p, arena);\n\tp->sym.name = (char *)name;\n\tp->sym.scope = level;\n\tenter(p, tp, h);\n\treturn &p->sym;\n}\nSymbol relocate"), ("Symbol install(const char *name, Table *tpp", "static void enter(struct entry *p, Table tp, unsigned h) {\n\tp->link = tp->buckets[h];\n\ttp->buckets[h] = p;\n\tp->sym.up = tp->all;\n\ttp->all = &p->sym;\n}\nSymbol install(const char *name, Table *tpp"), ("\tp->link = dst->buckets[h];\n\tdst->buckets[h] = p;\n\tp->sym.up = dst->all;\n\tdst->all = &p->sym;\n\treturn &p->sym;", "\tenter(p, dst, h);\n\treturn &p->sym;"))
R('nr-reloc', ("\tfor (q = &src->buckets[h]; *q; q = &(*q)->link)\n\t\tif (name == (*q)->sym.name)\n\t\t\tbreak;\n\tassert(*q);", "\tq = &src->buckets[h];\n\twhile (*q && (*q)->sym.name != name)\n\t\tq = &(*q)->link;\n\tassert(*q);"), ("\t*q = (*q)->link;\n\tfor (r", "\t*q = p->link;\n\tfor (r"))
R('nr-table', ("\tnew->previous = tp;\n\tnew->level = level;\n\tif (tp)\n\t\tnew->all = tp->all;", "\tnew->level = level;\n\tnew->previous = tp;\n\tnew->all = tp ? tp->all : NULL;"))
R('nr-foreach', ("\t\tfor (p = tp->all; p && p->scope == lev; p = p->up) {\n\t\t\tsrc = p->src;\n\t\t\t(*apply)(p, cl);\n\t\t}", "\t\tp = tp->all;\n\t\twhile (p != NULL) {\n\t\t\tif (p->scope != lev)\n\t\t\t\tbreak;\n\t\t\tsrc = p->src;\n\t\t\t(*apply)(p, cl);\n\t\t\tp = p->up;\n\t\t}"))
R('nr-exit', ("\trmtypes(level);\n\tif (types->level == level)\n\t\ttypes = types->previous;\n", "\tassert(level >= GLOBAL);\n\trmtypes(level);\n\tif (types->level == level)\n\t\ttypes = types->previous;\n"), ("\tassert(level >= GLOBAL);\n\t--level;", "\tlevel = level - 1;"))
R('nr-enter', ("\tif (++level == LOCAL)\n\t\ttempid = 0;", "\tlevel++;\n\tif (level == LOCAL)\n\t\ttempid = 0;"))
R('nr-genlabel', ("\tlabel += n;\n\treturn label - n;", "\tint first = label;\n\n\tlabel = first + n;\n\treturn first;"))
R('nr-findlabel', ("\tp->sym.name = stringd(lab);\n\tp->sym.scope = LABELS;\n\tp->sym.up = labels->all;\n\tlabels->all = &p->sym;\n\tp->link = labels->buckets[h];\n\tlabels->buckets[h] = p;\n\tp->sym.generated = 1;\n\tp->sym.u.l.label = lab;", "\tp->sym.u.l.label = lab;\n\tp->sym.generated = 1;\n\tp->sym.name = stringd(lab);\n\tp->sym.scope = LABELS;\n\tp->link = labels->buckets[h];\n\tlabels->buckets[h] = p;\n\tp->sym.up = labels->all;\n\tlabels->all = &p->sym;"))
R('nr-const', ("\tfor (p = constants->buckets[h]; p; p = p->link)\n\t\tif (eqtype(ty, p->sym.type, 1))\n\t\t\tswitch (ty->op) {", "\tfor (p = constants->buckets[h]; p; p = p->link) {\n\t\tif (!eqtype(ty, p->sym.type, 1))\n\t\t\tcontinue;\n\t\t\tswitch (ty->op) {"), ("\t\t\tdefault: assert(0);\n\t\t\t}\n\tNEW0(p, PERM);", "\t\t\tdefault: assert(0);\n\t\t\t}\n\t}\n\tNEW0(p, PERM);"))
R('nr-const-helper', ("Symbol constant(Type ty, Value v) {\n\tstruct entry *p;", "static int samevalue(Type ty, Value a, Value b) {\n\tswitch (ty->op) {\n\tcase INT:      return a.i == b.i;\n\tcase UNSIGNED: return a.u == b.u;\n\tcase FLOAT:    return memcmp(&a.d, &b.d, sizeof a.d) == 0;\n\tcase FUNCTION: return a.g == b.g;\n\tcase ARRAY:\n\tcase POINTER:  return a.p == b.p;\n\tdefault: assert(0);\n\t}\n\treturn 0;\n}\nSymbol constant(Type ty, Value v) {\n\tstruct entry *p;"), ("\t\tif (eqtype(ty, p->sym.type, 1))\n\t\t\tswitch (ty->op) {\n\t\t\tcase INT:      if (equalp(i)) return &p->sym; break;\n\t\t\tcase UNSIGNED: if (equalp(u)) return &p->sym; break;\n\t\t\tcase FLOAT:    if (memcmp(&v.d, &p->sym.u.c.v.d, sizeof v.d) == 0) return &p->sym; break;\n\t\t\tcase FUNCTION: if (equalp(g)) return &p->sym; break;\n\t\t\tcase ARRAY:\n\t\t\tcase POINTER:  if (equalp(p)) return &p->sym; break;\n\t\t\tdefault: assert(0);\n\t\t\t}", "\t\tif (eqtype(ty, p->sym.type, 1) && samevalue(ty, v, p->sym.u.c.v))\n\t\t\treturn &p->sym;"))
R('nr-const-order', ("\tp->link = constants->buckets[h];\n\tp->sym.up = constants->all;\n\tconstants->all = &p->sym;\n\tconstants->buckets[h] = p;\n\tif (ty", "\tp->sym.up = constants->all;\n\tconstants->all = &p->sym;\n\tp->link = constants->buckets[h];\n\tconstants->buckets[h] = p;\n\tif (ty"))
R('nr-genident', ("\tSymbol p;\n\n\tNEW0(p, lev >= LOCAL ? FUNC : PERM);", "\tSymbol p;\n\tint arena = PERM;\n\n\tif (lev >= LOCAL)\n\t\tarena = FUNC;\n\tNEW0(p, arena);"))
R('nr-temp', ("\tp->scope = level < LOCAL ? LOCAL : level;", "\tp->scope = level;\n\tif (p->scope < LOCAL)\n\t\tp->scope = LOCAL;"))
R('nr-mkstr', ("\tv.p = str;\n\tp = constant(array(chartype, strlen(v.p) + 1, 0), v);", "\tint n = strlen(str);\n\tv.p = str;\n\tp = constant(array(chartype, n + 1, 0), v);"))
R('nr-intconst', ("\tv.i = n;\n", "\tv.u = (unsigned long)(long)n;\n"))
R('nr-mksym', ("\tif (sclass == EXTERN)\n\t\tp = install(string(name), &globals, GLOBAL, PERM);\n\telse {\n\t\tNEW0(p, PERM);\n\t\tp->name = string(name);\n\t\tp->scope = GLOBAL;\n\t}", "\tchar *s = string(name);\n\tif (sclass != EXTERN) {\n\t\tNEW0(p, PERM);\n\t\tp->name = s;\n\t\tp->scope = GLOBAL;\n\t} else\n\t\tp = install(s, &globals, GLOBAL, PERM);"))
# strings
R('nsr-string', ("\tfor (s = str; *s; s++)\n\t\t;\n", "\ts = str;\n\twhile (*s != 0)\n\t\ts++;\n"), file=T)
R('nsr-strlen', ("\tconst char *s;\n\n\tfor (s = str; *s; s++)\n\t\t;\n\treturn stringn(str, s - str);", "\treturn stringn(str, strlen(str));"), file=T)
R('nsr-memcmp', ("\t\tif (len == p->len) {\n\t\t\tconst char *s1 = str;\n\t\t\tchar *s2 = p->str;\n\t\t\tdo {\n\t\t\t\tif (s1 == end)\n\t\t\t\t\treturn p->str;\n\t\t\t} while (*s1++ == *s2++);\n\t\t}", "\t\tif (len == p->len) {\n\t\t\tfor (i = 0; i < len && str[i] == p->str[i]; i++)\n\t\t\t\t;\n\t\t\tif (i == len)\n\t\t\t\treturn p->str;\n\t\t}"), file=T)
R('nsr-hash', ("\tfor (h = 0, i = len, end = str; i > 0; i--)\n\t\th = (h<<1) + scatter[*(unsigned char *)end++];\n", "\th = 0;\n\tfor (i = 0; i < len; i++)\n\t\th = 2*h + scatter[(unsigned char)str[i]];\n\tend = str + len;\n"), file=T)
R('nsr-copy', ("\t\tfor (p->str = next; str < end; )\n\t\t\t*next++ = *str++;\n\t\t*next++ = 0;", "\t\tp->str = next;\n\t\tfor (i = 0; i < len; i++)\n\t\t\tnext[i] = str[i];\n\t\tnext[len] = 0;\n\t\tnext += len + 1;"), file=T)
R('nsr-order', ("\t\tNEW(p, PERM);\n\t\tp->len = len;\n\t\tfor (p->str", "\t\tNEW(p, PERM);\n\t\tp->link = buckets[h];\n\t\tbuckets[h] = p;\n\t\tp->len = len;\n\t\tfor (p->str"), ("\t\t*next++ = 0;\n\t\tp->link = buckets[h];\n\t\tbuckets[h] = p;", "\t\t*next++ = 0;"), file=T)
# lists
R('nlr-append', ("\tif ((new = freenodes) != NULL)\n\t\tfreenodes = freenodes->link;\n\telse\n\t\tNEW(new, PERM);", "\tnew = freenodes;\n\tif (!new)\n\t\tNEW(new, PERM);\n\telse\n\t\tfreenodes = new->link;"), ("\tnew->x = x;\n\treturn new;", "\treturn new;"), ("\tif (list) {\n\t\tnew->link = list->link;", "\tnew->x = x;\n\tif (list) {\n\t\tnew->link = list->link;"), file=L)
R('nlr-length', ("\t\tList lp = list;\n\t\tdo\n\t\t\tn++;\n\t\twhile ((lp = lp->link) != list);", "\t\tList lp;\n\t\tn = 1;\n\t\tfor (lp = list->link; lp != list; lp = lp->link)\n\t\t\tn++;"), file=L)
R('nlr-ltov', ("\t*list = NULL;\n\tarray[i] = NULL;", "\tarray[i] = NULL;\n\t*list = NULL;"), ("\t\tdo {\n\t\t\tlp = lp->link;\n\t\t\tarray[i++] = lp->x;\n\t\t} while (lp != *list);", "\t\tfor (;;) {\n\t\t\tlp = lp->link;\n\t\t\tarray[i] = lp->x;\n\t\t\ti++;\n\t\t\tif (lp == *list)\n\t\t\t\tbreak;\n\t\t}"), file=L)
R('nlr-nofree', ("\t\tlp = (*list)->link;\n\t\t(*list)->link = freenodes;\n\t\tfreenodes = lp;\n", ""), file=L)
# memory
R('nar-round', ("n = roundup(n, sizeof (union align));", "n = (n + sizeof (union align) - 1)/sizeof (union align)*sizeof (union align);"), file=A)
R('nar-round16', ("n = roundup(n, sizeof (union align));", "n = roundup(n, 2*sizeof (union align));"), file=A)
R('nar-helper', ("void *allocate(unsigned long n, unsigned a) {\n\tstruct block *ap;\n\n\tassert(a < NELEMS(arena));\n\tassert(n > 0);", "static struct block *newblock(unsigned long n) {\n\tunsigned m = sizeof (union header) + n + roundup(10*1024, sizeof (union align));\n\tstruct block *ap = malloc(m);\n\n\tif (ap == NULL) {\n\t\terror(\"insufficient memory\\n\");\n\t\texit(1);\n\t}\n\tap->limit = (char *)ap + m;\n\treturn ap;\n}\nvoid *allocate(unsigned long n, unsigned a) {\n\tstruct block *ap;\n\n\tassert(a < NELEMS(arena));\n\tassert(n > 0);"), ("\t\t\t{\n\t\t\t\tunsigned m = sizeof (union header) + n + roundup(10*1024, sizeof (union align));\n\t\t\t\tap->next = malloc(m);\n\t\t\t\tap = ap->next;\n\t\t\t\tif (ap == NULL) {\n\t\t\t\t\terror(\"insufficient memory\\n\");\n\t\t\t\t\texit(1);\n\t\t\t\t}\n\t\t\t\tap->limit = (char *)ap + m;\n\t\t\t}", "\t\t\tap = ap->next = newblock(n);"), file=A)
R('nar-fit', ("while (n > ap->limit - ap->avail) {", "while ((unsigned long)(ap->limit - ap->avail) < n) {"), file=A)
R('nar-long', ("unsigned m = sizeof (union header)", "unsigned long m = sizeof (union header)"), file=A)
R('nar-ret', ("\tap->avail += n;\n\treturn ap->avail - n;", "\t{\n\t\tchar *p = ap->avail;\n\n\t\tap->avail = p + n;\n\t\treturn p;\n\t}"), file=A)
R('nar-free', ("\tif ((ap->next = freeblocks) != NULL) {\n\t\t\tfreeblocks = freeblocks->next;\n\t\t\tap = ap->next;", "\tif (freeblocks != NULL) {\n\t\t\tap->next = freeblocks;\n\t\t\tap = freeblocks;\n\t\t\tfreeblocks = ap->next;"), file=A)
R('nar-de', ("\tarena[a]->next = freeblocks;\n\tfreeblocks = first[a].next;\n\tfirst[a].next = NULL;\n\tarena[a] = &first[a];", "\tstruct block *last = arena[a], *used = first[a].next;\n\n\tfirst[a].next = NULL;\n\tarena[a] = &first[a];\n\tlast->next = freeblocks;\n\tfreeblocks = used;"), file=A)
R('nar-newarray', ("return allocate(m*n, a);\n}\nvoid deallocate", "unsigned long size = n*m;\n\n\treturn allocate(size, a);\n}\nvoid deallocate"), file=A)
