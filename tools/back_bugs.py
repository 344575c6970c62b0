Y = 'lcc/src/bytecode.c'
G = 'lcc/src/gen.c'
EDITS = []
def B(name, *edits, file=Y):
    EDITS.append((name, 'bug', file, list(edits), ['C30']))

B('bk-order', ("case ADD: case SUB: case DIV: case MUL: case MOD:\n\t\tassert(p->kids[0]);\n\t\tassert(p->kids[1]);\n\t\tdumptree(p->kids[0]);\n\t\tdumptree(p->kids[1]);", "case ADD: case SUB: case DIV: case MUL: case MOD:\n\t\tassert(p->kids[0]);\n\t\tassert(p->kids[1]);\n\t\tdumptree(p->kids[1]);\n\t\tdumptree(p->kids[0]);"))
B('bk-cmp-order', ("assert(p->syms[0]->x.name);\n\t\tdumptree(p->kids[0]);\n\t\tdumptree(p->kids[1]);", "assert(p->syms[0]->x.name);\n\t\tif (generic(p->op) == GT) { dumptree(p->kids[1]); dumptree(p->kids[0]); } else {\n\t\tdumptree(p->kids[0]);\n\t\tdumptree(p->kids[1]); }"))
B('bk-pop-never', ("if ( !p->count ) { printf(\"pop\\n\"); };", "if ( !p->count && optype(p->op) != V ) { printf(\"pop\\n\"); };"))
B('bk-pop-inv', ("if ( !p->count )", "if ( p->count <= 1 )"))
B('bk-pop-kid', ("if ( !p->count )", "if ( !p->kids[0]->count )"))
B('bk-asgnb-size', ("print(\"%s %d\\n\", opname(p->op), p->syms[0]->u.c.v.u);", "print(\"%s %d\\n\", opname(p->op), (int)p->syms[0]->u.c.v.u & ~3);"))
B('bk-asgnb-sym', ("print(\"%s %d\\n\", opname(p->op), p->syms[0]->u.c.v.u);", "print(\"%s %d\\n\", opname(p->op), p->syms[0]->type->size);"))
B('bk-cvu-mask', ("if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 4\n", "if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 2\n"))
B('bk-cvu-mask2', ("(1 << (8 * (int)p->syms[0]->u.c.v.i)) - 1", "(1 << (4 * (int)p->syms[0]->u.c.v.i)) - 1"))
B('bk-cv-size', ("print(\"%s %d\\n\", opname(p->op), p->syms[0]->u.c.v.i);", "print(\"%s %d\\n\", opname(p->op), p->syms[0]->type->align);"))
B('bk-leaf', ("print(\"%s %s\\n\", opname(p->op), p->syms[0]->x.name);\n\t\treturn;\n\tcase CVF", "print(\"%s %s\\n\", opname(p->op), p->syms[0]->name);\n\t\treturn;\n\tcase CVF"))
B('bk-cmp-label', ("print(\"%s %s\\n\", opname(p->op), p->syms[0]->x.name);\n\t\treturn;\n\t}\n\tassert(0);", "print(\"%s %s\\n\", opname(p->op), p->syms[0]->name);\n\t\treturn;\n\t}\n\tassert(0);"))
B('bk-emit-link', ("for (; p; p = p->link)\n\t\tdumptree(p);", "for (; p; p = p->link ? p->link->link : NULL)\n\t\tdumptree(p);"))
B('bk-param-align', ("offset = roundup(offset, caller[i]->type->align);", "offset = roundup(offset, callee[i]->type->align);"))
B('bk-param-size', ("offset += caller[i]->type->size;", "offset += roundup(caller[i]->type->size, 8);"))
B('bk-param-noround', ("offset = roundup(offset, caller[i]->type->align);\n", ""))
B('bk-param-name', ("caller[i]->x.name = callee[i]->x.name = stringf(\"%d\", offset);", "caller[i]->x.name = stringf(\"%d\", offset);"))
B('bk-param-late', ("caller[i]->x.name = callee[i]->x.name = stringf(\"%d\", offset);\n\t\tcaller[i]->x.offset = callee[i]->x.offset = offset;\n\t\toffset += caller[i]->type->size;", "caller[i]->x.offset = callee[i]->x.offset = offset;\n\t\toffset += caller[i]->type->size;\n\t\tcaller[i]->x.name = callee[i]->x.name = stringf(\"%d\", offset);"))
B('bk-frame-init', ("maxargoffset = maxoffset = argoffset = offset = 0;", "maxargoffset = maxoffset = offset = 0;"))
B('bk-frame-init2', ("maxargoffset = maxoffset = argoffset = offset = 0;", "maxoffset = argoffset = offset = 0;"))
B('bk-frame-init3', ("maxargoffset = maxoffset = argoffset = offset = 0;", "maxargoffset = maxoffset = argoffset = 0;"))
B('bk-proc-swap', ("print(\"proc %s %d %d\\n\", f->x.name, maxoffset, maxargoffset);", "print(\"proc %s %d %d\\n\", f->x.name, maxargoffset, maxoffset);"))
B('bk-proc-offset', ("print(\"proc %s %d %d\\n\", f->x.name, maxoffset, maxargoffset);", "print(\"proc %s %d %d\\n\", f->x.name, offset, maxargoffset);"))
B('bk-endproc', ("print(\"endproc %s %d %d\\n\", f->x.name, maxoffset, maxargoffset);", "print(\"endproc %s %d %d\\n\", f->x.name, maxoffset, argoffset);"))
B('bk-noseg', ("(*IR->segment)(CODE);\n\toffset = 0;", "offset = 0;"))
B('bk-arg-small', ("argoffset += (p->syms[0]->u.c.v.i < 4 ? 4 : p->syms[0]->u.c.v.i);", "argoffset += p->syms[0]->u.c.v.i;"))
B('bk-arg-reset', ("maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);\n\t\targoffset = 0;", "maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);"))
B('bk-arg-max', ("maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);", "maxargoffset = argoffset;"))
B('bk-arg-min', ("maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);", "maxargoffset = (argoffset < maxargoffset ? argoffset : maxargoffset);"))
B('bk-gen-kids', ("gen01(p->kids[0]);\n\t\tgen01(p->kids[1]);\n\t\tgen02(p);", "gen02(p);\n\t\tgen01(p->kids[0]);\n\t\tgen01(p->kids[1]);"))
B('bk-gen-kid1', ("gen01(p->kids[0]);\n\t\tgen01(p->kids[1]);\n\t\tgen02(p);", "gen01(p->kids[0]);\n\t\tgen02(p);"))
B('bk-global-align', ("p->type->align > 4 ? 4 : p->type->align", "p->type->align > 2 ? 4 : 1"))
B('bk-local-align', ("static void I(local)(Symbol p) {\n\toffset = roundup(offset, p->type->align);\n", "static void I(local)(Symbol p) {\n"))
B('bk-local-align4', ("static void I(local)(Symbol p) {\n\toffset = roundup(offset, p->type->align);", "static void I(local)(Symbol p) {\n\toffset = roundup(offset, p->type->size);"))
B('bk-local-size', ("p->x.offset = offset;\n\toffset += p->type->size;", "p->x.offset = offset;\n\toffset += p->type->align;"))
B('bk-local-name', ("p->x.name = stringf(\"%d\", offset);\n\tp->x.offset = offset;\n\toffset += p->type->size;", "p->x.offset = offset;\n\toffset += p->type->size;\n\tp->x.name = stringf(\"%d\", offset);"))
B('bk-space', ("print(\"skip %d\\n\", n);", "print(\"skip %d\\n\", n & ~1);"))
B('bk-seg', ("\tif (cseg != n)\n\t\tswitch (cseg = n) {", "\tif (cseg != n)\n\t\tswitch (n) {"))
B('bk-seg2', ("case BSS:  print(\"bss\\n\");  return;", "case BSS:  print(\"data\\n\");  return;"))
B('bk-seg3', ("if (cseg != n)", "if (cseg < n)"))
B('bk-const-size', ("print(\"byte %d %d\\n\", size, v.i);", "print(\"byte %d %d\\n\", size < 4 ? 1 : size, v.i);"))
B('bk-const-u', ("print(\"byte %d %u\\n\", size, v.u);", "print(\"byte %d %u\\n\", size, v.u & 0x7fffffff);"))
B('bk-const-u8', ("print(\"byte %d %u\\n\", size, v.u);", "print(\"byte %d %u\\n\", size, (unsigned char)v.u);"))
B('bk-const-f', ("fi.f = v.d;", "fi.f = (int)v.d;"))
B('bk-const-f2', ("print(\"byte 4 %u\\n\", fi.ui);", "print(\"byte 4 %d\\n\", (int)fi.f);"))
B('bk-str', ("print(\"byte 1 %d\\n\", (*s)&0377);", "print(\"byte 1 %d\\n\", (*s)&0177);"))
B('bk-str2', ("for (s = str; s < str + len; s++)", "for (s = str; s < str + len && *s; s++)"))
B('bk-str3', ("for (s = str; s < str + len; s++)", "for (s = str; s < str + len - 1; s++)"))
B('bk-sym-const', ("case I: p->x.name = stringf(\"%D\", p->u.c.v.i); break;", "case I: p->x.name = stringf(\"%d\", (short)p->u.c.v.i); break;"))
B('bk-sym-static', ("p->x.name = stringf(\"$%d\", genlabel(1));", "p->x.name = p->name;"))
B('bk-sym-static2', ("else if (p->scope >= LOCAL && p->sclass == STATIC)", "else if (p->scope == LOCAL && p->sclass == STATIC)"))
B('bk-sym-gen', ("else if (p->scope == LABELS || p->generated)", "else if (p->scope == LABELS)"))
B('bk-sym-label', ("else if (p->scope == LABELS || p->generated)", "else if (p->generated)"))
B('bk-addr-neg', ("stringf(\"%s%s%D\", p->x.name, n > 0 ? \"+\" : \"\", n)", "stringf(\"%s+%D\", p->x.name, n > 0 ? n : -n)"))
B('bk-addr-name', ("stringf(\"%s%s%D\", p->x.name, n > 0 ? \"+\" : \"\", n)", "stringf(\"%s%s%D\", p->name, n > 0 ? \"+\" : \"\", n)"))
B('bk-addr-pos', ("n > 0 ? \"+\" : \"\"", "n > 9 ? \"+\" : \"\""))
B('bk-defaddr', ("print(\"address %s\\n\", p->x.name);", "print(\"address %s\\n\", p->name);"))
B('bk-float8', ("{4, 4, 0},\t/* double */", "{8, 8, 0},\t/* double */"))
B('bk-short', ("{2, 2, 0},\t/* short */", "{2, 1, 0},\t/* short */"))
B('bk-blockend', ("\tif (offset > maxoffset)\n\t\tmaxoffset = offset;\n\toffset = e->offset;", "\toffset = e->offset;\n\tif (offset > maxoffset)\n\t\tmaxoffset = offset;"), file=G)
B('bk-blockend2', ("\tif (offset > maxoffset)\n\t\tmaxoffset = offset;\n\toffset = e->offset;", "\tmaxoffset = offset;\n\toffset = e->offset;"), file=G)
B('bk-blockend3', ("\tif (offset > maxoffset)\n\t\tmaxoffset = offset;\n\toffset = e->offset;", "\tif (offset > maxoffset)\n\t\tmaxoffset = offset;"), file=G)
B('bk-blockbeg', ("\te->offset = offset;\n", "\te->offset = maxoffset;\n"), file=G)
B('bk-opname', ("suffixes[optype(op)], opsize(op) > 0 ? stringd(opsize(op)) : \"\");", "suffixes[optype(op)], opsize(op) > 1 ? stringd(opsize(op)) : \"\");"), file='lcc/src/tree.c')
B('bk-opname2', ("\t\"GE\",\n\t\"GT\",", "\t\"GT\",\n\t\"GE\","), file='lcc/src/tree.c')
for _n, _o, _v in (('bk-flag-le', '1,		/* little_endian', '0,		/* little_endian'), ('bk-flag-ltr', '1,		/* left_to_right', '0,		/* left_to_right'),
                   ('bk-flag-dag', '0,		/* wants_dag', '1,		/* wants_dag'), ('bk-flag-argb', '0,		/* wants_argb', '1,		/* wants_argb')):
    B(_n, (_o, _v))
