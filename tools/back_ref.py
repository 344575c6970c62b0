Y = 'lcc/src/bytecode.c'
G = 'lcc/src/gen.c'
EDITS = []
def R(name, *edits, file=Y):
    EDITS.append((name, 'ref', file, list(edits), []))

R('bkr-kids', ("static void dumptree(Node p) {", "static void dumptree(Node);\nstatic void dumpkids(Node p) {\n\tint i;\n\n\tfor (i = 0; i < 2; i++)\n\t\tif (p->kids[i])\n\t\t\tdumptree(p->kids[i]);\n}\nstatic void dumptree(Node p) {"),
  ("case ADD: case SUB: case DIV: case MUL: case MOD:\n\t\tassert(p->kids[0]);\n\t\tassert(p->kids[1]);\n\t\tdumptree(p->kids[0]);\n\t\tdumptree(p->kids[1]);", "case ADD: case SUB: case DIV: case MUL: case MOD:\n\t\tassert(p->kids[0]);\n\t\tassert(p->kids[1]);\n\t\tdumpkids(p);"))
R('bkr-print', ("print(\"%s %s\\n\", opname(p->op), p->syms[0]->x.name);\n\t\treturn;\n\tcase CVF", "print(\"%s \", opname(p->op));\n\t\tprint(\"%s\\n\", p->syms[0]->x.name);\n\t\treturn;\n\tcase CVF"))
R('bkr-pop', ("if ( !p->count ) { printf(\"pop\\n\"); };", "if (p->count == 0)\n\t\t\tprint(\"%s\\n\", \"pop\");"))
R('bkr-emit', ("for (; p; p = p->link)\n\t\tdumptree(p);", "while (p != NULL) {\n\t\tNode next = p->link;\n\t\tdumptree(p);\n\t\tp = next;\n\t}"))
R('bkr-param', ("\tfor (i = 0; caller[i] && callee[i]; i++) {\n\t\toffset = roundup(offset, caller[i]->type->align);", "\tfor (i = 0; callee[i] && caller[i]; ++i) {\n\t\tint align = caller[i]->type->align;\n\t\toffset = (offset + align - 1) & ~(align - 1);"))
R('bkr-place', ("static void I(function)(", "static void place(Symbol p, int n) {\n\tp->x.name = stringd(n);\n\tp->x.offset = n;\n}\n\nstatic void I(function)("), ("caller[i]->x.name = callee[i]->x.name = stringf(\"%d\", offset);\n\t\tcaller[i]->x.offset = callee[i]->x.offset = offset;", "place(caller[i], offset);\n\t\tplace(callee[i], offset);"), ("p->x.name = stringf(\"%d\", offset);\n\tp->x.offset = offset;\n", "place(p, offset);\n"))
R('bkr-zero', ("maxargoffset = maxoffset = argoffset = offset = 0;", "offset = 0;\n\targoffset = 0;\n\tmaxoffset = 0;\n\tmaxargoffset = 0;"))
R('bkr-max', ("maxargoffset = (argoffset > maxargoffset ? argoffset : maxargoffset);", "if (argoffset >= maxargoffset)\n\t\t\tmaxargoffset = argoffset;"))
R('bkr-arg', ("argoffset += (p->syms[0]->u.c.v.i < 4 ? 4 : p->syms[0]->u.c.v.i);", "{ int n = p->syms[0]->u.c.v.i;\n\t\tif (n < 4)\n\t\t\tn = 4;\n\t\targoffset += n; }"))
R('bkr-gen', ("\tfor (q = p; q; q = q->link)\n\t\tgen01(q);\n\treturn p;", "\tq = p;\n\twhile (q) {\n\t\tgen01(q);\n\t\tq = q->link;\n\t}\n\treturn p;"))
R('bkr-gen01', ("static void gen01(Node p) {\n\tif (p) {\n\t\tgen01(p->kids[0]);\n\t\tgen01(p->kids[1]);\n\t\tgen02(p);\n\t}", "static void gen01(Node p) {\n\tint i;\n\n\tif (!p)\n\t\treturn;\n\tfor (i = 0; i < 2; i++)\n\t\tgen01(p->kids[i]);\n\tgen02(p);"))
R('bkr-seg', ("\tif (cseg != n)\n\t\tswitch (cseg = n) {", "\tif (n == cseg)\n\t\treturn;\n\tcseg = n;\n\t\tswitch (n) {"))
R('bkr-str', ("\tfor (s = str; s < str + len; s++)\n\t\tprint(\"byte 1 %d\\n\", (*s)&0377);", "\tint i;\n\tfor (i = 0; i < len; i++)\n\t\tprint(\"byte %d %d\\n\", 1, (unsigned char)str[i]);\n\t(void)s;"))
R('bkr-defsym', ("\tif (p->scope == CONSTANTS)\n\t\tswitch", "\tif (p->scope == CONSTANTS && p->type)\n\t\tswitch"))
R('bkr-align', ("print(\"align %d\\n\", p->type->align > 4 ? 4 : p->type->align);", "int n = p->type->align;\n\tif (n > 4)\n\t\tn = 4;\n\tprint(\"align %d\\n\", n);"))
R('bkr-cvu', ("if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 4\n\t\t&& generic(p->kids[0]->op) != INDIR)", "if (generic(p->op) == CVU && p->syms[0]->u.c.v.i != 4)"))
R('bkr-blockend', ("\tif (offset > maxoffset)\n\t\tmaxoffset = offset;\n\toffset = e->offset;", "\tmaxoffset = offset > maxoffset ? offset : maxoffset;\n\toffset = e->offset;"), file=G)
R('bkr-addr', ("q->x.name = stringf(\"%s%s%D\", p->x.name, n > 0 ? \"+\" : \"\", n);", "if (n > 0)\n\t\tq->x.name = stringf(\"%s+%D\", p->x.name, n);\n\telse\n\t\tq->x.name = stringf(\"%s%D\", p->x.name, n);"))
R('bkr-const', ("if (size > sizeof (int))\n\t\t\tprint(\"byte %d %D\\n\", size, v.i);\n\t\telse\n\t\t\tprint(\"byte %d %d\\n\", size, v.i);", "print(\"byte %d %D\\n\", size, v.i);"))
