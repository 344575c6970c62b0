"""Planted bugs in rcc's declarations (C41)."""
import os
import runpy
_b = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seeds_stmt.py'))
SH, PY, RUN = _b['SH'], _b['PY'], _b['RUN']
SEEDS = []
def S(id, needs, breaks, file, edits, py):
    SEEDS.append(dict(id=id, property='C41', needs=needs, breaks=breaks, edits=[('lcc/src/' + file,) + e for e in edits],
                      files={'demo.sh': SH, 'demo.py': PY + RUN + py}))

S('decl-outer-params', 'the definition of a function that returns a pointer to a function with named parameters',
  'the parameters of the returned function are taken for those of the function', 'decl.c',
  [("if (params && *params == NULL)", "if (params && (*params == NULL || args[0]))")],
  r'''
r = run("""int (*pick(int a, int b))(int c, int d);
int vmMain(void) { return pick(3, 1)(20, 10) == 30 && pick(1, 3)(20, 10) == 10 ? 7 : 1; }
int add(int c, int d) { return c + d; }
int sub(int c, int d) { return c - d; }
int (*pick(int a, int b))(int c, int d) { return a > b ? add : sub; }
""")
assert r == 7, r
''')
S('decl-sign-name', 'a local variable with the name of a typedef, declared with a sign only', 'the name is read as a type and the variable is not declared',
  'decl.c', [("if (istypename(t, tsym) && type == 0\n\t\t\t&& sign == 0 && size == 0)", "if (istypename(t, tsym) && type == 0\n\t\t\t&& sign != SIGNED && size == 0)")],
  r'''
r = run("""typedef int T;
int f(int n);
int vmMain(void) { return f(-1) == 5 ? 7 : 1; }
int f(int n) { unsigned T = n; signed q = n; return T > 10 && q < 0 ? 5 : 6; }
""")
assert r == 7, r
''')
S('decl-tag-again', 'a block that declares a tag again, before its members, while the outer one is still incomplete',
  'the declaration in the block names the outer type', 'decl.c', [("if (t == ';' && p->scope < level)", "if (t == ';' && p->scope < level && p->defined)")],
  r'''
r = run("""struct s;
struct s *keep;
int vmMain(void) {
    struct s;
    struct t { struct s *p; } x;
    struct s { int v; int w; } y;
    y.v = 3;
    y.w = 4;
    x.p = &y;
    return x.p->v + x.p->w;
}
""")
assert r == 7, r
''')
S('decl-enum-align', 'a structure with an enumeration after a smaller member', 'the member is not aligned', 'decl.c',
  [("\t\tty->align = ty->type->align;\n\t\tty->u.sym->u.idlist", "\t\tty->align = n > 2 ? ty->type->align : 1;\n\t\tty->u.sym->u.idlist")],
  r'''
r = run("""enum two { A, B };
struct s { char c; enum two e; char d; };
enum three { C, D, E };
struct u { char c; enum three e; char d; };
struct s a;
struct u b;
int vmMain(void) {
    return (char *)&a.e - (char *)&a == 4 && sizeof (struct s) == 12 && (char *)&b.e - (char *)&b == 4 ? 7 : 1;
}
""")
assert r == 7, r
''')
S('decl-local-typedef', 'a function that declares a typedef name hiding a global one, in two functions', 'the local name stays visible',
  'decl.c', [("p = install(id, &identifiers, level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);", "p = install(id, &identifiers, level == LOCAL + 1 ? LOCAL : level,\n\t\t\t\t\t\tlevel < LOCAL ? PERM : FUNC);")],
  r'''
r = run("""typedef int T;
int f(int n);
int vmMain(void) { return f(300) == 344 ? 7 : 1; }
int f(int n) {
    int a = n, b;
    {
        typedef unsigned char T;
        T x = (T)n;
        b = x;
    }
    return (T)a + b;
}
""")
assert r == 7, r
''')
S('decl-old-static', 'a function defined in old style whose parameter declarations begin with a storage class', 'the definition is taken for a declaration',
  'decl.c', [("\t\t\t    || (kind[t] == STATIC && t != TYPEDEF))) {", "\t\t\t    || (kind[t] == STATIC && t != TYPEDEF && t != REGISTER))) {")],
  r'''
r = run("""int f();
int vmMain(void) { return f(3, 4); }
int f(a, b) register int a; int b; { return a + b; }
""")
assert r == 7, r
''')
