"""C36: rcc types operators and converts operands as C prescribes."""
import lcctree as T_
from lcctree import *
from checks_asm import Finding
from report import Result

_L = None
ARITH = ('char', 'unsigned char', 'short', 'unsigned short', 'int', 'unsigned', 'long',
         'unsigned long', 'float', 'double')
PTRS = ('int *', 'char *', 'void *', 'struct12 *', 'struct0 *', 'func *', 'const int *')
ODD = ('struct12', 'void')


def lcc():
    global _L
    if _L is None:
        _L = T_.Lcc()
    return _L


class Case:
    """one function run on operands of given types"""

    def __init__(self, r, L, fn, args, types, ctxt, values=(), extra=None, transparent=(),
                 facts=(), maker=None, mem=None, returns=None,
                 engine=TreeEngine):
        self.r, self.L, self.fn, self.ctxt = r, L, fn, ctxt
        f = L.mod.funcs.get(fn)
        if f is None or not f.blocks or len(f.args) < len(args):
            raise Anchor('function %s(%d arguments) not found' % (fn, len(args)))
        self.pol = (maker or TreePolicy)(L, types, transparent)
        self.pol.values |= set(values)
        self.pol.extra.update(extra or {})
        self.pol.returns.update(returns or {})
        self.eng = engine(L.mod, self.pol)
        st = State()
        for a, v in zip(f.args, args):
            st.env[a] = v
            if single(v) and v[1] == 64:
                self.eng.ptr_atoms.add(single(v))
        for x in facts:
            st.ctx.assume(x)
        for n, v in (mem or {}).items():
            self.eng.mem_store(st, ('b', 'g', n), con(0, 64), v[1] // 8, v)
        self.eng.run_function(f, st)
        if not self.pol.rets:
            r.obligations += 1
            self.bad('returns', '', '%s never returns a tree for %s' % (fn, ctxt))

    def bad(self, rule, where, what, path=()):
        self.r.add([Finding(rule, where, what, path)], self.ctxt)

    def paths(self):
        for st, val, where in self.pol.rets:
            for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
                if ctx.contradictory():
                    continue
                self.r.obligations += 1
                yield st, ctx, val, where

    def errors(self, st):
        return [e[1] for e in st.ev if e[0] == 'error']


def guarded(f):
    def g(r, L, *a):
        try:
            return f(r, L, *a)
        except (Incomplete, Undecided, Wrong) as e:
            r.obligations += 1
            w = re.match(r'(\S+:\d+): ', str(e))
            r.add([Finding('decided', w.group(1) if w else 'lcc/src/enode.c', str(e), ())],
                  ' '.join(str(x) for x in a[:3] if isinstance(x, (str, Ty))))
    return g


def lines(pol, st):
    return tuple(pol.mod.where(t) for t, x in st.path)


def same(got, want):
    if got == want:
        return True
    return False


def txt(v):
    return key(v)[:160]


def value_is(c, st, ctx, val, where, want, wty, raw=True, what=''):
    """the tree returned has this value and type"""
    try:
        d = Den(c.pol, ctx)
        v, t = d(val, raw)
    except Wrong as e:
        c.bad('tree', where, '%s: %s' % (what, e), lines(c.pol, st))
        return
    except Undecided as e:
        c.bad('decided', where, '%s: %s' % (what, e), lines(c.pol, st))
        return
    if not sametype(t, wty):
        c.bad('type', where, '%s has the type %s instead of %s' % (what, t, wty), lines(c.pol, st))
    elif not same(v, want):
        c.bad('value', where, '%s has the value %s instead of %s' % (what, txt(v), txt(want)),
              lines(c.pol, st))


def sametype(a, b):
    if a is b:
        return True
    a, b = unqual(a), unqual(b)
    if a.op == b.op == 'POINTER':
        return a is b or unqual_eq(a, b) or a.to is b.to
    if a.op in ('INT', 'ENUM') and b.op in ('INT', 'ENUM') or a.op == b.op:
        return a.size == b.size and (a.op != 'STRUCT' or a is b)
    return False


L_, R_, E_ = sym('L', 64), sym('R', 64), sym('E', 64)


def leafval(n, ty):
    return Den.leaf(None, n, ty)


@guarded
def cast(r, L, s, d):
    s, d = TYPES[s], TYPES[d]
    what = '(%s) of a %s' % (d, s)
    c = Case(r, L, 'cast', [L_, T(d)], {'L': s}, what)
    for st, ctx, val, where in c.paths():
        if c.errors(st):
            c.bad('accepted', where, what + ' is rejected')
            continue
        want = convert(leafval('L', s), s, d)
        if isfloat(s) and isint(d) and unqual(d).size < 4:
            # the same for all values d can hold
            try:
                got, t = Den(c.pol, ctx)(val, False)
            except (Wrong, Undecided):
                got = None
            alt = narrow(sym('cvfu(%s)' % key(leafval('L', s)), 32), d)
            if got == alt:
                want = alt
        value_is(c, st, ctx, val, where, want, d, False, what)
        if c.pol.name(val) in c.pol.calls:
            fn, a, w = c.pol.calls[c.pol.name(val)]
            k = {'retype': 1, 'cast': 1, 'simplify': 1}.get(fn)
            if k is not None and c.pol.ty(a[k]) is not d:
                c.bad('type', where, '%s has the type %s' % (what, c.pol.ty(a[k])))


SYMB = {'ADD': '+', 'SUB': '-', 'MUL': '*', 'DIV': '/', 'MOD': '%', 'LSH': '<<', 'RSH': '>>',
        'BAND': '&', 'BOR': '|', 'BXOR': '^', 'EQ': '==', 'NE': '!=', 'LT': '<', 'LE': '<=',
        'GT': '>', 'GE': '>=', 'AND': '&&', 'OR': '||'}
OPTREE = sorted(T_.HANDLES.items())


def nullconst(c, ctx, n, ty):
    """is the operand known to be (True), or not to be (False), a null pointer constant?"""
    u = unqual(ty)
    if u.op not in ('INT', 'UNSIGNED') and not isvoidptr(u):
        return False
    op = and_(sym('op:' + n, 32), con(0x3F0, 32))
    isc = icmp('eq', op, con(c.L.c['CNST'], 32))
    v = leafval(n, ty)
    z = icmp('eq', v, con(0, 32))
    if known(ctx, isc) and known(ctx, z):
        return True
    if known(ctx, neg(isc)) or known(ctx, neg(z)):
        return False
    return None


def known(ctx, cond):
    if cond is True or cond is False:
        return cond
    if ctx.entails(cond):
        return True
    # a fact about the extended value
    d = cond[1] if cond[0] in ('eq', 'ne') else None
    if d is not None:
        for ext in (zext, sext):
            try:
                if ctx.entails((cond[0], ext(d, 64))):
                    return True
            except Exception:
                pass
    return False


@guarded
def binop(r, L, g, fn, s, d):
    s, d = TYPES[s], TYPES[d]
    what = '%s %s %s' % (s, SYMB[g], d)
    c = Case(r, L, fn, [con(L.c[g], 32), L_, R_], {'L': s, 'R': d}, what)
    rty = result_type(g, s, d)
    null = g in ('EQ', 'NE') and (isptr(s) or isptr(d))
    for st, ctx, val, where in c.paths():
        err = c.errors(st)
        ok = rty is not None
        t = rty
        if null and not ok:
            ok = eqok(c, ctx, s, d)
            t = TYPES['int']
            if ok is None:
                c.bad('decided', where, what + ': whether an operand is a null pointer constant '
                      'is not decided', lines(c.pol, st))
                continue
        if ok and err:
            c.bad('accepted', where, what + ' is rejected', lines(c.pol, st))
        elif not ok and not err:
            # the function may hand the decision to itself or to cmptree
            if passed_on(c, val, g):
                continue
            c.bad('rejected', where, what + ' is not diagnosed', lines(c.pol, st))
        if err or not ok:
            continue
        want = sem(g, leafval('L', s), s, leafval('R', d), d)
        value_is(c, st, ctx, val, where, want, t, True, what)


def passed_on(c, val, g):
    """the result is that of the function for the same operands, swapped perhaps"""
    a = single(val)
    if a is None or a[1] not in c.pol.calls:
        return False
    fn, args, w = c.pol.calls[a[1]]
    if fn not in BUILDERS or not is_con(args[0]):
        return False
    k = c.pol.opcode(args[0])
    ops = (args[1], args[2])
    if g in ('EQ', 'NE'):
        return k == g and fn in ('eqtree', 'cmptree') and set(ops) == {L_, R_}
    return k == g and set(ops) == {L_, R_} and fn in dict(OPTREE).values()


def eqok(c, ctx, s, d):
    """are the operands of == comparable? (at least one is a pointer)"""
    if isptr(s) and isptr(d):
        us, ud = unqual(s).to, unqual(d).to
        if unqual_eq(unqual(us), unqual(ud)):
            return True
        if isvoidptr(s) and not isfunc(ud) or isvoidptr(d) and not isfunc(us):
            return True
    r = False
    for p, n, t in ((s, 'R', d), (d, 'L', s)):
        if isptr(p):
            k = nullconst(c, ctx, n, t)
            if k:
                return True
            if k is None:
                r = None
    return r


def node(c, t):
    """(function, arguments) of the call that made the tree t"""
    a = single(t)
    return c.pol.calls[a[1]][:2] if a is not None and a[1] in c.pol.calls else (None, ())


def made(c, st):
    """the calls on a path"""
    return [c.pol.calls[e[1]] for e in st.ev if e[0] == 'call' and e[1] in c.pol.calls]


def stores(c, st, n, off):
    return [e[4] for e in st.ev if e[0] == 'store' and e[1][:2] == ('s', n) and is_con(e[2]) and
            scval(e[2]) == off]


def condtype(c, ctx, s, d):
    """type of e ? s : d; None: not allowed; False: undecided"""
    if isarith(s) and isarith(d):
        return binary(s, d)
    if not isptr(s) and not isptr(d):
        return unqual(s) if unqual(s) is unqual(d) and unqual(s).op in ('STRUCT', 'VOID') else None
    quals = {unqual(t).to.op for t in (s, d) if isptr(t)} & {'CONST', 'VOLATILE'}

    def made(p):
        t = unqual(p)
        for q in sorted(quals):
            t = mkqual(q, t)
        return mkptr(t)
    if isptr(s) and isptr(d):
        us, ud = unqual(s).to, unqual(d).to
        if unqual_eq(unqual(us), unqual(ud)):
            return made(us)
    und = False
    for p, n, t in ((s, 'R', d), (d, 'L', s)):
        if isptr(p):
            k = nullconst(c, ctx, n, t)
            if k:
                return made(unqual(p).to)
            if k is None:
                und = True
    if und:
        return False
    if isptr(s) and isptr(d) and (isvoidptr(s) and not isfunc(unqual(d).to) or
                                  isvoidptr(d) and not isfunc(unqual(s).to)):
        return made(TYPES['void'])
    return None


@guarded
def condtree(r, L, e, s, d):
    e, s, d = TYPES[e], TYPES[s], TYPES[d]
    what = '%s ? %s : %s' % (e, s, d)
    suf = {'INT': 'I', 'UNSIGNED': 'U', 'FLOAT': 'F', 'POINTER': 'P'}
    facts = [icmp('ne', sym('op:E', 32), con(L.c['CNST'] + L.c[x], 32))
             for x in 'FIUP' if x != suf[e.op]]
    c = Case(r, L, 'condtree', [E_, L_, R_], {'E': e, 'L': s, 'R': d}, what, facts=facts)
    for st, ctx, val, where in c.paths():
        err = c.errors(st)
        t = condtype(c, ctx, s, d)
        path = lines(c.pol, st)
        if t is False:
            # a null pointer constant or not: told apart where it matters
            if isvoidptr(s) or isvoidptr(d):
                t = [x for x in (TYPES['void *'], s, d)]
            else:
                c.bad('decided', where, what + ': whether an operand is a null pointer constant '
                      'is not decided', path)
                continue
        if t is None:
            if not err:
                c.bad('rejected', where, what + ' is not diagnosed', path)
            continue
        if err:
            c.bad('accepted', where, what + ' is rejected', path)
            continue
        choice(c, st, ctx, val, where, e, s, d, t, what, path)


def fzero(ctx, n):
    """is the floating constant n known to be other than 0?"""
    for f in ctx.facts:
        if isinstance(f, tuple) and f[0] == 'fcmp' and ('fs', 'D:' + n, 64) in f[2:4]:
            o = f[3] if f[2] == ('fs', 'D:' + n, 64) else f[2]
            try:
                if fconst(o) == 0.0 and f[1] in ('oeq', 'une'):
                    return f[1] == 'une'
            except Undecided:
                pass
    return None


def choice(c, st, ctx, val, where, e, s, d, t, what, path):
    L = c.L
    want = []
    fn, a = node(c, val)
    const = icmp('eq', sym('op:E', 32), con(L.c['CNST'] + L.c[suffix(e)], 32))
    if known(ctx, const):
        k = fzero(ctx, 'E') if isfloat(e) else \
            (lambda z: True if known(ctx, neg(z)) else False if known(ctx, z) else None)(
                icmp('eq', leafval('E', e), con(0, 32)))
        if k is None:
            c.bad('decided', where, what + ': the value of the condition is not looked at', path)
            return
        if fn != 'cast' or a[0] != (L_ if k else R_):
            c.bad('value', where, '%s with a condition that is %s gives %s' % (
                what, 'not 0' if k else '0', show(val)), path)
            return
        got = c.pol.ty(a[1])
    else:
        ok = fn == 'tree' and c.pol.op_of(a[0])[0] == 'COND'
        k = node(c, a[2]) if ok else (None, ())
        if not ok or k[0] != 'cond' or k[1][0] != E_:
            c.bad('tree', where, what + ' makes no COND node of its condition', path)
            return
        got = c.pol.ty(a[1])
        q = node(c, a[3])
        kids = []
        if q[0] == 'tree' and c.pol.op_of(q[1][0])[0] == 'RIGHT':
            for x in q[1][2:4]:
                m = node(c, x)
                kids.append(m[1][0] if m[0] == 'root' else None)
        n = single(val)[1]
        t1 = stores(c, st, n, L.o['tree.u'])
        if len(kids) != 2 or len(t1) != 1:
            c.bad('tree', where, what + ' does not evaluate its operands', path)
            return
        if t1[0] == con(0, 64):
            if got.op != 'VOID' and unqual(got).size:
                c.bad('tree', where, what + ' keeps no value', path)
            if kids != [L_, R_]:
                c.bad('tree', where, what + ' evaluates other operands', path)
        else:
            m = node(c, t1[0])
            if m[0] not in ('genident', 'temporary') or c.pol.ty(m[1][1]) is not unqual(got):
                c.bad('tree', where, '%s keeps its value in a temporary of another type' % what,
                      path)
            for x, y in zip(kids, (L_, R_)):
                f, b = node(c, x) if x is not None else (None, ())
                if f != 'asgn' or b[0] != t1[0] or b[1] != y:
                    c.bad('tree', where, what + ' does not assign its operands to its value',
                          path)
    ts = t if isinstance(t, list) else [t]
    if not any(sametype(got, x) and got.name == x.name or
               sametype(got, x) and not isptr(x) for x in ts):
        c.bad('type', where, '%s has the type %s instead of %s' % (what, got, ts[0]), path)


def plain(r, L, fn, args, types, what, judge, **kw):
    c = Case(r, L, fn, args, types, what, **kw)
    for st, ctx, val, where in c.paths():
        m = judge(c, st, ctx, val)
        if m:
            c.bad('value', where, '%s: %s' % (what, m), lines(c.pol, st))


@guarded
def types_(r, L, x, y):
    x, y = TYPES[x], TYPES[y]

    def tyname(c, val):
        a = single(val)
        return TYPES.get(a[1][2:]) if a and a[1][:2] == 'T:' else None
    plain(r, L, 'binary', [T(x), T(y)], {}, 'the common type of %s and %s' % (x, y),
          lambda c, st, ctx, v: None if tyname(c, v) is not None and
          sametype(tyname(c, v), binary(x, y)) else 'is ' + show(v), transparent={'binary'})


@guarded
def promoted(r, L, x):
    x = TYPES[x]
    plain(r, L, 'promote', [T(x)], {}, 'the promoted type of %s' % x,
          lambda c, st, ctx, v: None if v == T(promote(x)) else 'is ' + show(v),
          transparent={'promote'})


COMPARISONS = CMP + ('AND', 'OR', 'NOT')


@guarded
def conditions(r, L, fn, ty, g):
    """cond() and value() of a tree whose operator is the comparison g (None: is no comparison)"""
    ty = TYPES[ty]
    what = '%s(%s%s)' % (fn, ty, ', %s node' % g if g else '')
    op = and_(sym('op:K', 32), con(0x3F0, 32))

    def rightkid(pol, st, a):
        if a[0] != L_:
            raise Undecided('rightkid() of %s' % show(a[0]))
        return sym('K', 64)
    facts = [icmp('eq', op, con(L.c[g], 32))] if g else \
        [icmp('ne', op, con(L.c[x], 32)) for x in COMPARISONS]
    c = Case(r, L, fn, [L_], {'L': ty, 'K': ty}, what, facts=facts, returns={'rightkid': rightkid})
    for st, ctx, val, where in c.paths():
        path = lines(c.pol, st)
        f, a = node(c, val)
        if fn == 'value':
            if not g or ty.op == 'VOID':
                if val != L_:
                    c.bad('tree', where, 'value() changes a tree that is no comparison', path)
                continue
            if val == L_:
                c.bad('tree', where, 'value() returns a %s node, which is no value' % g, path)
                continue
            ok = f == 'condtree' and a[0] == L_
            for x, n in zip(a[1:3] if ok else (), (1, 0)):
                try:
                    v, t = Den(c.pol, ctx)(x)
                    ok = ok and v == con(n, 32) and suffix(t) == 'I'
                except (Wrong, Undecided):
                    ok = False
            if not ok:
                c.bad('value', where, 'value() does not make 1 and 0 of a comparison', path)
        elif g:
            if val != L_:
                c.bad('tree', where, 'cond() compares a %s node, which is no value' % g, path)
        elif val == L_:
            c.bad('tree', where, 'cond() returns a tree that is no comparison', path)
        else:
            value_is(c, st, ctx, val, where, condval(leafval('L', ty), ty), TYPES['int'], True,
                     what)


def quals(t):
    return {'CONST': {'CONST'}, 'VOLATILE': {'VOLATILE'},
            'CONST+VOLATILE': {'CONST', 'VOLATILE'}}.get(t.op, set())


def assignable(c, ctx, x, n, y):
    """type a value of type y is converted to when it is assigned to an x; None: not allowed;
    False: undecided"""
    x, y = unqual(x), unqual(y)
    if x.op == 'ENUM':
        x = x.to
    if isarith(x) and isarith(y):
        return x
    if x.op == 'STRUCT':
        return x if x is y and x.size else None
    if not isptr(x):
        return None
    if isptr(y):
        a, b = x.to, y.to
        if quals(a) >= quals(b):
            if unqual_eq(unqual(a), unqual(b)) or \
                    isvoidptr(x) or isvoidptr(y):
                return x
            if {unqual(a).op, unqual(b).op} == {'ENUM', 'INT'} and \
                    TYPES['int'] in (unqual(a), unqual(b)):
                return x
    k = nullconst(c, ctx, n, y)
    return x if k else False if k is None else None


@guarded
def assigns(r, L, x, y):
    """assign(): the constraints of simple assignment"""
    x, y = TYPES[x], TYPES[y]
    what = 'assigning a %s to a %s' % (y, x)
    c = Case(r, L, 'assign', [T(x), R_], {'R': y}, what)
    for st, ctx, val, where in c.paths():
        t = assignable(c, ctx, x, 'R', y)
        path = lines(c.pol, st)
        if t is False:
            c.bad('decided', where, what + ': whether the operand is a null pointer constant is '
                  'not decided', path)
        elif t is None:
            if val != con(0, 64):
                c.bad('rejected', where, what + ' is not diagnosed', path)
        elif val == con(0, 64):
            c.bad('accepted', where, what + ' is rejected', path)
        elif not sametype(c.pol.ty(val), t):
            c.bad('type', where, '%s converts to %s' % (what, c.pol.ty(val)), path)


@guarded
def asgntree(r, L, x, y):
    x, y = TYPES[x], TYPES[y]
    what = '%s = %s' % (x, y)
    facts = [icmp('ne', sym('op:L', 32), con(L.c['FIELD'], 32))]
    extra = {}
    for n in ('struct12', 'struct300', 'struct0'):
        for o in range(0, 256, 4):
            extra['Y:' + n, o] = None
    c = Case(r, L, 'asgntree', [con(L.c['ASGN'], 32), L_, R_], {'L': unqual(x), 'R': y}, what,
             facts=facts, maker=lambda *a: Objects(*a, objects={'L': x}))
    for st, ctx, val, where in c.paths():
        path = lines(c.pol, st)
        err = c.errors(st)
        t = assignable(c, ctx, x, 'R', y)
        if t is False:
            c.bad('decided', where, what + ': whether the operand is a null pointer constant is '
                  'not decided', path)
            continue
        ok = t is not None and 'CONST' not in quals(x)
        if not ok:
            if not err:
                c.bad('rejected', where, what + ' is not diagnosed', path)
            continue
        if err:
            c.bad('accepted', where, what + ' is rejected', path)
            continue
        stored(c, st, ctx, val, where, t, y, what, path)


class Objects(TreePolicy):
    def __init__(self, *a, objects=()):
        super().__init__(*a)
        self.objects.update(objects)

    def field(self, eng, st, ins, b, off, size):
        if b[0] == 's' and b[1].startswith('Y:struct'):
            return con(0, 8 * size)            # no members that are const
        return super().field(eng, st, ins, b, off, size)


def stored(c, st, ctx, val, where, t, y, what, path, want=None, dest='lvalue'):
    L = c.L
    fn, a = node(c, val)
    if fn != 'tree':
        c.bad('tree', where, what + ' makes no ASGN node', path)
        return
    g, s = c.pol.op_of(a[0])
    if g == 'RIGHT' and t.op == 'STRUCT':
        f, b = node(c, a[2])
        k = f == 'tree' and c.pol.op_of(b[0])
        dst = node(c, b[3]) if k else (None, ())
        m = single(b[2])[1] if k and single(b[2]) else ''
        if m.endswith('.0.0') and m[:-4] in c.pol.calls and \
                c.pol.calls[m[:-4]][0] in ('cast', 'retype', 'value', 'pointer'):
            m = c.pol.name(c.pol.calls[m[:-4]][1][0]) + '.0.0'
        if k and c.pol.op_of(b[0])[0] == 'CALL' and m == 'R.0.0' and dst[0] == 'lvalue' and \
                dst[1][0] == L_:
            return
        c.bad('tree', where, what + ' does not pass the object to the function called', path)
        return
    if g != 'ASGN' or s != suffix(t) or \
            cval(a[0]) >> 10 not in (0, t.size):
        c.bad('tree', where, '%s makes the node %s+%s of %d bytes' % (what, g, s,
                                                                      cval(a[0]) >> 10), path)
        return
    if not sametype(c.pol.ty(a[1]), t):
        c.bad('type', where, '%s has the type %s' % (what, c.pol.ty(a[1])), path)
    f, b = node(c, a[2])
    if dest == 'lvalue' and (f != 'lvalue' or b[0] != L_) or dest == 'L' and a[2] != L_:
        c.bad('tree', where, what + ' stores to %s' % show(a[2]), path)
        return
    if want is None:
        value_is(c, st, ctx, a[3], where, convert(leafval('R', y), y, t), t, False, what)
    else:
        want(a[3])


@guarded
def bitfield(r, L, k, fty, y):
    """assignment to a bit field of k bits"""
    x, y = TYPES[fty], TYPES[y]
    what = '%s:%d = %s' % (x, k, y)
    o = L.o
    extra = {('L', o['tree.u']): sym('FD', 64), ('FD', o['field.bitsize']): con(k, 16),
             ('FD', o['field.lsb']): con(1, 16), ('FD', o['field.type']): T(x)}
    c = Case(r, L, 'asgntree', [con(L.c['ASGN'], 32), L_, R_], {'L': x, 'R': y}, what,
             facts=[icmp('eq', sym('op:L', 32), con(L.c['FIELD'], 32))], extra=extra)
    for st, ctx, val, where in c.paths():
        path = lines(c.pol, st)
        if c.errors(st):
            c.bad('accepted', where, what + ' is rejected', path)
            continue
        v = convert(leafval('R', y), y, x)
        want = trunc(v, k)
        want = sext(want, 32) if x.op == 'INT' else zext(want, 32)

        def judge(t):
            try:
                got, ty = Den(c.pol, ctx)(t, False)
            except (Wrong, Undecided) as e:
                c.bad('decided', where, '%s: %s' % (what, e), path)
                return
            alt = {want, and_(v, con((1 << k) - 1, 32)) if x.op == 'UNSIGNED' else want}
            if x.op == 'INT':
                alt.add(ashr(scale(v, 1 << (32 - k)), con(32 - k, 32)))
            if x.op == 'INT' and k < 32:
                if bitknown(ctx, v, k, True):
                    alt.add(or_(v, con(-1 << k, 32)))
                if bitknown(ctx, v, k, False):
                    alt |= {zext(trunc(v, k), 32), and_(v, con((1 << k) - 1, 32))}
            if got not in alt:
                c.bad('value', where, '%s has the value %s instead of %s' % (
                    what, txt(got), txt(want)), path)
        stored(c, st, ctx, val, where, x, y, what, path, judge, 'L')


def bitknown(ctx, v, k, isset):
    """is bit k-1 of v known to be set (clear)?"""
    for w in (v, sext(v, 64), zext(v, 64)):
        m = w[1]
        for j in (1 << (k - 1), -(1 << (k - 1)) if k == 32 else 0):
            if not j:
                continue
            t = icmp('ne', and_(w, con(j, m)), con(0, m))
            if known(ctx, t if isset else neg(t)):
                return True
        b = lshr(w, con(k - 1, m))
        t = icmp('ne', and_(b, con(1, m)), con(0, m))
        if known(ctx, t if isset else neg(t)):
            return True
    return False


TOKEN = sym('TOK', 32)


def parsed(**kw):
    """what the functions that read the source return: the operand L"""
    d = dict(gettok=TOKEN, unary=L_, expr=L_, expr1=R_, postfix=lambda p, st, a: a[0],
             expect=con(0, 32), hascall=con(0, 32), warning='done',
             funcname=sym('FUNCNAME', 64))
    d.update(kw)
    return d


def kinds(L):
    return {('kind', L.c['INT']): con(L.c['CHAR'], 8)}


def unary_type(tok, t):
    """type of the unary operator applied to a t; None: not allowed"""
    if tok in '+-':
        return promote(t) if isarith(t) else None
    if tok == '~':
        return promote(t) if isint(t) else None
    if tok == '!':
        return TYPES['int'] if scalar(t) else None


def unary_value(tok, v, t):
    ty = unary_type(tok, t)
    if tok == '!':
        return notval(condval(v, t))
    v = convert(v, t, ty)
    return v if tok == '+' else opval('NEG' if tok == '-' else 'BCOM', suffix(ty), v)


@guarded
def unary(r, L, tok, t):
    t = TYPES[t]
    what = '%s %s' % (tok, t)
    c = Case(r, L, 'unary', [], {'L': t}, what, mem={'t': con(ord(tok), 32)}, returns=parsed())
    ty = unary_type(tok, t)
    for st, ctx, val, where in c.paths():
        if ty is None:
            if not c.errors(st):
                c.bad('rejected', where, what + ' is not diagnosed', lines(c.pol, st))
        elif c.errors(st):
            c.bad('accepted', where, what + ' is rejected', lines(c.pol, st))
        else:
            value_is(c, st, ctx, val, where, unary_value(tok, leafval('L', t), t), ty, True, what)


@guarded
def casts(r, L, d, t):
    """( type-name ) operand"""
    t, d = TYPES[t], TYPES[d]
    what = '(%s) %s' % (d, t)
    u = unqual(d)
    u = u.to if u.op == 'ENUM' else u
    ok = u.op == 'VOID' or scalar(t) and scalar(u) and not (
        isptr(t) and isfloat(u) or isfloat(t) and isptr(u))
    c = Case(r, L, 'unary', [], {'L': t}, what, mem={'t': con(ord('('), 32)},
             returns=parsed(typename=T(d), gettok=con(L.c['INT'], 32)), extra=kinds(L))
    for st, ctx, val, where in c.paths():
        if not ok:
            if not c.errors(st):
                c.bad('rejected', where, what + ' is not diagnosed', lines(c.pol, st))
            continue
        if c.errors(st):
            c.bad('accepted', where, what + ' is rejected', lines(c.pol, st))
            continue
        want = leafval('L', t)
        value_is(c, st, ctx, val, where, want if u.op == 'VOID' else convert(want, t, u), u,
                 u.op == 'VOID', what)
        got = Den(c.pol, ctx).type(val)
        if got is not u:
            c.bad('type', where, '%s has the type %s: %s' % (
                what, got, 'qualified' if unqual(got) is u else 'another'), lines(c.pol, st))


@guarded
def indirection(r, L, tok, t):
    """* and &"""
    t = TYPES[t]
    what = '%s %s' % (tok, t)
    u = unqual(t)
    c = Case(r, L, 'unary', [], {'L': t}, what, mem={'t': con(ord(tok), 32)}, returns=parsed(),
             values={'L'})
    relabel = isptr(t) and u.to.op in ('FUNCTION', 'ARRAY') if tok == '*' else \
        u.op in ('FUNCTION', 'ARRAY')
    for st, ctx, val, where in c.paths():
        path = lines(c.pol, st)
        f, a = node(c, val)
        if relabel:
            want = u.to if tok == '*' else mkptr(t)
            if f != 'retype' or a[0] != L_ or c.pol.ty(a[1]) is not want:
                c.bad('value', where, what + ' is not its operand with the type %s' % want, path)
        elif f != ('rvalue' if tok == '*' else 'lvalue') or a[0] != L_:
            c.bad('value', where, what + (' does not fetch' if tok == '*' else
                                          ' is not the address of') + ' the object', path)
        if tok == '&' and not c.errors(st):
            op = sym('op:' + c.pol.name(val), 32)
            if notaddr(c, ctx, op):
                continue
            marks = [e for e in st.ev if e[0] == 'store' and is_con(e[2]) and
                     scval(e[2]) == L.o['symbol.sclass'] + 4]
            if not marks:
                c.bad('addressed', where, what + ' does not record that the address is taken',
                      path)


def notaddr(c, ctx, op):
    return all(known(ctx, icmp('ne', and_(op, con(0x3F0, 32)), con(c.L.c[k], 32))) or
               known(ctx, icmp('ne', and_(op, con(0x3FF, 32)), con(c.L.c[k] + c.L.c['P'], 32)))
               for k in ('ADDRG', 'ADDRL', 'ADDRF'))


@guarded
def sizeofs(r, L, t, named):
    t = TYPES[t]
    what = 'sizeof %s%s' % (t, ' (the type)' if named else '')
    def gettok(pol, st, a):
        # ( and the name of a type, or the operand
        k = sum(e == ('call', 'gettok') for e in st.ev)
        return con((ord('('), L.c['INT'])[k > 1] if named else L.c['ID'], 32)
    c = Case(r, L, 'unary', [], {'L': t}, what, mem={'t': con(L.c['SIZEOF'], 32)},
             returns=parsed(typename=T(t), gettok=gettok), extra=kinds(L))
    ok = t.op != 'FUNCTION' and t.size
    field = icmp('eq', sym('op:rightkid@1', 32), con(L.c['FIELD'], 32))
    for st, ctx, val, where in c.paths():
        f = not named and any(v[0] == 'rightkid' for v in c.pol.calls.values())
        if c.errors(st):
            if ok and not (f and not known(ctx, neg(field))):
                c.bad('accepted', where, what + ' is rejected', lines(c.pol, st))
            continue
        if not ok:
            c.bad('rejected', where, what + ' is not diagnosed', lines(c.pol, st))
            continue
        value_is(c, st, ctx, val, where, con(t.size, 32), TYPES['unsigned long'], True, what)


@guarded
def increments(r, L, fn, tok):
    """++ and -- before (unary) and after (postfix) their operand"""
    tk = con(L.c[tok], 32)
    what = ('%s x' if fn == 'unary' else 'x %s') % SYMI[tok]
    ty = TYPES['short']
    args, mem, ret = [], {'t': tk}, parsed()
    if fn == 'postfix':
        args, ret = [L_], parsed(gettok=con(ord(';'), 32))
        del ret['postfix']
    c = Case(r, L, fn, args, {'L': ty}, what, mem=mem, returns=ret, engine=UnrollTree)
    for st, ctx, val, where in c.paths():
        f, a = node(c, val)
        path = lines(c.pol, st)
        if fn == 'postfix':
            # the old value, then the assignment, then again the old value
            ok = f == 'tree' and c.pol.op_of(a[0])[0] == 'RIGHT' and a[3] == L_
            x = node(c, a[2]) if ok else (None, ())
            ok = x[0] == 'tree' and c.pol.op_of(x[1][0])[0] == 'RIGHT' and x[1][2] == L_
            if not ok:
                c.bad('value', where, what + ' is not the value x had', path)
                continue
            if {c.pol.ty(a[1]), c.pol.ty(x[1][1])} != {ty}:
                c.bad('type', where, what + ' has another type than x', path)
            f, a = node(c, x[1][3])
        one = None
        if f == 'incr' and a[0] == tk and a[1] == L_:
            try:
                one = Den(c.pol, ctx)(a[2], False)
            except (Wrong, Undecided):
                pass
        if one is None or one[0] != con(1, 32) or one[1] is not TYPES['int']:
            c.bad('value', where, what + ' does not assign x %s 1' % (
                '+' if tok == 'INCR' else '-'), path)


SYMI = {'INCR': '++', 'DECR': '--'}
TOKENS = {'%': 'MOD', '&': 'BAND', '*': 'MUL', '+': 'ADD', '-': 'SUB', '/': 'DIV', '<': 'LT',
          '>': 'GT', '^': 'BXOR', '|': 'BOR', 'ANDAND': 'AND', 'OROR': 'OR', 'LEQ': 'LE',
          'EQL': 'EQ', 'NEQ': 'NE', 'GEQ': 'GE', 'RSHIFT': 'RSH', 'LSHIFT': 'LSH', 'INCR': 'ADD',
          'DECR': 'SUB'}
LEVELS = [['OROR'], ['ANDAND'], ['|'], ['^'], ['&'], ['EQL', 'NEQ'], ['<', '>', 'LEQ', 'GEQ'],
          ['LSHIFT', 'RSHIFT'], ['+', '-'], ['*', '/', '%']]


def code(L, tok):
    return L.c[tok] if tok in L.c else ord(tok)


def table(L, name):
    out = []
    for e in L.table(name):
        out.append(e if isinstance(e, int) else e.val if e.kind == 'int' else 0)
    return out


@guarded
def tables(r, L):
    """which builder makes the tree of each binary operator, with which node, and how strongly the
    operators bind"""
    oper = table(L, 'oper')
    prec = table(L, 'prec')
    for tok, g in sorted(TOKENS.items()):
        k = code(L, tok)
        r.obligations += 2
        if k >= len(oper) or oper[k] != L.c[g]:
            r.add([Finding('table', 'lcc/src/token.h', 'the operator %s makes the node %s' % (
                tok, L.ops.get(oper[k] if k < len(oper) else -1)), ())], 'oper')
        if L.optree.get(k) != HANDLES[g]:
            r.add([Finding('table', 'lcc/src/token.h', 'the tree of the operator %s is made by %s'
                           % (tok, L.optree.get(k)), ())], 'optree')
    binary_ = {code(L, t) for lv in LEVELS for t in lv}
    last = None
    for lv in LEVELS:
        ps = {prec[code(L, t)] for t in lv}
        r.obligations += len(lv)
        if len(ps) > 1 or last is not None and min(ps) <= last or min(ps) < 4:
            r.add([Finding('table', 'lcc/src/token.h', 'the operators %s bind %s' % (
                ' '.join(lv), sorted(ps)), ())], 'prec')
        last = max(ps)
    for k, p in enumerate(prec):
        r.obligations += 1
        if k not in binary_ and p >= 4:
            r.add([Finding('table', 'lcc/src/token.h', 'the token %d is taken for an operator' % k,
                           ())], 'prec')


@guarded
def compound(r, L, tok, x, y):
    """x op= y"""
    x, y = TYPES[x], TYPES[y]
    what = '%s %s= %s' % (x, TOKENS[tok], y)
    V_ = sym('L', 64)
    c = Case(r, L, 'incr', [con(code(L, tok), 32), V_, R_], {'L': x, 'R': y}, what,
             extra={('oper', 4 * i): con(v, 32) for i, v in enumerate(table(L, 'oper'))})
    g = TOKENS[tok]
    for st, ctx, val, where in c.paths():
        f, a = node(c, val)
        path = lines(c.pol, st)
        ok = f == 'asgntree' and c.pol.op_of(a[0])[0] == 'ASGN' and a[1] == V_
        h, b = node(c, a[2]) if ok else (None, ())
        if not ok or h != HANDLES[g] or c.pol.op_of(b[0])[0] != g or b[1:3] != [V_, R_] and \
                tuple(b[1:3]) != (V_, R_):
            c.bad('value', where, what + ' does not assign x %s y to x' % SYMB[g], path)


@guarded
def arguments(r, L, x, y, null=None):
    """a call with one argument of type y for a parameter of type x (None: there is no prototype)"""
    y = TYPES[y]
    x = TYPES[x] if x else None
    what = 'a %s passed %s' % (y, 'for a %s' % x if x else 'without a prototype')
    o = L.o
    f = mkfunc()
    extra = {('T:' + f.name, o['type.u.f.proto']): sym('PROTO', 64),
             ('T:' + f.name, o['type.u.sym']): con(0 if x else 1, 32),
             ('PROTO', 0): T(x) if x else con(0, 64), ('PROTO', 8): con(0, 64)}
    c = Case(r, L, 'call', [sym('F', 64), T(f)],
             {'F': mkptr(f), 'R': y}, what, mem={'t': con(L.c['ID'], 32)},
             extra=extra, returns=parsed(apply='done'), engine=UnrollTree,
             facts=[icmp('ne', addc(sym('PROTO', 64), k), con(0, 64)) for k in (0, 8)] + nullness(L, y, null))
    for st, ctx, val, where in c.paths():
        path = lines(c.pol, st)
        t = promote(y) if not x else assignable(c, ctx, x, 'R', y)
        if t is False:
            c.bad('decided', where, what + ': whether it is a null pointer constant is not '
                  'decided', path)
            continue
        if t is None:
            if not c.errors(st):
                c.bad('rejected', where, what + ' is not diagnosed', path)
            continue
        if c.errors(st):
            c.bad('accepted', where, what + ' is rejected', path)
            continue
        g, a = node(c, val)
        if g != 'calltree' or a[0] != sym('F', 64) or c.pol.ty(a[1]) is not f.to:
            c.bad('tree', where, what + ': no call of the function is made', path)
            continue
        args = a[2]
        g, a = node(c, args)
        if g == 'tree' and c.pol.op_of(a[0])[0] == 'RIGHT':
            first = a[2]
            args = a[3]
            g, a = node(c, args)
        if g != 'tree' or c.pol.op_of(a[0])[0] != 'ARG' or a[3] != con(0, 64):
            c.bad('tree', where, what + ': no argument is passed', path)
            continue
        pt = promote(t)
        s = c.pol.op_of(a[0])[1]
        if s != suffix(pt) or cval(a[0]) >> 10 not in (0, pt.size):
            c.bad('tree', where, '%s makes the node ARG+%s of %d bytes' % (
                what, s, cval(a[0]) >> 10), path)
            continue
        value_is(c, st, ctx, a[2], where, convert(convert(leafval('R', y), y, t), t, pt), pt,
                 False, what)


def nullness(L, y, null):
    """facts that say that the operand R, a y, is a null pointer constant, or not a constant"""
    y = unqual(y)
    if null is None:
        return []
    ops = [sym('op:' + n, 32) for n in ('R', 'value@R')]
    if not null:
        return [icmp('ne', and_(op, con(0x3F0, 32)), con(L.c['CNST'], 32)) for op in ops]
    return [icmp('eq', op, con(L.c['CNST'] + L.c[suffix(y)], 32)) for op in ops] + \
        [icmp('eq', and_(op, con(0x3F0, 32)), con(L.c['CNST'], 32)) for op in ops] + [icmp('eq', sym('V:R', 32), con(0, 32))]


def mkfunc():
    if 'int (int)' not in TYPES:
        TYPES['int (int)'] = Ty('int (int)', 'FUNCTION', 0, TYPES['int'])
    return TYPES['int (int)']


@guarded
def results(r, L, x):
    """the value of a call of a function that returns an x"""
    x = TYPES[x]
    what = 'a call of a function returning a ' + x.name
    c = Case(r, L, 'calltree', [sym('F', 64), T(x), sym('ARGS', 64), con(0, 64)],
             {'F': mkptr(mkfunc()), 'ARGS': TYPES['void']}, what,
             facts=[icmp('ne', sym('ARGS', 64), con(0, 64))])
    for st, ctx, val, where in c.paths():
        if c.errors(st):
            c.bad('accepted', where, what + ' is rejected')
            continue
        ty = x.to if x.op == 'ENUM' else x
        want = Den(c.pol, ctx).leaf('call', promote(ty))
        if x.op in ('INT', 'UNSIGNED', 'ENUM'):
            want = narrow(want, ty)
        calls = [v for v in made(c, st) if v[0] == 'tree' and c.pol.op_of(v[1][0])[0] == 'CALL']
        if len(calls) != 1:
            c.bad('tree', where, what + ' makes %d CALL nodes' % len(calls), lines(c.pol, st))
            continue
        g, b = node(c, calls[0][1][2])
        if g != 'tree' or c.pol.op_of(b[0])[0] != 'RIGHT' or b[2] != sym('ARGS', 64) or \
                b[3] != sym('F', 64):
            c.bad('tree', where, what + ' does not evaluate its arguments before the call',
                  lines(c.pol, st))
        value_is(c, st, ctx, val, where, want, x, False, what)


FUNCTIONS = ['unary', 'postfix', 'incr', 'call', 'calltree', 'cast', 'promote', 'binary', 'cond', 'value', 'assign', 'asgntree', 'condtree'] + \
    [fn for g, fn in OPTREE]
RULE = ('on every path through the function for these operand types the tree made has the type '
        'C gives the expression and, with its conversions, its value; operands C rejects are '
        'diagnosed and the others are not')


def C36(tier):
    r = Result()
    L = lcc()
    n = 0
    for s in ARITH + PTRS + ('enum',):
        for d in ARITH + ('int *', 'void *', 'func *', 'struct12 *'):
            us, ud = TYPES[s] if s in TYPES else None, TYPES[d]
            if (isptr(us) and isfloat(ud)) or (isfloat(us) and isptr(ud)):
                continue
            cast(r, L, s, d)
            n += 1
    for g, fn in OPTREE:
        for s in ARITH + PTRS + ODD:
            for d in ARITH + PTRS + ODD:
                binop(r, L, g, fn, s, d)
                n += 1
    for e in ('int', 'unsigned', 'float', 'int *'):
        for s in ARITH + PTRS + ODD:
            for d in ARITH + PTRS + ODD:
                if e == 'int' or s == 'int':
                    condtree(r, L, e, s, d)
                    n += 1
    for s in ARITH:
        promoted(r, L, s)
        for d in ARITH:
            types_(r, L, s, d)
    for t in ('int', 'unsigned', 'float', 'char', 'int *', 'func *', 'void'):
        for fn in ('value', 'cond'):
            if (t, fn) != ('void', 'cond'):
                for g in (None,) + COMPARISONS:
                    conditions(r, L, fn, t, g)
    for s in ARITH + PTRS + ODD + ('enum',):
        for d in ARITH + PTRS + ODD:
            assigns(r, L, s, d)
            asgntree(r, L, s, d)
            n += 1
    for s, d in (('struct300', 'struct12'), ('struct12', 'struct300'), ('struct300', 'struct300'),
                 ('struct300 *', 'struct12 *'), ('struct12 *', 'struct300 *')):
        assigns(r, L, s, d)
        asgntree(r, L, s, d)
        condtree(r, L, 'int', s, d)
        n += 1
    for g, fn in OPTREE:
        for s in ('struct300 *', 'int', 'unsigned char'):
            for d in ('struct300 *', 'int', 'unsigned char'):
                if 'struct300 *' in (s, d):
                    binop(r, L, g, fn, s, d)
                    n += 1
    for s in ('const int', 'const int * const'):
        asgntree(r, L, s, unqual(TYPES[s]).name)
    for f in ('int', 'unsigned'):
        for d in ('int', 'unsigned', 'float', 'char'):
            for k in range(1, 33):
                bitfield(r, L, k, f, d)
                n += 1
    more = ARITH + PTRS + ODD + ('enum',)
    for t in more:
        for tok in '+-~!':
            if t != 'enum':
                unary(r, L, tok, t)
                n += 1
        for d in ARITH + ('void', 'int *', 'void *', 'struct12', 'enum', 'const int',
                          'const unsigned char', 'volatile float', 'const int * const'):
            casts(r, L, d, t)
            n += 1
        if isptr(TYPES[t]):
            indirection(r, L, '*', t)
        if t not in ODD:
            indirection(r, L, '&', t)
        for named in (0, 1):
            sizeofs(r, L, t, named)
    for t in ('struct300', 'enum'):
        for named in (0, 1):
            sizeofs(r, L, t, named)
    for t in ('func', 'int [3]'):
        indirection(r, L, '&', t)
        sizeofs(r, L, t, 1)
    for fn in ('unary', 'postfix'):
        for tok in SYMI:
            increments(r, L, fn, tok)
    tables(r, L)
    for tok in TOKENS:
        if tok in SYMI or LEVELS[5].count(tok) == 0 and tok not in ('<', '>', 'LEQ', 'GEQ',
                                                                   'ANDAND', 'OROR'):
            compound(r, L, tok, 'short', 'float')
            n += 1
    for y in ARITH + PTRS:
        for x in (None,) + ARITH + PTRS:
            if x in PTRS and (y == 'void *' or isint(TYPES[y])):
                if y in ('int', 'unsigned', 'void *'):
                    arguments(r, L, x, y, True)
                arguments(r, L, x, y, False)
            else:
                arguments(r, L, x, y)
            n += 1
    for x in ARITH + PTRS + ('enum', 'void'):
        results(r, L, x)
    r.cover['combinations'] = n
    r.cover['functions'] = sorted(set(FUNCTIONS))
    r.rule = RULE
    return r
