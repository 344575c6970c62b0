"""Typed expression trees: what the tree builders of rcc (lcc/src/enode.c, expr.c) return for
operands of given types, by abstract interpretation, as a value with a type.

Types are named objects whose fields (operator, size, referenced type) are known; operands are
unknown trees of a given type.  Calls that build trees stay symbolic and get the meaning of the C
construct (conversion, operator); each builder is analysed against that same meaning, so the
meaning of the whole follows by induction over the depth of the calls."""
import re
import build
import llir
from engine import *
from terms import *
import lccfold
from lccfold import consts, TY, SUFF, BIN, CMP, UN, CV, OTHER

SRCS = ['lcc/src/enode.c', 'lcc/src/expr.c', 'lcc/src/types.c']


class Ty:
    def __init__(self, name, op, size, to=None, align=None):
        self.name, self.op, self.size, self.to = name, op, size, to
        self.align = size if align is None else align

    def __repr__(self):
        return self.name


def universe():
    t = {}

    def a(name, op, size, to=None, align=None):
        t[name] = Ty(name, op, size, t[to] if to else None, align)
    for n, s in (('char', 1), ('signed char', 1), ('short', 2), ('int', 4), ('long', 4),
                 ('long long', 4)):
        a(n, 'INT', s)
    for n, s in (('unsigned char', 1), ('unsigned short', 2), ('unsigned', 4),
                 ('unsigned long', 4), ('unsigned long long', 4)):
        a(n, 'UNSIGNED', s)
    for n in ('float', 'double', 'long double'):
        a(n, 'FLOAT', 4)
    a('void', 'VOID', 0)
    a('enum', 'ENUM', 4, 'int')
    a('enum2', 'ENUM', 4, 'int')
    a('int [3]', 'ARRAY', 12, 'int', 4)
    a('struct12', 'STRUCT', 12, None, 4)
    a('struct300', 'STRUCT', 300, None, 4)
    a('struct0', 'STRUCT', 0)
    a('func', 'FUNCTION', 0, 'int')
    a('const int', 'CONST', 4, 'int')
    a('const unsigned', 'CONST', 4, 'unsigned')
    a('const float', 'CONST', 4, 'float')
    a('const unsigned char', 'CONST', 1, 'unsigned char')
    a('volatile float', 'VOLATILE', 4, 'float')
    for p in ('char', 'int', 'void', 'struct12', 'struct300', 'struct0', 'func', 'const int'):
        a(p + ' *', 'POINTER', 4, p)
    a('const int * const', 'CONST', 4, 'const int *')
    return t


TYPES = universe()
GLOBALS = {'chartype': 'char', 'signedchar': 'signed char', 'shorttype': 'short', 'inttype': 'int',
           'longtype': 'long', 'longlong': 'long long', 'unsignedchar': 'unsigned char',
           'unsignedshort': 'unsigned short', 'unsignedtype': 'unsigned',
           'unsignedlong': 'unsigned long', 'unsignedlonglong': 'unsigned long long',
           'floattype': 'float', 'doubletype': 'double', 'longdouble': 'long double',
           'voidtype': 'void', 'voidptype': 'void *', 'charptype': 'char *',
           'unsignedptr': 'unsigned', 'signedptr': 'int'}


def unqual(t):
    return t.to if t.op in ('CONST', 'VOLATILE', 'CONST+VOLATILE') else t


def isint(t):
    return unqual(t).op in ('INT', 'UNSIGNED')


def isfloat(t):
    return unqual(t).op == 'FLOAT'


def isarith(t):
    return unqual(t).op in ('INT', 'UNSIGNED', 'FLOAT')


def isptr(t):
    return unqual(t).op == 'POINTER'


def isfunc(t):
    return unqual(t).op == 'FUNCTION'


def isvoidptr(t):
    return isptr(t) and unqual(unqual(t).to).op == 'VOID'


def promote(t):
    t = unqual(t)
    if t.op == 'ENUM' or t.op in ('INT', 'UNSIGNED') and t.size < 4:
        return TYPES['int']
    return t


RANK = ['long double', 'double', 'float', 'unsigned long long', 'long long', 'unsigned long']


def binary(x, y):
    """the usual arithmetic conversions (all integer types from int on have 32 bits)"""
    names = {unqual(x).name, unqual(y).name}
    for r in RANK:
        if r in names:
            return TYPES[r]
    if names >= {'long', 'unsigned'}:
        return TYPES['unsigned long']
    for r in ('long', 'unsigned'):
        if r in names:
            return TYPES[r]
    return TYPES['int']


def suffix(t):
    return {'INT': 'I', 'UNSIGNED': 'U', 'FLOAT': 'F', 'POINTER': 'P', 'ENUM': 'I', 'VOID': 'V',
            'STRUCT': 'B', 'FUNCTION': 'P'}.get(unqual(t).op)


def key(v):
    return show(v) if v[0] == 'l' else repr(v)


def cvfn(t):
    """a float converted to an integer narrower than int"""
    return t


def convert(v, s, d):
    """value v of type s as a value of type d"""
    s, d = unqual(s), unqual(d)
    if d.op in ('VOID', 'STRUCT') or s.op in ('STRUCT', 'VOID'):
        return v
    if s.op == 'FLOAT' and d.op == 'FLOAT':
        return v                                # all floating types have one format
    if d.op == 'FLOAT':
        if s.op == 'POINTER':
            raise Undecided('a pointer converted to a floating type')
        v = bits(v)
        if is_con(v):
            return ('fc2', float(cval(v) if s.op == 'UNSIGNED' else scval(v)))
        return ('cvuf' if s.op == 'UNSIGNED' and s.size == 4 else 'cvif', v)
    if s.op == 'FLOAT':
        if d.op == 'POINTER':
            raise Undecided('a floating value converted to a pointer')
        return narrow(sym('cvf%s(%s)' % ('u' if d.op == 'UNSIGNED' and d.size == 4 else 'i',
                                         key(v)), 32), d)
    return narrow(bits(v), d)


def narrow(t, d):
    d = unqual(d)
    if d.size >= 4 or d.op not in ('INT', 'UNSIGNED'):
        return t
    t = trunc(t, 8 * d.size)
    return sext(t, 32) if d.op == 'INT' else zext(t, 32)


def bits(v):
    if v[0] != 'l':
        raise Undecided('a floating value used as an integer')
    return v


class Undecided(Exception):
    pass


class Lcc:
    """the tree builders, linked"""
    OPAQUE = {'value', 'retype', 'pointer', 'cast', 'simplify', 'tree', 'cnsttree', 'consttree',
              'cond', 'condtree', 'root', 'error', 'warning', 'typeerror', 'nullcall', 'idtree',
              'rvalue', 'lvalue', 'genident', 'asgn', 'asgntree', 'eqtype', 'ptr', 'qual',
              'hascall', 'addrof', 'temporary', 'array', 'func', 'deref', 'call', 'field', 'expr',
              'unary', 'primary', 'postfix', 'shtree', 'bittree', 'calltree', 'binary', 'fieldref',
              'incr', 'gettok', 'expect', 'rightkid', 'nullcheck', 'eqtree', 'atop', 'expr1',
              'expr2', 'expr3', 'addtree', 'subtree', 'multree', 'cmptree', 'andtree', 'promote',
              'ttob', 'istypename', 'typename', 'funcname'}
    KEEP = {'assign', 'andtree', 'condtree'}

    def __init__(self):
        gens = BIN + CMP + UN + CV + OTHER + ('ASGN', 'ARG', 'RET')
        tys = ['INT', 'UNSIGNED', 'FLOAT', 'POINTER', 'ENUM', 'VOID', 'STRUCT', 'UNION', 'FUNCTION',
               'ARRAY', 'CONST', 'VOLATILE', 'CONST+VOLATILE']
        toks = ['ANDAND', 'OROR', 'LEQ', 'EQL', 'NEQ', 'GEQ', 'RSHIFT', 'LSHIFT', 'INCR', 'DECR',
                'SIZEOF', 'TYPECODE', 'ID', 'REGISTER', 'CHAR']
        off = ['offsetof(struct tree, %s)' % f for f in ('op', 'type', 'kids', 'u')] + \
              ['offsetof(struct type, %s)' % f for f in ('op', 'type', 'size', 'align', 'u.sym',
                                                         'u.f.proto')] + \
              ['offsetof(struct symbol, %s)' % f for f in ('u.limits.min', 'u.limits.max', 'type',
                                                           'sclass', 'u.value')] + \
              ['offsetof(struct field, %s)' % f for f in ('bitsize', 'lsb', 'type', 'offset')]
        self.c = consts(list(gens) + list(SUFF) + ['B', 'V'] + tys + toks + off)
        self.o = {re.sub(r'offsetof\(struct (\w+), (.*)\)', r'\1.\2', k): v
                  for k, v in self.c.items() if k.startswith('offsetof')}
        self.ops = {}
        for g in gens:
            for s in SUFF + 'BV':
                self.ops[self.c[g] + self.c[s]] = (g, s)
            self.ops[self.c[g]] = (g, '')
        text = build.program(SRCS, keep=sorted(self.OPAQUE | self.KEEP), tag='tree')
        names = set(re.findall(r'(?m)^define [^@\n]*@([-\w.$]+)\(', text))
        self.names = names
        text = build.noinline(text, names & self.OPAQUE)
        self.mod = llir.Module(build.opt(text, build.INLINE.replace('globaldce,', ''),
                                         build.OPTARGS), SRCS[0])
        self.optree = {i: e.name for i, e in enumerate(self.table('optree'))
                       if isinstance(e, llir.GlobalRef)}

    def table(self, name):
        g = self.mod.globals.get(name)
        if g is None or g.init is None or g.init.kind not in ('agg', 'str'):
            raise Anchor('table %s not found' % name)
        return list(g.init.val)


class TreeEngine(Engine):
    MAXSTATES = 20000

    def refine_cmp(self, st, c):
        if isinstance(c, tuple) and c[0] in ('eq', 'ne') and c[1][1] == 64:
            names = {}
            for a, k in c[1][3]:
                if a[0] == 's' and a[1][:2] == 'T:':
                    names[a[1]] = k
                else:
                    return super().refine_cmp(st, c)
            if len(names) == 2 or len(names) == 1 and c[1][2] == 0:
                return c[0] == 'ne'
        return super().refine_cmp(st, c)


class UnrollTree(TreeEngine):
    """follows loops around (their operands are given)"""
    MAXSTATES = 4000

    def is_cut(self, b):
        return True


def T(t):
    return sym('T:' + t.name, 64)


class TreePolicy(Policy):
    def __init__(self, L, types, transparent=()):
        super().__init__(L.mod)
        self.L = L
        self.types = types            # leaf -> Ty
        self.transparent = set(transparent)
        self.calls = {}
        self.rets = []
        self.extra = {}               # (name, offset) -> term
        self.objects = {}             # leaf -> its type, qualified
        self.returns = {}             # function -> what a call of it returns
        self.values = set()           # leaves that are no comparisons

    def event_key(self, st):
        return st.path

    def store_filter(self, eng, st, ins, b, off, size, val):
        if not (b[0] == 'b' and b[1] == 'alloca'):
            st.ev += (('store', b, off, size, val, self.mod.where(ins)),)
        return True

    def load_hook(self, eng, st, ins, b, off, size):
        t = self.field(eng, st, ins, b, off, size)
        if t is not None and not isinstance(t, bool) and t[0] == 'l' and t[1] == 64 and single(t):
            eng.ptr_atoms.add(single(t))
        return t

    def field(self, eng, st, ins, b, off, size):
        L = self.L
        if not is_con(off):
            return None
        o = scval(off)
        if b[0] == 'b' and b[1] == 'g':
            n = b[2]
            if n in GLOBALS and o == 0:
                return T(TYPES[GLOBALS[n]])
            if n in ('YYnull', 'YYcheck'):
                return con(0, 64)          # options -n and such
            if n == 'optree':
                return sym('optree[%d]' % (o // 8), 64)
            if n == 'IR':
                return sym('IR', 64)
            if n == 'events':
                return con(0, 64)          # options of a profiler
            return self.given(n, o, size)
        if b[0] != 's':
            return None
        n = b[1]
        if (n, o) in self.extra:
            return self.given(n, o, size)
        if n.startswith('T:'):
            t = TYPES.get(n[2:])
            if t is None:
                raise Incomplete('%s: type %s' % (self.mod.where(ins), n))
            if o == L.o['type.op']:
                return con(L.c[t.op], 32)
            if o == L.o['type.size']:
                return con(t.size, 32)
            if o == L.o['type.align']:
                return con(t.align, 32)
            if o == L.o['type.type']:
                return T(t.to) if t.to else con(0, 64)
            if o == L.o['type.u.sym']:
                return sym('Y:' + t.name, 64)
            return None
        if n.startswith('Y:') and n[2:] in TYPES:
            t = unqual(TYPES[n[2:]])
            bb = 8 * t.size
            if t.op == 'INT':
                if o == L.o['symbol.u.limits.max']:
                    return con((1 << (bb - 1)) - 1, 64)
                if o == L.o['symbol.u.limits.min']:
                    return con(-(1 << (bb - 1)), 64)
            if t.op == 'UNSIGNED' and o == L.o['symbol.u.limits.max']:
                return con((1 << bb) - 1, 64)
            return None
        t = self.type_of(st, n)
        if t is None:
            if re.search(r'\.[01]$', n):          # an operand of an operand
                for k in (0, 1):
                    if o == L.o['tree.kids'] + 8 * k:
                        return sym('%s.%d' % (n, k), 64)
                if o == L.o['tree.op']:
                    return sym('op:' + n, 32)
            return None
        if o == L.o['tree.type']:
            return T(t)
        if o == L.o['tree.op']:
            if n in self.calls and self.calls[n][0] == 'tree':
                return self.calls[n][1][0]
            t_ = sym('op:' + n, 32)
            if n in self.calls and self.calls[n][0] in ('lvalue', 'cast'):
                st.ctx.assume(icmp('ne', t_, con(L.c['FIELD'], 32)))
            return t_
        for k in (0, 1):
            if o == L.o['tree.kids'] + 8 * k:
                if n in self.calls and self.calls[n][0] == 'tree':
                    return self.calls[n][1][2 + k]
                return sym('%s.%d' % (n, k), 64)
        if o == L.o['tree.u']:
            u = unqual(t)
            if ins.ty == llir.DOUBLE:
                return ('fs', ('D:' if u.op == 'FLOAT' else 'DI:') + n, 64)
            if u.op == 'FLOAT':
                return None
            if n in self.calls and u.op in ('INT', 'UNSIGNED'):
                try:
                    v = Den(self)(sym(n, 64))[0]
                except (Wrong, Undecided):
                    v = None
                if v is not None and v[0] == 'l':
                    return (sext if u.op == 'INT' else zext)(v, 64)
            if u.op in ('INT', 'ENUM'):
                return sext(narrow(sym('V:' + n, 32), u), 64)
            if u.op in ('UNSIGNED', 'POINTER'):
                return zext(narrow(sym('V:' + n, 32), u), 64)
        return None

    def given(self, n, o, size):
        v = self.extra.get((n, o))
        if v is not None and v[0] == 'l' and v[1] > 8 * size:
            v = trunc(v, 8 * size)
        return v

    def type_of(self, st, n):
        """type of the tree n"""
        if n in self.types:
            return self.types[n]
        if n in self.calls:
            fn, args, w = self.calls[n]
            k = {'simplify': 1, 'tree': 1, 'cast': 1, 'retype': 1, 'cnsttree': 0,
                 'consttree': 1}.get(fn)
            if k is not None:
                return self.ty(args[k])
            if fn in ('value', 'pointer', 'rightkid'):
                return self.type_of(st, self.name(args[0]))
            if fn in ('cond', 'andtree', 'cmptree', 'eqtree') or \
                    fn in BUILDERS and self.opcode(args[0]) in CMP + ('AND', 'OR'):
                return TYPES['int']
            if fn == 'lvalue':
                return mkptr(self.lvtype(self.name(args[0])))
            if fn == 'root':
                return TYPES['void']
            if fn == 'condtree':
                return binary(*(promote(self.type_of(st, self.name(a))) for a in args[1:3]))
            if fn in ('addtree', 'subtree', 'multree', 'bittree', 'shtree'):
                op = self.opcode(args[0])
                x, y = (self.type_of(st, self.name(a)) for a in args[1:3])
                r = result_type(op, x, y)
                if r is None:
                    raise Undecided('operator %s for %s and %s' % (op, x, y))
                return r
        return None

    def op_of(self, t):
        if not is_con(t):
            raise Undecided('operator ' + show(t))
        k = self.L.ops.get(cval(t) & 0x3FF)
        if k is None:
            raise Undecided('operator %d' % cval(t))
        return k

    def lvtype(self, n):
        """type of the object the tree n denotes"""
        return self.objects.get(n) or self.type_of(None, n)

    def opcode(self, t):
        return self.op_of(t)[0]

    def name(self, t):
        a = single(t)
        if a is None or a[0] != 's':
            raise Undecided('%s is no tree' % show(t))
        return a[1]

    def ty(self, t):
        a = single(t)
        if a is None or a[0] != 's' or a[1][2:] not in TYPES:
            raise Undecided('%s is no type' % show(t))
        return TYPES[a[1][2:]]

    def call(self, eng, st, ins, name, args):
        r = self.call_(eng, st, ins, name, args)
        if isinstance(r, tuple) and r[0] == 'l' and r[1] == 64 and single(r):
            eng.ptr_atoms.add(single(r))
        return r

    def call_(self, eng, st, ins, name, args):
        n = name.split('.')[0] if name else None
        if n in ('__assert_fail', 'abort'):
            return 'stop'
        if n in ('error', 'typeerror'):
            st.ev += (('error', self.mod.where(ins)),)
            return 'done'
        if n == 'warning':
            return 'done'
        if n == 'ttob':
            t = self.ty(args[0])
            return con(self.L.c[suffix(t)] + (t.size << 10), 32)
        if n == 'promote' and n not in self.transparent:
            return T(promote(self.ty(args[0])))
        if n == 'binary' and n not in self.transparent:
            return T(binary(self.ty(args[0]), self.ty(args[1])))
        if n == 'eqtype':
            a, b = self.ty(args[0]), self.ty(args[1])
            return con(int(unqual_eq(a, b)), 32)
        if n == 'pointer' and n not in self.transparent:
            t = self.type_of(st, self.name(args[0]))
            if t is not None and unqual(t).op not in ('ARRAY', 'FUNCTION'):
                return args[0]
        if n == 'deref':
            t = unqual(self.ty(args[0])).to
            return T(unqual(t).to if unqual(t).op == 'ENUM' else t)
        if n == 'ptr':
            return T(mkptr(self.ty(args[0])))
        if n == 'atop':
            return T(mkptr(self.ty(args[0]).to))
        if n == 'qual':
            q = {self.L.c[k]: k for k in ('CONST', 'VOLATILE')}.get(
                cval(args[0]) if is_con(args[0]) else None)
            if q is None:
                raise Incomplete('%s: a qualifier' % self.mod.where(ins))
            return T(mkqual(q, self.ty(args[1])))
        if n is None:
            a = single(eng.value(st, ins.x['callee']))
            m = re.match(r'optree\[(\d+)\]$', a[1]) if a and a[0] == 's' else None
            if not m:
                raise Incomplete('indirect call at ' + self.mod.where(ins))
            n = self.L.optree.get(int(m.group(1)))
            if n is None:
                raise Incomplete('%s: no function in the table of operators'
                                 % self.mod.where(ins))
            st.ev += (('optree', int(m.group(1)), args[0], self.mod.where(ins)),)
        if n in self.returns:
            v = self.returns[n]
            st.ev += (('call', n),)
            return v(self, st, args) if callable(v) else v
        if n in self.L.OPAQUE:
            key = '%s@%d' % (n, len(self.calls) + 1)
            if n == 'value' and self.name(args[0]) in self.types:
                key = 'value@' + self.name(args[0])
            self.calls[key] = (n, args, self.mod.where(ins))
            st.ev += (('call', key),)
            w = 64 if ins.ty == llir.PTR else None
            if w is None:
                if ins.ty == llir.VOID:
                    return 'done'
                return sym(key, ins.ty[1])
            t = sym(key, 64)
            eng.ptr_atoms.add(single(t))
            return t
        if n in ('memset', 'memcpy', 'memmove', 'llvm'):
            return None
        raise Incomplete('call of %s at %s' % (name, self.mod.where(ins)))

    def ret(self, eng, st, ins, val):
        self.rets.append((st, val, self.mod.where(ins)))


def unqual_eq(a, b):
    """compatible types (of the few there are)"""
    if a is b:
        return True
    if a.op == b.op and a.op in ('POINTER', 'CONST', 'VOLATILE'):
        return unqual_eq(a.to, b.to)
    return False


def compatible(x, y):
    return isptr(x) and isptr(y) and not isfunc(unqual(x).to) and not isfunc(unqual(y).to) and \
        unqual_eq(unqual(unqual(x).to), unqual(unqual(y).to))


def result_type(g, x, y):
    """type of x g y, or None if the operands are not allowed"""
    ux, uy = unqual(x), unqual(y)
    if g in ('ADD', 'SUB') and (isptr(x) or isptr(y)):
        if isptr(x) and isptr(y):
            return TYPES['long'] if g == 'SUB' and compatible(x, y) and \
                unqual(ux.to).size else None
        p, i = (x, y) if isptr(x) else (y, x)
        if not isint(i) or isfunc(unqual(p).to) or unqual(unqual(p).to).size == 0 or \
                g == 'SUB' and not isptr(x):
            return None
        return unqual(p)
    if g in ('ADD', 'SUB', 'MUL', 'DIV'):
        return binary(x, y) if isarith(x) and isarith(y) else None
    if g in ('MOD', 'BAND', 'BOR', 'BXOR'):
        return binary(x, y) if isint(x) and isint(y) else None
    if g in ('LSH', 'RSH'):
        return promote(x) if isint(x) and isint(y) else None
    if g in CMP:
        if isarith(x) and isarith(y) or compatible(x, y):
            return TYPES['int']
        return None
    if g in ('AND', 'OR'):
        return TYPES['int'] if scalar(x) and scalar(y) else None
    return None





def scalar(x):
    return unqual(x).op in ('INT', 'UNSIGNED', 'FLOAT', 'POINTER', 'ENUM')


class Wrong(Exception):
    """a tree that does not mean what it should"""


def mkptr(t):
    n = t.name + (' *' if not t.name.endswith('*') else '*')
    if n not in TYPES:
        TYPES[n] = Ty(n, 'POINTER', 4, t)
    return TYPES[n]


def mkqual(q, t):
    if t.op == q or t.op == 'CONST+VOLATILE':
        raise Wrong('a type is qualified twice')
    if t.op in ('CONST', 'VOLATILE'):
        n, op, t = 'const volatile ' + t.to.name, 'CONST+VOLATILE', t.to
    else:
        n, op = q.lower() + ' ' + t.name, q
    if n not in TYPES:
        TYPES[n] = Ty(n, op, t.size, t, t.align)
    return TYPES[n]


def isbool(v):
    a = single(v) if v[0] == 'l' else None
    return v[0] == 'l' and (is_con(v) and cval(v) in (0, 1) or
                            a is not None and a[0] == 's' and a[1][:2] == 'B:')


def ordered(a, b):
    return sorted((a, b), key=key)


def opval(g, s, a, b=None):
    if s == 'F':
        if g == 'NEG':
            return ('fneg2', a)
        if g in ('ADD', 'MUL'):
            a, b = ordered(a, b)
        if g not in ('ADD', 'SUB', 'MUL', 'DIV'):
            raise Undecided('%s of floating values' % g)
        return fcanon(('fop2', g, a, b))
    a = bits(a)
    if g == 'NEG':
        return scale(a, -1)
    if g == 'BCOM':
        return addc(scale(a, -1), -1)
    b = bits(b)
    if g in ('ADD', 'SUB'):
        return add(a, b, 1 if g == 'ADD' else -1)
    if g == 'MUL':
        return mul(a, b)
    if g in ('BAND', 'BOR', 'BXOR'):
        return {'BAND': and_, 'BOR': or_, 'BXOR': xor_}[g](a, b)
    if g == 'LSH':
        return shl(a, b)
    if g == 'RSH':
        return (ashr if s == 'I' else lshr)(a, b)
    if g in ('DIV', 'MOD'):
        return sym('%s%s(%s, %s)' % (g, s, key(a), key(b)), 32)
    raise Undecided('operator ' + g)


def fcanon(v):
    """2*cvif(u>>1) + cvif(u&1) is the value of u, unsigned"""
    if v[:2] == ('fop2', 'ADD'):
        for x, y in ((v[2], v[3]), (v[3], v[2])):
            if x[:2] == ('fop2', 'MUL') and y[0] == 'cvif':
                for two, h in ((x[2], x[3]), (x[3], x[2])):
                    if two == ('fc2', 2.0) and h[0] == 'cvif':
                        a = single(y[1])
                        for u in ([y[1]] if a is None else [t for t in a[3:] if t[0] == 'l']):
                            if h[1] == lshr(u, con(1, 32)) and y[1] == and_(u, con(1, 32)):
                                return ('cvuf', u)
    return v


def cmpval(g, s, a, b):
    if g in ('GT', 'GE'):
        g, a, b = {'GT': 'LT', 'GE': 'LE'}[g], b, a
    if g in ('EQ', 'NE'):
        a, b = ordered(a, b)
        if s != 'F':
            s = 'I'
            for x, y in ((a, b), (b, a)):
                if y == con(0, 32) and isbool(x):
                    return x if g == 'NE' else notval(x)
    if s == 'P':
        s = 'U'
    return sym('B:%s%s(%s, %s)' % (g, s, key(a), key(b)), 32)


def notval(a):
    if is_con(a):
        return con(int(cval(a) == 0), 32)
    return sym('B:NOT(%s)' % key(a), 32)


def condval(v, t):
    t = unqual(t)
    if isbool(v):
        return v
    if t.op == 'FLOAT':
        return cmpval('NE', 'F', v, ('fc2', 0.0))
    return cmpval('NE', 'I', bits(v), con(0, 32))


def ite(c, a, b):
    if a == con(1, 32) and b == con(0, 32):
        return c
    if a == b:
        return a
    # float to unsigned
    x = single(c)
    if x and x[1].startswith('B:LEF(') and a[0] == 'l':
        m = single(b) if b[0] == 'l' else None
        if m and m[1].startswith('cvfi(') and m[0] == 's':
            v = m[1][5:-1]
            two31 = ('fc2', 2147483648.0)
            if x[1] == 'B:LEF(%r, %s)' % (two31, v) and \
                    a == addc(sym("cvfi(%s)" % CVSUB.get(v, '?'), 32), 1 << 31):
                return sym('cvfu(%s)' % v, 32)
    if a[0] == 'l' and b[0] == 'l':
        return sym('ite(%s, %s, %s)' % (key(c), key(a), key(b)), 32)
    return ('ite', c, a, b)


CVSUB = {}


def sem(g, x, tx, y, ty):
    """value of the C expression x g y"""
    if g in ('AND', 'OR'):
        return sym('B:%s(%s, %s)' % (g, key(condval(x, tx)), key(condval(y, ty))), 32)
    ux, uy = unqual(tx), unqual(ty)
    if g in ('ADD', 'SUB') and (isptr(tx) or isptr(ty)):
        if isptr(tx) and isptr(ty):
            return opval('DIV', 'I', sub(bits(x), bits(y)), con(unqual(ux.to).size, 32))
        if isptr(ty):
            x, tx, y, ty = y, ty, x, tx
        n = unqual(unqual(tx).to).size
        return add(bits(x), scale(convert(y, ty, promote(ty)), n), 1 if g == 'ADD' else -1)
    if g in CMP:
        if isptr(tx) or isptr(ty):
            return cmpval(g, 'U', bits(x), bits(y))
        t = binary(promote(tx), promote(ty))
        return cmpval(g, suffix(t), convert(x, tx, t), convert(y, ty, t))
    if g in ('LSH', 'RSH'):
        t = promote(tx)
        return opval(g, suffix(t), convert(x, tx, t), convert(y, ty, TYPES['int']))
    t = binary(tx, ty)
    return opval(g, suffix(t), convert(x, tx, t), convert(y, ty, t))


INSTR = {('CVI', 'I'), ('CVI', 'U'), ('CVU', 'I'), ('CVU', 'U'), ('CVI', 'F'), ('CVF', 'I'),
         ('CVP', 'U'), ('CVU', 'P'), ('CVP', 'P'), ('CVF', 'F')}
FROM = {'CVI': ('I',), 'CVU': ('U',), 'CVF': ('F',), 'CVP': ('P',)}
TREES = {'ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'LSH', 'RSH', 'BAND', 'BOR', 'BXOR'}


class Den:
    """what a tree means on one path"""

    def __init__(self, pol, ctx=None):
        self.p, self.L, self.ctx = pol, pol.L, ctx
        self.used = []

    def type(self, t):
        return self.p.type_of(None, self.p.name(t))

    def __call__(self, t, raw=True):
        """value and type of the tree t; raw: may it be a comparison, which is no value?"""
        n = self.p.name(t)
        if n in self.p.types:
            ty = self.p.types[n]
            self.used.append(n)
            if not raw and unqual(ty).op == 'INT' and unqual(ty).size == 4 and \
                    n not in self.p.values:
                raise Wrong('%s, which may be a comparison, is used as a value' % n)
            return self.leaf(n, ty), ty
        if n not in self.p.calls:
            raise Undecided('the tree ' + n)
        fn, a, where = self.p.calls[n]
        if fn in BUILDERS:
            g = self.p.opcode(a[0])
            if HANDLES.get(g) != fn and not (g in ('EQ', 'NE') and fn == 'cmptree' and
                                             not (isptr(self.type(a[1])) or
                                                  isptr(self.type(a[2])))):
                raise Wrong('%s() is called for %s' % (fn, g))
            x, tx = self(a[1])
            y, ty = self(a[2])
            if g in CMP + ('AND', 'OR') and not raw:
                raise Wrong('a comparison is used as a value')
            if result_type(g, tx, ty) is None and not (g in ('EQ', 'NE') and isptr(tx)):
                raise Wrong('operator %s for %s and %s' % (g, tx, ty))
            return sem(g, x, tx, y, ty), self.p.type_of(None, n)
        f = getattr(self, 'd_' + fn, None)
        if f is None:
            raise Undecided('a tree made by %s()' % fn)
        return f(n, a, raw)

    def leaf(self, n, ty):
        u = unqual(ty)
        if u.op == 'FLOAT':
            return ('fl', n)
        if u.op in ('STRUCT', 'VOID'):
            return ('obj', n)
        return narrow(sym('V:' + n, 32), u)

    def d_value(self, n, a, raw):
        return self(a[0])

    def d_pointer(self, n, a, raw):
        return self(a[0], raw)

    def d_cast(self, n, a, raw):
        v, s = self(a[0])
        d = self.p.ty(a[1])
        return convert(v, s, d), d

    def d_retype(self, n, a, raw):
        v, s = self(a[0], raw)
        d = self.p.ty(a[1])
        us, ud = unqual(s), unqual(d)
        if us.op != ud.op and (us.op == 'FLOAT' or ud.op == 'FLOAT') or us.size != ud.size:
            raise Wrong('a tree of type %s is relabelled %s' % (s, d))
        if us.size < 4 and us.op != ud.op and us.op != 'STRUCT':
            raise Wrong('a tree of type %s is relabelled %s' % (s, d))
        return v, d

    def d_cnsttree(self, n, a, raw):
        t = self.p.ty(a[0])
        if t.op == 'FLOAT':
            return ('fc2', fconst(a[1])), t
        if a[1][0] != 'l':
            raise Wrong('a floating constant of type %s' % t)
        return narrow(trunc(a[1], 32), t), t

    def d_consttree(self, n, a, raw):
        t = self.p.ty(a[1])
        return narrow(a[0], t), t

    def d_cond(self, n, a, raw):
        v, t = self(a[0])
        return condval(v, t), TYPES['int']

    def d_condtree(self, n, a, raw):
        c, ct = self(a[0])
        x, tx = self(a[1])
        y, ty = self(a[2])
        t = binary(promote(tx), promote(ty))
        return ite(condval(c, ct), convert(x, tx, t), convert(y, ty, t)), t

    def d_tree(self, n, a, raw):
        k = self.p.op_of(a[0])
        if k[0] == 'RIGHT':
            v, t = self(a[3] if a[3] != con(0, 64) else a[2], raw)
            return v, self.p.ty(a[1])
        if k[0] == 'CALL':
            ty = self.p.ty(a[1])
            if k[1] != suffix(ty):
                raise Wrong('CALL+%s of type %s' % (k[1], ty))
            return self.leaf('call', ty), ty
        raise Undecided('a %s node' % k[0])

    def d_simplify(self, n, a, raw):
        g, s = self.p.op_of(a[0])
        ty = self.p.ty(a[1])
        if not s and g in CMP + tuple(TREES) + CV + ('NEG', 'BCOM'):
            s = suffix(ty)
        if g in CV:
            v, t = self(a[2], False)
            if suffix(t) not in FROM[g]:
                raise Wrong('%s of a %s' % (g, t))
            if (g, s) not in INSTR or s != suffix(ty):
                raise Wrong('there is no instruction for %s to %s' % (g, ty))
            if 'F' in (s, g[2]) and (unqual(t).size, unqual(ty).size) != (4, 4):
                raise Wrong('%s from %s to %s' % (g, t, ty))
            return convert(v, t, ty), ty
        if g in ('AND', 'OR', 'NOT'):
            if not raw:
                raise Wrong('a condition is used as a value')
            x, tx = self(a[2])
            if not isbool(x):
                raise Wrong('the operand of %s is no condition' % g)
            if g == 'NOT':
                return notval(x), ty
            y, t = self(a[3])
            if not isbool(y):
                raise Wrong('the operand of %s is no condition' % g)
            return sym('B:%s(%s, %s)' % (g, key(x), key(y)), 32), ty
        x, tx = self(a[2], False)
        if g in ('NEG', 'BCOM'):
            self.operand(g, s, tx, s)
            self.operand(g, s, ty, s)
            return opval(g, s, x), ty
        y, t = self(a[3], False)
        if s == 'P' and g in ('ADD', 'SUB'):
            if not (isptr(tx) and isint(t) or g == 'ADD' and isint(tx) and isptr(t)) or \
                    unqual(tx).size != 4 or unqual(t).size != 4:
                raise Wrong('%s+P of %s and %s' % (g, tx, t))
            if not isptr(ty):
                raise Wrong('%s+P of type %s' % (g, ty))
            return opval(g, 'U', x, y), ty
        self.operand(g, s, tx, s)
        self.operand(g, s, t, 'I' if g in ('LSH', 'RSH') else s)
        if g in CMP:
            if not raw:
                raise Wrong('a comparison is used as a value')
            return cmpval(g, s, x, y), ty
        self.operand(g, s, ty, s)
        if g not in TREES:
            raise Undecided('operator ' + g)
        v = opval(g, s, x, y)
        if g == 'SUB' and s == 'F' and y == ('fc2', 2147483648.0):
            CVSUB[key(x)] = key(v)
        return v, ty

    def operand(self, g, s, t, want):
        if suffix(t) != want or unqual(t).size != 4:
            raise Wrong('%s+%s of %s' % (g, s, t))


HANDLES = dict([('ADD', 'addtree'), ('SUB', 'subtree'), ('MUL', 'multree'), ('DIV', 'multree'),
                ('MOD', 'bittree'), ('BAND', 'bittree'), ('BOR', 'bittree'), ('BXOR', 'bittree'),
                ('LSH', 'shtree'), ('RSH', 'shtree'), ('AND', 'andtree'), ('OR', 'andtree')] +
               [(g, 'cmptree') for g in ('LT', 'LE', 'GT', 'GE')] +
               [(g, 'eqtree') for g in ('EQ', 'NE')])
BUILDERS = {'addtree', 'subtree', 'multree', 'bittree', 'shtree', 'cmptree', 'eqtree', 'andtree'}


def fconst(v):
    """a floating constant the compiler computes"""
    if v[0] == 'fc':
        import struct
        if str(v[1]).startswith('0x'):
            return struct.unpack('>d', int(v[1], 16).to_bytes(8, 'big'))[0]
        return float(v[1])
    if v[0] == 'fop':
        if v[1] in ('sitofp', 'uitofp') and is_con(v[3]):
            return float(scval(v[3]) if v[1] == 'sitofp' else cval(v[3]))
        if v[1] == 'fpext':
            return fconst(v[3])
        if v[1] in ('fadd', 'fsub', 'fmul') and len(v) == 5:
            a, b = fconst(v[3]), fconst(v[4])
            return {'fadd': a + b, 'fsub': a - b, 'fmul': a * b}[v[1]]
    if v[0] == 'i2f' and is_con(v[1]):
        import struct
        w = v[1][1]
        return struct.unpack('<d' if w == 64 else '<f',
                             cval(v[1]).to_bytes(w // 8, 'little'))[0]
    raise Undecided('the constant %r' % (v,))
