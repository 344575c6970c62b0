"""Constant folding and algebraic rewriting in rcc (lcc/src/simp.c): what simplify() returns for
each operator, by abstract interpretation, as a value over its operands' values."""
import re
import build
import llir
from engine import *
from terms import *
from facts import Ctx

SRC = 'lcc/src/simp.c'
HDR = 'lcc/src/c.h'
TY = {'I': 'INT', 'U': 'UNSIGNED', 'F': 'FLOAT', 'P': 'POINTER'}
BIN = ('ADD', 'SUB', 'MUL', 'DIV', 'MOD', 'LSH', 'RSH', 'BAND', 'BOR', 'BXOR')
CMP = ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE')
UN = ('NEG', 'BCOM', 'NOT')
CV = ('CVI', 'CVU', 'CVF', 'CVP')
OTHER = ('CNST', 'AND', 'OR', 'RIGHT', 'FIELD', 'ADDRG', 'ADDRF', 'ADDRL', 'INDIR', 'COND', 'CALL')
COMMUTES = {'ADD', 'MUL', 'BAND', 'BOR', 'BXOR', 'EQ', 'NE'}
FL = {'ADD': 'fadd', 'SUB': 'fsub', 'MUL': 'fmul', 'DIV': 'fdiv'}
PRED = {'EQ': 'eq', 'NE': 'ne', 'LT': 'lt', 'LE': 'le', 'GT': 'gt', 'GE': 'ge'}

# operator, suffix, [(size of the result type, size of the operand type)]
INTS = [1, 2, 4]
OPS = ([(o, s, [(4, 4)]) for o in ('ADD', 'SUB', 'MUL', 'DIV') for s in 'IUF'] +
       [(o, 'P', [(4, 4)]) for o in ('ADD', 'SUB')] +
       [(o, s, [(4, 4)]) for o in ('MOD', 'LSH', 'RSH', 'BAND', 'BOR', 'BXOR', 'BCOM')
        for s in 'IU'] +
       [('NEG', 'I', [(4, 4)]), ('NEG', 'F', [(4, 4)])] +
       [(o, s, [(4, 4)]) for o in CMP for s in 'IUF'] +
       [('AND', 'I', [(4, 4)]), ('OR', 'I', [(4, 4)]), ('NOT', 'I', [(4, 4)])] +
       [(o, s, [(d, l) for d in INTS for l in INTS]) for o in ('CVI', 'CVU') for s in 'IU'] +
       [('CVP', 'U', [(4, 4)]), ('CVU', 'P', [(4, 4)]), ('CVP', 'P', [(4, 4)]),
        ('CVI', 'F', [(4, 4)]), ('CVF', 'I', [(4, 4)]), ('CVF', 'F', [(4, 4)])])
UNARY = set(UN) | set(CV)


def consts(exprs):
    """values of integer constant expressions over c.h"""
    import os
    import tempfile
    src = '#include <stddef.h>\n#include "%s"\n' % os.path.join(build.REPO, HDR)
    src += ''.join('long cv_%d = (long)(%s);\n' % (i, e) for i, e in enumerate(exprs))
    n = os.path.join(build.tmpdir(), 'consts.c')
    with open(n, 'w') as f:
        f.write(src)
    out = os.path.join(build.tmpdir(), 'consts.ll')
    build.run([build.CLANG, '-S', '-emit-llvm', '-O0', '-w', n, '-o', out])
    r = {}
    with open(out) as f:
        for m in re.finditer(r'@cv_(\d+) = [^\n]*global i64 (-?\d+)', f.read()):
            r[exprs[int(m.group(1))]] = int(m.group(2))
    if len(r) != len(exprs):
        raise build.BuildError('constants of ' + HDR)
    return r


SUFF = 'FIUP'


class Lcc:
    def __init__(self):
        gens = BIN + CMP + UN + CV + OTHER
        ex = list(gens) + list(SUFF) + list(TY.values()) + ['ENUM', 'VOID']
        off = ['offsetof(struct tree, %s)' % f for f in ('op', 'type', 'kids', 'u')] + \
              ['offsetof(struct type, %s)' % f for f in ('op', 'type', 'size', 'u.sym')] + \
              ['offsetof(struct symbol, %s)' % f for f in ('u.limits.min', 'u.limits.max')] + \
              ['offsetof(struct field, %s)' % f for f in ('bitsize', 'lsb')] + \
              ['offsetof(struct code, u.addr.%s)' % f for f in ('sym', 'base', 'offset')]
        self.c = consts(ex + off)
        self.o = {re.sub(r'offsetof\(struct (\w+), (.*)\)', r'\1.\2', k): v
                  for k, v in self.c.items() if k.startswith('offsetof')}
        self.ops = {}
        for g in gens:
            for s in SUFF:
                self.ops[self.c[g] + self.c[s]] = (g, s)
            self.ops[self.c[g]] = (g, '')
        t = build.compile_ir(SRC)
        names = set(re.findall(r'(?m)^define [^@\n]*@([-\w.$]+)\(', t))
        if 'simplify' not in names:
            raise Anchor('function simplify not found')
        keep = {'simplify', 'addrtree', 'ispow2', 'constexpr', 'intexpr'} & names
        self.mod = llir.Module(build.opt(build.noinline(t, keep), build.INLINE.replace(
            'globaldce,', ''), build.OPTARGS), SRC)

    def op(self, g, s=''):
        return self.c[g] + (self.c[s] if s else 0)


OPAQUE = {'tree', 'cnsttree', 'simplify', 'eqtree', 'bittree', 'addrtree', 'retype', 'cast', 'root',
          'cond', 'ispow2', 'ttob', 'multree', 'consttree'}


class FoldPolicy(Policy):
    def __init__(self, L, run):
        super().__init__(L.mod)
        self.L, self.R = L, run
        self.calls = {}
        self.rets = []
        self.divs = {}

    def div(self, eng, st, ins, op, a, b):
        """divisions made while compiling must not trap"""
        for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
            if not ctx.entails(icmp('ne', b, con(0, b[1]))) and not power(ctx, b) and \
                    not impossible(ctx):
                self.divs[self.mod.where(ins)] = (op, b)
                return
        self.divs.setdefault(self.mod.where(ins), None)

    def event_key(self, st):
        return st.path

    def store_filter(self, eng, st, ins, b, off, size, val):
        if not (b[0] == 'b' and b[1] == 'alloca'):
            st.ev += (('store', b, off, size, val, self.mod.where(ins)),)
        return True

    def load_hook(self, eng, st, ins, b, off, size):
        t = self.field(eng, st, ins, b, off, size)
        if t is not None and ins.ty == llir.PTR and single(t):
            eng.ptr_atoms.add(single(t))
        return t

    def field(self, eng, st, ins, b, off, size):
        if not is_con(off):
            return None
        o = scval(off)
        L, R = self.L, self.R
        if b[0] == 'b' and b[1] == 'g':
            if ins.ty == llir.PTR:
                return sym('T:' + b[2], 64)
            return None
        if b[0] != 's':
            return None
        n = b[1]
        if n.startswith('T:'):
            s, size_ = R.type(n)
            if o == L.o['type.op'] and s:
                return con(L.c[TY[s]], 32)
            if o == L.o['type.size'] and size_ is not None:
                return con(size_, 32)
            if o == L.o['type.u.sym']:
                return sym('Y:' + n[2:], 64)
            if o == L.o['type.type']:
                return sym('T:*' + n[2:], 64)
            return None
        if n.startswith('Y:'):
            s, size_ = R.type('T:' + n[2:])
            for k, which in (('symbol.u.limits.min', 'min'), ('symbol.u.limits.max', 'max')):
                if o == L.o[k] and s:
                    return R.limit(s, size_, which)
            return None
        if n.startswith('F:'):
            for k in ('bitsize', 'lsb'):
                if o == L.o['field.' + k]:
                    return sym('%s:%s' % (k, n[2:]), 8 * size)
            return None
        # a tree
        if n in self.calls and self.calls[n][0] not in TREEFN:
            return None
        if o == L.o['tree.op']:
            return sym('op:' + n, 32)
        if o == L.o['tree.type']:
            return sym('T:type(%s)' % n, 64)
        for k in (0, 1):
            if o == L.o['tree.kids'] + 8 * k:
                t = sym('%s.%d' % (n, k), 64)
                eng.ptr_atoms.add(single(t))
                return t
        if o == L.o['tree.u']:
            return self.value_of(eng, st, ins, n)
        return None

    def value_of(self, eng, st, ins, n):
        L = self.L
        if n in self.calls and self.calls[n][0] in ('cast', 'retype'):
            # converted to a signed type of 32 bits
            d = self.R.den(self, st.ctx, sym(n, 64))
            return sext(d, 64)
        k = self.R.known_op(st.ctx, n)
        if k is None:
            raise Incomplete('%s: the value of an operand that need not be a constant is used'
                             % self.mod.where(ins))
        g, s = k
        if g == 'FIELD':
            return sym('F:' + n, 64)
        if g != 'CNST':
            if g.startswith('ADDR'):
                return sym('Y:' + n, 64)
            raise Incomplete('%s: the value of a %s node is used' % (self.mod.where(ins), g))
        if s == 'F':
            return ('fs', 'D:' + n, 64)
        v = sym('V:' + n, 32)
        return sext(v, 64) if s == 'I' else zext(v, 64)

    def call(self, eng, st, ins, name, args):
        n = name.split('.')[0] if name else None
        if n == 'warning':
            st.ev += (('warn', self.mod.where(ins)),)
            return 'done'
        if n in ('__assert_fail', 'abort'):
            return 'stop'
        if n == 'ttob':
            s, z = self.R.type(self.tname(args[0]))
            if not s:
                raise Incomplete('ttob of an unknown type')
            return con(self.L.c[s] + (z << 10), 32)
        if n in OPAQUE:
            key = '%s@%d' % (n, len(self.calls) + 1)
            self.calls[key] = (n, args, self.mod.where(ins))
            if n == 'ispow2':
                return sym('pow2#' + repr(args[0]), 32) if self.remember(args[0]) else None
            t = sym(key, 64)
            eng.ptr_atoms.add(single(t))
            return t
        raise Incomplete('call of %s at %s' % (name, self.mod.where(ins)))

    def remember(self, t):
        self.R.pow2['pow2#' + repr(t)] = t
        return True

    def tname(self, t):
        a = single(t)
        return a[1] if a and a[0] == 's' else None

    def ret(self, eng, st, ins, val):
        self.rets.append((st, val, self.mod.where(ins)))


TREEFN = {'tree', 'cnsttree', 'simplify', 'eqtree', 'bittree', 'addrtree', 'retype', 'cast', 'root',
          'cond', 'consttree'}


class Undecided(Exception):
    pass


class Run:
    """simplify() for one operator and one combination of type sizes"""

    def __init__(self, L, g, s, size, lsize, generic):
        self.L, self.g, self.s, self.size, self.lsize = L, g, s, size, lsize
        self.pow2 = {}
        self.rsuf = 'I' if g in CMP else s          # suffix of the result type
        # suffix of the operands
        self.lsuf = {'CVI': 'I', 'CVU': 'U', 'CVF': 'F', 'CVP': 'P'}.get(g, s)
        self.unary = g in UNARY
        f = L.mod.funcs.get('simplify')
        if f is None or not f.blocks or len(f.args) != 4:
            raise Anchor('function simplify(op, ty, l, r) not found')
        pol = FoldPolicy(L, self)
        eng = Engine(L.mod, pol)
        eng.MAXSTATES = 60000
        st = State()
        vals = [con(L.op(g, '' if generic else s), 32), sym('T:ty', 64), sym('L', 64),
                con(0, 64) if self.unary else sym('R', 64)]
        for a, v in zip(f.args, vals):
            st.env[a] = v
            if single(v):
                eng.ptr_atoms.add(single(v))
        for n in ('L',) if self.unary else ('L', 'R'):
            for x in SUFF:
                if x in self.constants(n):
                    continue
                st.ctx.assume(icmp('ne', sym('op:' + n, 32), con(L.op('CNST', x), 32)))
        for k in ('bitsize:', 'lsb:'):
            for n in ('L', 'R'):
                x = sym(k + n, 16)
                st.ctx.assume(icmp('sle', con(1, 16), x))
                st.ctx.assume(icmp('sle', x, con(32, 16)))
        if lsize < 4:
            v = sym('V:L', 32)
            b = 8 * lsize
            if self.lsuf == 'I':
                st.ctx.assume(icmp('sle', con(-(1 << (b - 1)), 32), v))
                st.ctx.assume(icmp('slt', v, con(1 << (b - 1), 32)))
            else:
                st.ctx.assume(icmp('ult', v, con(1 << b, 32)))
        self.pol, self.eng = pol, eng
        eng.run_function(f, st)

    def constants(self, n):
        """which constants can this operand be?"""
        if self.g in ('LSH', 'RSH') and n == 'R':
            return 'I'
        if self.g in ('ADD',) and self.s == 'P':
            return 'PIU'
        if self.g == 'SUB' and self.s == 'P':
            return 'P' if n == 'L' else 'PIU'
        return self.lsuf

    def type(self, n):
        """(suffix, size) of a type"""
        if n == 'T:ty':
            return self.rsuf, (4 if self.g in CMP else self.size)
        if n in ('T:inttype', 'T:longtype'):
            return 'I', 4
        if n in ('T:unsignedtype', 'T:unsignedlong'):
            return 'U', 4
        if n == 'T:type(L)':
            return self.lsuf, self.lsize
        return None, None

    def limit(self, s, size, which):
        b = 8 * size
        if s == 'F':
            return ('fs', 'FLT_' + which.upper(), 64)
        if s == 'I':
            return con(-(1 << (b - 1)) if which == 'min' else (1 << (b - 1)) - 1, 64)
        return con(0 if which == 'min' else (1 << b) - 1, 64)

    def known_op(self, ctx, n):
        a = ('s', 'op:' + n, 32)
        for c in ctx.facts:
            if isinstance(c, tuple) and c[0] == 'eq' and len(c[1][3]) == 1 and c[1][3][0][0] == a:
                k = c[1][3][0][1]
                v = (-c[1][2] if k == 1 else c[1][2]) & mask(32)
                return self.L.ops.get(v)
        # one of several constants
        return None

    def one_op(self, ctx, n):
        k = self.known_op(ctx, n)
        if k is None:
            g = [x for x in SUFF if ctx.entails(icmp('eq', sym('op:' + n, 32),
                                                     con(self.L.op('CNST', x), 32)))]
            if g:
                return 'CNST', g[0]
        return k

    def isconst(self, ctx, n):
        k = self.one_op(ctx, n)
        if k and k[0] == 'CNST':
            return True
        # generic(op) == CNST
        return ctx.entails(icmp('eq', and_(sym('op:' + n, 32), con(0x3F0, 32)),
                                con(self.L.c['CNST'], 32)))

    def sign(self, ctx, x, b):
        """is bit b-1 of the wide term x known to be set (-1) or clear (1)?"""
        t = self.low(ctx, x, b)
        if ctx.entails(icmp('slt', t, con(0, b))):
            return -1
        if ctx.entails(icmp('sle', con(0, b), t)):
            return 1
        for c in ctx.facts:
            if not (isinstance(c, tuple) and c[0] in ('eq', 'ne')):
                continue
            a = single(c[1])
            if not (a and a[0] == 'x' and a[1] == 'and' and is_con(a[4])):
                continue
            y, m = a[3], cval(a[4])
            w = a[2]
            if self.low(ctx, y, b) != t:
                continue
            if m == 1 << (b - 1):
                return 1 if c[0] == 'eq' else -1
            if m == mask(w) & ~mask(b - 1):
                if c[0] == 'eq':
                    return 1
                # not in [0, 2**(b-1)): negative, or a value of b bits without sign
                if wide(y, 'sext') and b == 32 or ctx.entails(icmp('ult', y, con(1 << b, w))) \
                        or ctx.entails(icmp('sle', con(-(1 << (b - 1)), w), y)) and \
                        ctx.entails(icmp('slt', y, con(1 << b, w))):
                    return -1
        return None

    # ------------------------------------------------------------ values
    def leaf(self, n):
        if self.lsuf == 'F' and n in ('L', 'R'):
            return ('fs', 'D:' + n, 64)
        return sym('V:' + n, 32)

    def den(self, pol, ctx, t, leaves=None):
        """the value of the tree t (and the operands evaluated for it)"""
        if leaves is None:
            leaves = []
        a = single(t)
        if a is None or a[0] != 's':
            raise Undecided('the result %s is no tree' % show(t))
        n = a[1]
        D = lambda x: self.den(pol, ctx, x, leaves)
        if n in pol.calls:
            fn, args, w = pol.calls[n]
            if fn == 'cnsttree':
                return self.constant(ctx, args, w)
            if fn == 'tree':
                return self.node(pol, ctx, args[0], args[1], args[2], args[3], leaves, n)
            if fn == 'simplify':
                return self.node(pol, ctx, args[0], args[1], args[2], args[3], leaves)
            if fn in ('eqtree', 'bittree'):
                return self.node(pol, ctx, args[0], sym('T:ty', 64), args[1], args[2], leaves)
            if fn in ('retype', 'cast'):
                return D(args[0])
            if fn == 'addrtree':
                return add(D(args[0]), self.low(ctx, args[1], 32))
            if fn == 'cond':
                return boolean(D(args[0]))
            raise Undecided('%s (%s)' % (fn, w))
        k = self.one_op(ctx, n)
        if n.startswith('L') or n.startswith('R'):
            kid = [sym('%s.%d' % (n, i), 64) for i in (0, 1)]
            if k and k[0] in ('ADD', 'SUB') and k[1] in 'IUP':
                x = D(kid[0])
                y = D(kid[1])
                return add(x, y) if k[0] == 'ADD' else sub(x, y)
            if k == ('NEG', 'I'):
                return scale(D(kid[0]), -1)
            if k and k[0] == 'NEG':
                return fneg(self.fl(D(kid[0])))
            if k and k[0] == 'BCOM':
                return lognot(D(kid[0]))
            if k and k[0] == 'RIGHT':
                if ctx.entails(icmp('ne', kid[1], con(0, 64))):
                    D(kid[0])
                    return D(kid[1])
                if ctx.entails(icmp('eq', kid[1], con(0, 64))):
                    return D(kid[0])
            if not self.isconst(ctx, n):
                leaves.append(n)
            if self.lsuf == 'F' or k == ('CNST', 'F'):
                return ('fs', 'D:' + n, 64)
            return sym('V:' + n, 32)
        raise Undecided('the tree %s' % n)

    def stored(self, n):
        v = None
        for e in self.ev:
            if e[0] == 'store' and e[1][:2] == ('s', n) and is_con(e[2]) and \
                    scval(e[2]) == self.L.o['tree.u']:
                v = e[4]
        return v

    def fl(self, x):
        if x[0] == 'l':
            a = single(x)
            return ('fs', 'D:' + a[1][2:], 64)
        return x

    def constant(self, ctx, args, where):
        s, size = self.type(self.pol.tname(args[0]))
        v = args[1]
        if v[0] in ('fs', 'fop', 'i2f', 'fc'):
            if s not in ('F', None):
                raise Undecided('a floating constant of integer type (%s)' % where)
            return v
        if v[0] != 'l':
            raise Undecided('constant %r' % (v[0],))
        if s == 'F':
            raise Undecided('an integer constant of floating type (%s)' % where)
        if s is None:
            s, size = 'I', 4
        t = self.low(ctx, v, 8 * size)
        t = sext(t, 32) if s == 'I' else zext(t, 32)
        if s == 'I' and not (self.g == 'SUB' and self.s == 'P') and not self.fits(ctx, v, size):
            raise Unnormal('%s stores %s, which need not fit into the %d bytes of its type'
                           % (where, show(v)[:120], size))
        return t

    def node(self, pol, ctx, op, ty, l, r, leaves, node=None):
        m = {}
        for a in atoms_of(op):
            if a[0] == 's' and a[1].startswith('op:'):
                k = self.known_op(ctx, a[1][3:])
                if k:
                    m[a] = con(self.L.op(*k), 32)
        if m:
            op = subst(op, m)
        if not is_con(op):
            raise Undecided('a node with operator ' + show(op))
        k = self.L.ops.get(cval(op) & 0x3FF)
        if k is None:
            raise Undecided('a node with operator %d' % cval(op))
        g, s = k
        tn = pol.tname(ty)
        if not s:
            s = self.s if tn == 'T:ty' else 'U'
            if g == 'RSH' and tn != 'T:ty':
                raise Undecided('RSH of unknown sign')
        if g == 'CNST':
            v = self.stored(node)
            if v is None:
                raise Undecided('a constant node without value')
            return self.low(ctx, v, 32)
        if g == 'RIGHT':
            a = single(l)
            if a and a[1] in pol.calls and pol.calls[a[1]][0] == 'root':
                self.den(pol, ctx, pol.calls[a[1]][1][0], leaves)
            elif not (is_con(l) and cval(l) == 0):
                x = self.den(pol, ctx, l, leaves)
                if is_con(r) and cval(r) == 0:
                    return x
            return self.den(pol, ctx, r, leaves)
        x = self.den(pol, ctx, l, leaves)
        y = None if is_con(r) and cval(r) == 0 else self.den(pol, ctx, r, leaves)
        return self.spec(ctx, g, s, x, y)

    def expected(self, ctx, got=()):
        x = self.leaf('L')
        leaves = []
        x = self.den(self.pol, ctx, sym('L', 64), leaves)
        y = None if self.unary else self.den(self.pol, ctx, sym('R', 64), leaves)
        for n in () if self.unary else ('L', 'R'):
            k = self.known_op(ctx, n)
            if k and k[0] == 'FIELD' and self.g in ('EQ', 'NE') and ctx.entails(
                    icmp('eq', y if n == 'L' else x, con(0, 32))) and n + '.0' in got:
                # a bit field is 0 if these bits of its word are
                bs, lsb = (sext(sym(k + n, 16), 32) for k in ('bitsize:', 'lsb:'))
                m = shl(lognot(shl(con(-1, 32), bs)), addc(lsb, -1))
                return icmp(PRED[self.g], and_(sym('V:%s.0' % n, 32), m), con(0, 32)), \
                    [n + '.0'] + [z for z in leaves if z != n]
        return self.spec(ctx, self.g, self.s, x, y), leaves

    def spec(self, ctx, g, s, x, y):
        """value of the operator: 32 bit term, float term (in the compiler's double) or condition"""
        x = self.val(x)
        if y is not None:
            y = self.val(y)
        if g in CV:
            src = g[2]
            b = 8 * self.size
            if s == 'F':
                if src == 'F':
                    return fop('fpext', 64, fop('fptrunc', 32, x))
                return ('fop', 'sitofp' if src == 'I' else 'uitofp', 64, sext(x, 64) if src == 'I'
                        else zext(x, 64))
            if src == 'F':
                return trunc(X('fptosi', 64, x), 32)
            t = trunc(x, b)
            return sext(t, 32) if s == 'I' else zext(t, 32)
        if g == 'NOT':
            return neg(self.truth(x))
        if g == 'NEG':
            return fneg(x) if s == 'F' else scale(x, -1)
        if g == 'BCOM':
            return lognot(x)
        if g in ('AND', 'OR'):
            a, b = self.truth(x), self.truth(y)
            return cand(a, b) if g == 'AND' else cor(a, b)
        if s == 'F' or x[0] in ('fs', 'fop'):
            x, y = self.fl(x), self.fl(y)
            if g in CMP:
                return fcmp({'EQ': 'oeq', 'NE': 'une'}.get(g, 'o' + PRED[g]), x, y)
            return fop(FL[g], 64, x, y)
        if g in CMP:
            p = PRED[g]
            return icmp(p if p in ('eq', 'ne') else ('u' if s in 'UP' else 's') + p, x, y)
        return self.arith(ctx, g, s, x, y)

    def val(self, x):
        if isinstance(x, bool) or x[0] not in ('l', 'fs', 'fop', 'i2f', 'fc'):
            return X('zext', 32, x) if not isinstance(x, bool) else con(int(x), 32)
        return x

    def truth(self, x):
        if x[0] in ('fs', 'fop'):
            return fcmp('une', x, ('fc', '0', 64))
        return icmp('ne', x, con(0, 32))

    def pow2s(self, ctx):
        """{32 bit atom: n} for operands found to be 2**n, n > 0"""
        out = {}
        for k, t in self.pow2.items():
            n = sym(k, 32)
            if ctx.entails(icmp('ne', n, con(0, 32))):
                for kind in ('zext', 'sext'):
                    u = unext(t, kind, 32)
                    if u is not None and single(u):
                        out[single(u)] = n
        return out

    def arith(self, ctx, g, s, x, y):
        p2 = self.pow2s(ctx)
        if g == 'ADD':
            return add(x, y)
        if g == 'SUB':
            return sub(x, y)
        if g == 'MUL':
            for a, b in ((x, y), (y, x)):
                if single(a) in p2:
                    return shl(b, p2[single(a)])
            return product(x, y)
        if g in ('DIV', 'MOD'):
            n = p2.get(single(y))
            if n is not None and s == 'U':
                if g == 'DIV':
                    return lshr(x, n)
                return and_(x, addc(shl(con(1, 32), n), -1))
            return divop(('s' if s == 'I' else 'u') + ('div' if g == 'DIV' else 'rem'), x, y)
        if g == 'LSH':
            return shl(x, y)
        if g == 'RSH':
            return ashr(x, y) if s == 'I' else lshr(x, y)
        if g == 'BAND':
            a, b = x, y
            for u, v in ((x, y), (y, x)):
                # u & (2**n - 1)
                d = addc(u, 1)
                if single(d) in p2:
                    u = addc(shl(con(1, 32), p2[single(d)]), -1)
                    return and_(v, u)
            return and_(a, b)
        if g == 'BOR':
            return or_(x, y)
        if g == 'BXOR':
            return xor_(x, y)
        raise Undecided('operator ' + g)

    # ------------------------------------------------------------ wide terms
    def low(self, ctx, t, w):
        """the low w bits of a 64 bit term"""
        p2 = self.pow2s(ctx)
        c = con(t[2], w)
        for a, k in t[3]:
            x = self.low_atom(ctx, a, w, p2)
            c = add(c, scale(x, k))
        return c

    def low_atom(self, ctx, a, w, p2):
        if a[0] == 'x':
            op = a[1]
            if op == 'or' and a[2] > w:
                for x, y in ((a[3], a[4]), (a[4], a[3])):
                    if is_con(y) and cval(y) == mask(a[2]) & ~mask(w - 1) and \
                            self.sign(ctx, x, w) == -1:
                        return self.low(ctx, x, w)
            if op == 'trunc':
                return self.low(ctx, a[3], w)
            if op in ('zext', 'sext') and a[3][0] == 'l':
                if a[3][1] >= w:
                    return self.low(ctx, a[3], w)
                return (zext if op == 'zext' else sext)(self.low(ctx, a[3], a[3][1]), w)
            if op in ('shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'mul', 'sdiv', 'udiv', 'srem',
                      'urem') and w == 32 and a[2] == 64:
                u, v = a[3], a[4]
                if op in ('shl', 'lshr', 'ashr'):
                    small = ctx.entails(icmp('ult', v, con(32, 64)))
                    n = self.low(ctx, v, 32)
                    if op == 'shl' and small:
                        return shl(self.low(ctx, u, 32), n)
                    if op == 'lshr' and small and wide(u, 'zext'):
                        return lshr(self.low(ctx, u, 32), n)
                    if op in ('ashr', 'lshr') and small and wide(u, 'sext'):
                        x = self.low(ctx, u, 32)
                        if op == 'ashr':
                            return ashr(x, n)
                        if ctx.entails(icmp('sle', con(0, 32), x)):
                            return lshr(x, n)
                        return trunc(atom(a), 32)
                    if op == 'ashr' and small and wide(u, 'zext'):
                        return lshr(self.low(ctx, u, 32), n)
                elif op == 'or':
                    for x, y in ((u, v), (v, u)):
                        if self.has_ones(ctx, x, y):
                            return self.low(ctx, x, 32)
                    return or_(self.low(ctx, u, 32), self.low(ctx, v, 32))
                elif op in ('and', 'xor'):
                    return BITS[op](self.low(ctx, u, 32), self.low(ctx, v, 32))
                elif op == 'mul':
                    return product(self.low(ctx, u, 32), self.low(ctx, v, 32))
                else:
                    kind = 'sext' if op[0] == 's' else 'zext'
                    if wide(u, kind) and wide(v, kind):
                        return divop(op, self.low(ctx, u, 32), self.low(ctx, v, 32))
            if op in ('or', 'and') and w < 32 or op == 'or' and w == 32:
                u, v = a[3], a[4]
                for x, y in ((u, v), (v, u)):
                    if self.has_ones(ctx, x, y):
                        return self.low(ctx, x, w)
                if op == 'and' or op == 'or':
                    return BITS[op](self.low(ctx, u, w), self.low(ctx, v, w))
        return trunc(atom(a), w)

    def has_ones(self, ctx, x, y):
        """are all bits of y set in x already?"""
        if is_con(y):
            return False
        a, b = single(x), single(y)
        if a and b and a[0] == b[0] == 'x' and a[1] == 'ashr' and b[1] == 'shl':
            # (negative >> n) | (~0 << (k - n)), k >= 31
            u = a[3]
            if b[3] == con(-1, 64) and wide(u, 'sext') and \
                    ctx.entails(icmp('slt', self.low(ctx, u, 32), con(0, 32))):
                d = add(self.low(ctx, b[4], 32), self.low(ctx, a[4], 32))
                return is_con(d) and cval(d) >= 31
        if a and len(y[3]) == 1 and b is None and a[0] == 'x' and a[1] == 'ashr':
            z = y[3][0]
            if y[2] == 0 and z[0][0] == 'x' and z[0][1] == 'shl' and z[0][3] == con(1, 64) and \
                    z[1] == mask(64) and wide(a[3], 'sext') and \
                    ctx.entails(icmp('slt', self.low(ctx, a[3], 32), con(0, 32))):
                d = add(self.low(ctx, z[0][4], 32), self.low(ctx, a[4], 32))
                return is_con(d) and cval(d) >= 31
        return False

    def fits(self, ctx, v, size):
        """is the 64 bit value v that of a signed object of this size?"""
        b = 8 * size
        lo, hi = -(1 << (b - 1)), (1 << (b - 1)) - 1
        if ctx.entails(icmp('sle', con(lo, 64), v)) and ctx.entails(icmp('sle', v, con(hi, 64))):
            return True
        a = single(v)
        if a and a[0] == 'x':
            op = a[1]
            if op == 'sext':
                return a[3][1] <= b
            if op in ('and', 'or', 'xor') and self.fits(ctx, a[3], size) and \
                    self.fits(ctx, a[4], size):
                return True
            if op == 'or':
                for x, y in ((a[3], a[4]), (a[4], a[3])):
                    if self.has_ones(ctx, x, y) and self.fits(ctx, x, size):
                        return True
                    if is_con(y) and scval(y) == -(1 << (b - 1)) and self.sign(ctx, x, b) == -1:
                        return True
            if op == 'and':
                for x, y in ((a[3], a[4]), (a[4], a[3])):
                    if is_con(y) and cval(y) == mask(b) and self.sign(ctx, x, b) == 1:
                        return True
            if op == 'zext' and a[3][0] == 'l' and a[3][1] == b and self.sign(ctx, v, b) == 1:
                return True
            if op == 'ashr' and self.fits(ctx, a[3], size):
                return True
            if op == 'sdiv' and wide(a[3], 'sext') and wide(a[4], 'sext') and b == 32:
                k = ctx.copy()
                k.assume(icmp('eq', self.low(ctx, a[3], 32), con(-(1 << 31), 32)))
                k.assume(icmp('eq', self.low(ctx, a[4], 32), con(-1, 32)))
                return k.contradictory(deep=True)
            if op == 'srem' and wide(a[3], 'sext') and wide(a[4], 'sext') and b == 32:
                return True
            if op == 'mul':
                return self.small_product(ctx, a[3], a[4], lo, hi)
            if op == 'fptosi':
                return self.float_range(ctx, a[3], lo, hi)
        if len(v[3]) == 1 and v[2] == 0 and v[3][0][0][0] == 'x' and v[3][0][0][1] == 'shl':
            pass
        return False

    def float_range(self, ctx, x, lo, hi):
        need = {'lo': False, 'hi': False}
        for c in ctx.facts:
            if not (isinstance(c, tuple) and c[0] == 'fcmp'):
                continue
            for p, a, b in ((c[1], c[2], c[3]), (FSW.get(c[1]), c[3], c[2])):
                if a != x or p is None:
                    continue
                k = fconst(b)
                if k is None:
                    continue
                if p in ('oge', 'ogt', 'uge', 'ugt') and k >= lo:
                    need['lo'] = True
                if p in ('ole', 'olt', 'ule', 'ult') and k <= hi:
                    need['hi'] = True
        return all(need.values())

    def small_product(self, ctx, x, y, lo, hi):
        """lo <= x * y <= hi from facts like x <= hi / y"""
        for a, b in ((x, y), (y, x)):
            if ctx.entails(icmp('sle', con(0, 64), a)) and ctx.entails(icmp('sle', a, con(1, 64))):
                return self.fits(ctx, b, 4) or wide(b, 'sext')
        pos = {}
        for n, t in (('x', x), ('y', y)):
            if ctx.entails(icmp('slt', con(0, 64), t)):
                pos[n] = 1
            elif ctx.entails(icmp('slt', t, con(0, 64))):
                pos[n] = -1
            else:
                return False
        for a, b, s, t in ((x, y, pos['x'], pos['y']), (y, x, pos['y'], pos['x'])):
            p, q = scale(a, s), scale(b, t)         # |a|, |b|
            if s == t:
                # |a| <= hi / |b|
                for k in (hi,):
                    if ctx.entails(icmp('sle', p, divop('sdiv', con(k, 64), q))):
                        return True
            else:
                # negative a >= lo / positive b
                if s < 0 and ctx.entails(icmp('sle', divop('sdiv', con(lo, 64), b), a)):
                    return True
        return False


FSW = {'oge': 'ole', 'ole': 'oge', 'ogt': 'olt', 'olt': 'ogt', 'uge': 'ule', 'ule': 'uge',
       'ugt': 'ult', 'ult': 'ugt'}


def power(ctx, t):
    """is the term 1 << k with k less than its width?"""
    a = single(t)
    while a and a[0] == 'x' and a[1] in ('sext', 'zext'):
        t = a[3]
        a = single(t)
    if not a or a[0] != 'x' or a[1] != 'shl' or a[3] != con(1, a[2]):
        return False
    k = a[4]
    b = single(k)
    if ctx.entails(icmp('ult', k, con(a[2], k[1]))):
        return True
    if b and b[0] == 's':
        k = sext(k, 64)
        return ctx.entails(icmp('sle', con(0, 64), k)) and ctx.entails(icmp('slt', k, con(a[2], 64)))
    return False


def impossible(ctx):
    """bit tests that contradict the range of the value"""
    if ctx.contradictory():
        return True
    for c in ctx.facts:
        if not (isinstance(c, tuple) and c[0] in ('eq', 'ne')):
            continue
        a = single(c[1])
        if not (a and a[0] == 'x' and a[1] == 'and' and is_con(a[4]) and cval(a[4])):
            continue
        y, m, w = a[3], cval(a[4]), a[2]
        low = m & -m
        if m not in (low, mask(w) & ~(low - 1)):
            continue
        if c[0] == 'ne' and ctx.entails(icmp('ult', y, con(low, w))):
            return True
        if c[0] == 'eq' and ctx.entails(icmp('ule', con(low, w), y)) and (
                m != low or ctx.entails(icmp('ult', y, con(2 * low, w)))):
            return True
    return False


class Unnormal(Exception):
    pass


def fconst(f):
    if f[0] == 'fop' and f[1] in ('sitofp', 'uitofp') and is_con(f[3]):
        return scval(f[3]) if f[1] == 'sitofp' else cval(f[3])
    return None


def wide(t, kind):
    return unext(t, kind, 32) is not None


def fneg(x):
    return fop('fneg', 64, x)


def boolean(x):
    if isinstance(x, bool) or x[0] not in ('l', 'fs', 'fop'):
        return x
    return icmp('ne', x, con(0, 32)) if x[0] == 'l' else fcmp('une', x, ('fc', '0', 64))


def product(x, y):
    """distributes over sums"""
    r = con(0, 32)
    for a, k in list(x[3]) + ([(None, x[2])] if x[2] else []):
        for b, m in list(y[3]) + ([(None, y[2])] if y[2] else []):
            if a is None and b is None:
                t = con(1, 32)
            elif a is None:
                t = atom(b)
            elif b is None:
                t = atom(a)
            else:
                t = mul(atom(a), atom(b))
            r = add(r, scale(t, k * m))
    return r


def same(run, ctx, x, y):
    """do the two values agree under these facts?"""
    if isinstance(x, bool) or isinstance(y, bool) or x[0] in CONDS or y[0] in CONDS:
        a, b = boolean(x), boolean(y)
        if x is not a or y is not b:
            # one is 0 or 1
            pass
        if a == b:
            return True
        if isinstance(a, bool):
            a, b = b, a
        if isinstance(b, bool):
            return ctx.entails(a if b else neg(a))
        k = ctx.copy()
        k.assume(a)
        j = ctx.copy()
        j.assume(neg(a))
        return (k.entails(b) or k.contradictory(deep=True)) and \
            (j.entails(neg(b)) or j.contradictory(deep=True))
    if x[0] != y[0]:
        return False
    if x == y:
        return True
    if x[0] != 'l':
        return False
    m = {}
    for a in atoms_of(x) | atoms_of(y):
        if a[0] == 's' and a[1].startswith('V:'):
            for c in ctx.facts:
                if isinstance(c, tuple) and c[0] == 'eq' and len(c[1][3]) == 1 and \
                        c[1][3][0][0] == a and c[1][3][0][1] in (1, mask(32)) and c[1][1] == 32:
                    k = c[1][3][0][1]
                    m[a] = con(-c[1][2] if k == 1 else c[1][2], 32)
    if m:
        x, y = subst(x, m), subst(y, m)
        if x == y:
            return True
    return ctx.entails(icmp('eq', x, y))


CONDS = {'eq', 'ne', 'slt', 'sle', 'ult', 'ule', 'fcmp', 'and', 'or', 'bit', 'nbit'}


def flag(x):
    """0/1 for a condition, as an int"""
    return X('zext', 32, x) if not isinstance(x, bool) else con(int(x), 32)
