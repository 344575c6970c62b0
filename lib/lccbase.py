"""Contracts of the small functions constant folding rests on: cnsttree(), consttree(), ispow2(),
addrtree()."""
import glob
import os
import re
import build
import llir
from engine import *
from terms import *
from lccfold import consts, TY, OPAQUE
from checks_asm import Finding

SIMP, ENODE = 'lcc/src/simp.c', 'lcc/src/enode.c'


class Unroll(Engine):
    """follows loops around instead of summarising them"""
    MAXSTATES = 4000

    def is_cut(self, b):
        return True

    def run_block_guard(self, f, s, b):
        if all_clear(s.ctx):
            return []
        return super().run_block_guard(f, s, b)


def all_clear(ctx):
    """is every bit of a value clear that is known not to be 0?"""
    bits = {}
    for c in ctx.facts:
        if not (isinstance(c, tuple) and c[0] == 'eq'):
            continue
        a = single(c[1])
        if a is None or a[0] != 'x' or a[2] != 64:
            continue
        k = None
        if a[1] == 'and' and is_con(a[4]):
            if cval(a[4]) == 1:
                x = single(a[3])
                if x and x[0] == 'x' and x[1] == 'lshr' and is_con(x[4]):
                    k = x[3], cval(x[4])
                else:
                    k = a[3], 0
        elif a[1] == 'zext' and a[3][0] == 'l' and a[3][1] == 1:
            k = a[3], 0
        if k:
            bits.setdefault(k[0], set()).add(k[1])
    return any(len(v) == 64 and ctx.entails(icmp('ne', u, con(0, 64))) for u, v in bits.items())


class Rec(Policy):
    """calls return fresh values; stores and calls are recorded"""

    def __init__(self, mod, types=None, opaque=True):
        super().__init__(mod)
        self.rets = []
        self.types = types or {}
        self.n = 0
        self.kind = {}       # type -> (suffix code, size)

    def event_key(self, st):
        return st.path

    def store_filter(self, eng, st, ins, b, off, size, val):
        if not (b[0] == 'b' and b[1] == 'alloca'):
            st.ev += (('store', b, off, size, val, self.mod.where(ins)),)
        return True

    def load_hook(self, eng, st, ins, b, off, size):
        if b[0] == 's' and is_con(off):
            return self.types.get((b[1], scval(off)))
        return None

    def call(self, eng, st, ins, name, args):
        n = name.split('.')[0] if name else None
        if n in ('__assert_fail', 'abort'):
            return 'stop'
        if name and name.startswith('llvm.va_'):
            return 'done'
        if n == 'llvm':
            return None
        if n == 'ttob':
            a = single(args[0])
            if a and a[1] in self.kind:
                s, size = self.kind[a[1]]
                return con(s + (size << 10), 32)
        self.n += 1
        key = '%s@%d' % (n or 'indirect', self.n)
        st.ev += (('call', n, tuple(args), key, self.mod.where(ins)),)
        w = 64 if ins.ty == llir.PTR else ins.ty if isinstance(ins.ty, int) else None
        if w is None:
            return 'done'
        t = sym(key, w)
        if w == 64:
            eng.ptr_atoms.add(single(t))
        return t

    def ret(self, eng, st, ins, val):
        self.rets.append((st, val, self.mod.where(ins)))


def single_function(src, name):
    t = build.compile_ir(src)
    if not re.search(r'(?m)^define [^@\n]*@%s\(' % re.escape(name), t):
        raise Anchor('function %s not found in %s' % (name, src))
    names = set(re.findall(r'(?m)^define [^@\n]*@([-\w.$]+)\(', t))
    return t, names


def run(mod, name, vals, types=None, cls=Engine, pol=None):
    f = mod.funcs.get(name)
    if f is None or not f.blocks:
        raise Anchor('function %s not found' % name)
    if len(f.args) != len(vals):
        raise Anchor('%s has %d parameters' % (name, len(f.args)))
    pol = pol or Rec(mod, types)
    eng = cls(mod, pol)
    st = State()
    for a, v in zip(f.args, vals):
        st.env[a] = v
        if single(v) and v[1] == 64 and isinstance(a.ty, tuple):
            eng.ptr_atoms.add(single(v))
    for a, v in zip(f.args, vals):
        if single(v) and a.ty == llir.PTR:
            eng.ptr_atoms.add(single(v))
    eng.run_function(f, st)
    return pol


def varargs(r):
    """every caller of cnsttree() passes the 64 bits (or double, or pointer) it reads"""
    n = 0
    for p in sorted(glob.glob(os.path.join(build.REPO, 'lcc/src/*.c'))):
        src = os.path.relpath(p, build.REPO)
        text = build.compile_ir(src)
        if '@cnsttree(' not in text:
            continue
        mod = llir.Module(text, src)
        for f in mod.funcs.values():
            for b in f.blocks:
                for i in b.instrs:
                    c = i.x.get('callee') if i.op == 'call' else None
                    if not isinstance(c, llir.GlobalRef) or c.name != 'cnsttree':
                        continue
                    n += 1
                    r.obligations += 1
                    tys = [x.ty for x in i.ops[1:]]
                    if len(tys) != 1 or tys[0] not in (llir.I(64), llir.DOUBLE, llir.PTR):
                        r.add([Finding('width', mod.where(i), 'cnsttree() is passed %s where it '
                                       'reads 64 bits' % ', '.join(map(llir.tystr, tys)), ())],
                              f.name)
    if not n:
        raise Anchor('no call of cnsttree()')
    return n


def contracts(r, c, off):
    """c: operator and type codes, off: field offsets"""
    _cnsttree(r, c, off)
    _consttree(r, c, off)
    _ispow2(r)


def isolated(src, name):
    t, names = single_function(src, name)
    t = re.sub(r'(?m)^define internal ([^@\n]*@%s\()' % re.escape(name), r'define \1', t)
    text = build.noinline(t, (OPAQUE & names) - {name})
    return llir.Module(build.opt(text, build.INLINE.replace('globaldce,', ''), build.OPTARGS), src)


def bad(r, rule, where, what, ctxt):
    r.add([Finding(rule, where, what, ())], ctxt)


def writes(st, node, off):
    return [e for e in st.ev if e[0] == 'store' and e[1][:2] == ('s', node) and is_con(e[2]) and
            scval(e[2]) == off]


def _cnsttree(r, c, off):
    mod = isolated(ENODE, 'cnsttree')
    for s, size in (('I', 1), ('I', 2), ('I', 4), ('U', 1), ('U', 2), ('U', 4), ('F', 4), ('P', 4)):
        types = {('ty', off['type.op']): con(c[TY[s]], 32), ('ty', off['type.size']): con(size, 32)}
        pol = Rec(mod, types)
        pol.kind['ty'] = c[s], size
        run(mod, 'cnsttree', [sym('ty', 64)], pol=pol)
        what = 'cnsttree(), %s of %d bytes' % (TY[s], size)
        r.obligations += 1
        if not pol.rets:
            bad(r, 'constant', ENODE, '%s: never returns' % what, what)
        for st, val, where in pol.rets:
            r.obligations += 1
            made = [e for e in st.ev if e[0] == 'call' and e[1] == 'tree']
            if len(made) != 1 or val != sym(made[0][3], 64):
                bad(r, 'constant', where, '%s does not return the node it makes' % what, what)
                continue
            a = made[0][2]
            op = a[0]
            want = c['CNST'] + c[s]
            if not is_con(op) or cval(op) & 0x3FF != want:
                bad(r, 'constant', where, '%s makes a node with operator %s instead of %#x'
                    % (what, show(op), want), what)
            if a[1] != sym('ty', 64) or a[2] != con(0, 64) or a[3] != con(0, 64):
                bad(r, 'constant', where, '%s: wrong type or operands' % what, what)
            w = writes(st, made[0][3], off['tree.u'])
            if len(w) != 1 or w[0][3] != 8:
                bad(r, 'constant', where, '%s: the value is not stored' % what, what)
                continue
            v = w[0][4]
            ok = v[0] in ('fs', 'i2f') if s == 'F' else v[0] == 'l'
            if ok and s != 'F':
                x = single(v)
                if s == 'U':
                    m = (1 << 8 * size) - 1
                    ok = x is not None and x[0] == 'x' and (
                        x[1] == 'and' and con(m, 64) in (x[3], x[4]) and
                        all(is_con(k) or raw(k) for k in (x[3], x[4])) or
                        x[1] == 'zext' and x[3][0] == 'l' and x[3][1] == 8 * size and
                        raw_low(x[3]))
                else:
                    ok = raw(v)
            elif ok and v[0] == 'i2f':
                ok = raw(v[1])
            if not ok:
                bad(r, 'constant', w[0][5], '%s stores %s' % (what, v[0] == 'l' and show(v) or v),
                    what)


def raw(t):
    """an argument as it was passed"""
    x = single(t)
    return x is not None and t[1] == 64 and (x[0] == 's' and x[1] != 'ty' or x[0] == 'ld')


def raw_low(t):
    x = single(t)
    return x is not None and x[0] == 'x' and x[1] == 'trunc' and raw(x[3])


def _consttree(r, c, off):
    mod = isolated(ENODE, 'consttree')
    n = sym('n', 32)
    for s, size in (('I', 1), ('I', 2), ('I', 4), ('U', 1), ('U', 2), ('U', 4)):
        types = {('ty', off['type.op']): con(c[TY[s]], 32), ('ty', off['type.size']): con(size, 32)}
        pol = run(mod, 'consttree', [n, sym('ty', 64)], types)
        what = 'consttree(), %s of %d bytes' % (TY[s], size)
        r.obligations += 1
        if not pol.rets:
            bad(r, 'constant', ENODE, '%s: never returns' % what, what)
        for st, val, where in pol.rets:
            r.obligations += 1
            made = [e for e in st.ev if e[0] == 'call' and e[1] == 'cnsttree']
            if len(made) != 1 or val != sym(made[0][3], 64) or len(made[0][2]) != 2:
                bad(r, 'constant', where, '%s does not return a constant' % what, what)
                continue
            t, v = made[0][2]
            if t != sym('ty', 64):
                bad(r, 'constant', where, '%s makes a constant of another type' % what, what)
            if v[0] != 'l' or v[1] != 64:
                bad(r, 'constant', where, '%s passes %s' % (what, v), what)
            elif s == 'I' and v != sext(n, 64) or s == 'U' and trunc(v, 32) != n:
                bad(r, 'constant', where, '%s makes the constant %s of n' % (what, show(v)), what)


def _ispow2(r):
    mod = isolated(SIMP, 'ispow2')
    u = sym('u', 64)
    pol = run(mod, 'ispow2', [u], cls=Unroll)
    if not pol.rets:
        raise Anchor('ispow2 never returns')
    for st, val, where in pol.rets:
        r.obligations += 1
        if val == con(0, 32):
            continue
        for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
            if ctx.contradictory():
                continue
            if is_con(val) and 0 < cval(val) < 64 and is_power(ctx, u, cval(val)):
                continue
            bad(r, 'power', where, 'ispow2(u) returns %s where u need not be 2 to that power'
                % show(val), 'ispow2')
            return


def is_power(ctx, u, k):
    if ctx.entails(icmp('eq', u, con(1 << k, 64))):
        return True
    one = any(isinstance(c, tuple) and c[0] == 'eq' and c[1] == and_(u, addc(u, -1))
              for c in ctx.facts)
    if not one:
        return False
    bit = and_(lshr(u, con(k, 64)), con(1, 64))
    alt = and_(u, con(1 << k, 64))
    for c in ctx.facts:
        if not isinstance(c, tuple) or c[0] not in ('ne', 'nbit', 'bit', 'eq'):
            continue
        if c[0] == 'ne' and c[1] in (bit, alt):
            return True
        if c[0] == 'eq' and c[1] in (addc(bit, -1), addc(alt, -(1 << k))):
            return True
    return ctx.entails(icmp('ne', bit, con(0, 64))) or ctx.entails(icmp('ne', alt, con(0, 64)))
