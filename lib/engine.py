"""Trace-partitioned abstract interpretation of LLVM IR over the value-number domain
(terms.py) with linear path facts (facts.py).

* Straight-line code is value-numbered, stores are forwarded to loads.
* Branches partition the traces; traces with the same abstract state are joined again
  (facts are intersected).
* A loop is summarised at its header: everything the body changes becomes unknown, and
  template invariants over the changed values (bounds against the values the loop compares
  with, differences between loop variables) are kept if they hold on entry and are preserved
  by every way around the loop (greatest fixpoint, Houdini style).
Nothing is executed and no path condition is handed to a solver; a Policy object says what
memory and calls mean and receives the obligations.
"""
import heapq
import terms
import llir
from llir import Const, GlobalRef, Instr, Arg
from terms import *
from facts import Ctx
from cfg import CFG


class Incomplete(Exception):
    """the analysis cannot establish the property for this code"""


class Anchor(Exception):
    """what the rules are about is not in this tree: no verdict"""


class Region:
    __slots__ = ('writes', 'ver')

    def __init__(self, ver='0', writes=()):
        self.writes = tuple(writes)     # newest last: (off, size, value) / ('fill', off, len, byte)
        self.ver = ver

    def __eq__(self, o):
        return self.ver == o.ver and self.writes == o.writes

    def __hash__(self):
        return hash((self.ver, self.writes))


class State:
    __slots__ = ('env', 'mem', 'ctx', 'ev', 'path', 'aux', 'cases')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.ctx = Ctx()
        self.ev = ()          # abstract events (policy)
        self.path = ()        # lines of the branches taken, for reports
        self.aux = {}
        self.cases = ((),)    # one of these sets of facts holds as well (joined traces)

    def by_cases(self):
        """the facts of each of the traces joined here"""
        for c in self.cases:
            k = self.ctx.copy()
            for f in c:
                k.assume(f)
            yield k

    def fork(self):
        s = State()
        s.cases = self.cases
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ctx = self.ctx.copy()
        s.ev = self.ev
        s.path = self.path
        s.aux = dict(self.aux)
        return s


class Policy:
    """default policy: sound for memory by treating unknown calls as clobbering everything
    that is not a non-escaping local"""
    noalias_bases = True

    def __init__(self, mod):
        self.mod = mod

    def load_hook(self, eng, st, ins, b, off, size):
        return None          # or a term

    def access(self, eng, st, ins, b, off, size, write):
        pass

    def store_filter(self, eng, st, ins, b, off, size, val):
        return True

    def call(self, eng, st, ins, name, args):
        return None          # NotImplemented -> default handling

    def ret(self, eng, st, ins, val):
        pass

    def div(self, eng, st, ins, op, a, b):
        pass

    def event_key(self, st):
        return st.ev

    def binding(self, name):
        return None


PURE_LIBC = {'strlen', 'strcmp', 'strncmp', 'strchr', 'strrchr', 'strstr', 'isalpha', 'isdigit',
             'isspace', 'toupper', 'tolower', 'abs', 'strcasecmp', 'memcmp', '__ctype_b_loc',
             'atoi', 'atof', 'labs', 'isalnum'}
NOCLOBBER = {'printf', 'puts', 'putchar', 'fprintf', 'fputs', 'fputc', 'exit', 'abort', 'free',
             'fclose', 'perror', 'fflush', 'vfprintf', 'vprintf', 'fwrite', 'getenv', 'unlink',
             'remove', 'fopen', 'fseek', 'ftell', 'rewind', 'ferror', 'signal', 'getpid', 'close'}
NORETURN = {'exit', 'abort', '_exit', '__assert_fail'}


class Engine:
    MAXSTATES = 6000

    def __init__(self, mod, policy):
        self.mod = mod
        self.pol = policy
        self.cfgs = {}
        self.counter = 0
        self.quiet = 0          # >0: hypotheses are being tried, no obligations
        self.nstates = 0
        self.stats = {'loops': 0, 'invariants': 0, 'states': 0}
        self.cut = None          # block whose terminator is a cut point (dispatch)
        self.ptr_atoms = set()
        self.inv_log = []
        self._geo = {}
        self._nogeo = set()
        terms.CONST_LOAD = self.const_load

    def cfg(self, f):
        if f not in self.cfgs:
            self.cfgs[f] = CFG(f)
        return self.cfgs[f]

    def fresh(self, hint, w):
        self.counter += 1
        return sym('%s#%d' % (hint, self.counter), w)

    # ------------------------------------------------------------ values
    def tw(self, ty):
        ty = self.mod.rtype(ty)
        if ty[0] == 'int':
            return ty[1]
        if ty[0] == 'ptr':
            return 64
        return None

    def value(self, st, v):
        if isinstance(v, (Instr, Arg)):
            r = st.env.get(v)
            if r is None:
                r = self.unknown(v)
                st.env[v] = r
            return r
        if isinstance(v, GlobalRef):
            return base('g', v.name)
        if isinstance(v, Const):
            k = v.kind
            w = self.tw(v.ty)
            if k == 'int':
                if w == 1:
                    return bool(v.val & 1)
                return con(v.val, w)
            if k in ('null', 'zero') and w:
                return False if w == 1 else con(0, w)
            if k == 'zero' and v.ty[0] in ('float', 'double', 'x86_fp80'):
                return ('fc', '0', 32 if v.ty[0] == 'float' else 64)
            if k == 'undef':
                return self.unknown(v)
            if k == 'float':
                w = {'float': 32, 'double': 64, 'x86_fp80': 80}[v.ty[0]]
                return ('fc', str(v.val), w)
            if k == 'expr':
                op = v.val[0]
                if op == 'getelementptr':
                    return self.gep(st, v.val[2], v.val[1])
                if op in ('inttoptr', 'ptrtoint', 'bitcast'):
                    x = self.value(st, v.val[1][0])
                    return zext(x, w) if x[1] < w else trunc(x, w)
                if op in llir.BINOPS:
                    return self.binop(None, st, op, self.value(st, v.val[1][0]),
                                      self.value(st, v.val[1][1]))
            if k == 'blockaddress':
                return base('ba', *v.val)
        raise Incomplete('value %r' % (v,))

    def unknown(self, v, hint=None):
        ty = v.ty
        w = self.tw(ty)
        hint = hint or getattr(v, 'name', None) or 'undef'
        if w == 1:
            return ('bit', self.fresh(hint, 1))
        if w is None:
            k = {'float': 32, 'double': 64, 'x86_fp80': 80}.get(ty[0])
            if k is None:
                return ('agg', self.fresh(hint, 1))
            self.counter += 1
            return ('fs', '%s#%d' % (hint, self.counter), k)
        return self.fresh(hint, w)

    def gep(self, st, sty, ops):
        t = self.value(st, ops[0])
        ty = sty
        for k, o in enumerate(ops[1:]):
            if k == 0:
                size = self.mod.sizeof(ty)
            else:
                rt = self.mod.rtype(ty)
                if rt[0] == 'struct':
                    t = addc(t, self.mod.field_offset(rt, o.val))
                    ty = rt[1][o.val]
                    continue
                ty = rt[2]
                size = self.mod.sizeof(ty)
            iv = self.value(st, o)
            t = add(t, scale(sext(iv, 64), size))
        return t

    def binop(self, ins, st, op, a, b):
        w = a[1] if not isinstance(a, bool) else 1
        if isinstance(a, bool) or isinstance(b, bool) or a[0] != 'l' or b[0] != 'l':
            return self.boolop(op, a, b)
        if op == 'add':
            return add(a, b)
        if op == 'sub':
            return sub(a, b)
        if op == 'mul':
            return mul(a, b)
        if op in BITS:
            return BITS[op](a, b)
        if op == 'shl':
            return shl(a, b)
        if op == 'lshr':
            return lshr(a, b)
        if op == 'ashr':
            return ashr(a, b)
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            self.pol.div(self, st, ins, op, a, b)
            return divop(op, a, b)
        raise Incomplete(op)

    @staticmethod
    def boolop(op, a, b):
        if op == 'and':
            return cand(a, b)
        if op == 'or':
            return cor(a, b)
        if op == 'xor':
            if b is True:
                return neg(a)
            if a is True:
                return neg(b)
            if b is False:
                return a
            if a is False:
                return b
            return cor(cand(a, neg(b)), cand(neg(a), b))
        raise Incomplete('bool ' + op)

    # ------------------------------------------------------------ memory
    def split_addr(self, addr):
        """(base atom, offset term)"""
        bs = [a for a, c in addr[3] if c == 1 and (a[0] == 'b' or a in self.ptr_atoms)]
        if len(bs) > 1:
            b2 = [a for a in bs if a[0] == 'b']
            if len(b2) == 1:
                bs = b2
        if len(bs) != 1:
            return None, addr
        b = bs[0]
        return b, sub(addr, atom(b))

    def region(self, st, b):
        r = st.mem.get(b)
        if r is None:
            r = Region(self.pol.initial_version(st, b) if hasattr(self.pol, 'initial_version')
                       else '0')
            st.mem[b] = r
        return r

    def differ(self, st, o1, s1, o2, s2):
        """definitely disjoint accesses within one object"""
        d = sub(o1, o2)
        if is_con(d):
            v = scval(d)
            return v >= s2 or -v >= s1
        x1 = [(a, c) for a, c in o1[3] if (a, c) not in o2[3]]
        x2 = [(a, c) for a, c in o2[3] if (a, c) not in o1[3]]
        if len(x1) == 1 and len(x2) == 1 and o1[2] == o2[2] and x1[0][1] == x2[0][1]:
            a, b = x1[0][0], x2[0][0]
            k = x1[0][1]
            if a[0] == b[0] == 'x' and a[1] == b[1] and a[1] in ('zext', 'sext') and \
                    a[3][0] == 'l' and b[3][0] == 'l' and a[3][1] == b[3][1]:
                e = sub(a[3], b[3])
                if is_con(e) and cval(e) != 0 and s1 <= k and s2 <= k:
                    return True
        return False

    def mem_load(self, st, b, off, size, ty):
        """term (or float term) for a load"""
        r = self.region(st, b)
        w = size * 8
        isf = ty[0] in ('float', 'double', 'x86_fp80')
        clean = False
        for wr in reversed(r.writes):
            if wr[0] == 'fill':
                _, fo, fl, byte = wr
                d = sub(off, fo)
                if isinstance(byte, tuple) and is_con(d) and is_con(fl) and \
                        0 <= scval(d) and scval(d) + size <= scval(fl):
                    s0 = State()
                    s0.mem[byte[1]] = byte[3]
                    return self.mem_load(s0, byte[1], add(byte[2], d), size, ty)
                if isinstance(byte, tuple):
                    byte = None
                if is_con(d) and is_con(fl) and 0 <= scval(d) and scval(d) + size <= scval(fl) \
                        and byte is not None:
                    v = int.from_bytes(bytes([byte]) * size, 'little')
                    return self.typed(con(v, w), ty)
                if is_con(d) and is_con(fl) and (scval(d) >= scval(fl) or scval(d) + size <= 0):
                    continue
                break
            wo, ws, wv = wr
            if wo == off and ws == size:
                return self.retype(wv, ty, size)
            if self.differ(st, off, size, wo, ws):
                continue
            if is_con(sub(off, wo)) and wv[0] == 'l' and is_con(wv):
                d = scval(sub(off, wo))
                if 0 <= d and d + size <= ws:
                    v = (cval(wv) >> (8 * d)) & mask(w)
                    return self.typed(con(v, w), ty)
            break
        else:
            clean = True
            t = self.initial_content(b, off, size, ty)
            if t is not None:
                return t
        ver = r.ver
        if r.writes and not clean:
            ver = version(r.ver, r.writes)
        if w > 64:
            self.counter += 1
            return ('fs', 'ld#%d' % self.counter, 80)
        t = atom(('ld', b, off, w, ver))
        if ty[0] == 'ptr':
            self.ptr_atoms.add(t[3][0][0])
        if isf:
            return i2f(t)
        if b[0] == 'b' and b[1] == 'g' and ty[0] == 'int':
            m = self.table_max(b[2], size)
            if m is not None and m < mask(w) >> 1:
                st.ctx.assume(icmp('ule', t, con(m, w)))
        return t

    def table_max(self, name, size):
        """largest element of a constant array of integers of that size"""
        g = self.mod.globals.get(name)
        if g is None or g.init is None or name not in self.mod.readonly_globals():
            return None
        rt = self.mod.rtype(g.ty)
        if rt[0] != 'arr' or self.mod.rtype(rt[2])[0] != 'int' or \
                self.mod.sizeof(rt[2]) != size or rt[1] > 4096:
            return None
        vs = [self.const_at(g.init, g.ty, k * size, size) for k in range(rt[1])]
        if not vs or any(v is None or not is_con(v) for v in vs):
            return None
        return max(cval(v) for v in vs)

    def const_load(self, b, off, w):
        return self.initial_content(b, off, w // 8, ('int', w))

    def typed(self, t, ty):
        if ty[0] in ('float', 'double'):
            return i2f(t)
        if ty[0] == 'int' and ty[1] < t[1]:
            t = trunc(t, ty[1])
        return t

    def retype(self, v, ty, size):
        w = size * 8
        isf = ty[0] in ('float', 'double', 'x86_fp80')
        if v[0] == 'l':
            if isf:
                return i2f(v)
            return v
        if v[0] in ('i2f', 'fop', 'fs', 'fc'):
            if isf:
                return v
            return f2i(v, w)
        return v

    def initial_content(self, b, off, size, ty):
        """constant global tables"""
        if b[0] == 'b' and b[1] == 'g':
            g = self.mod.globals.get(b[2])
            if g is not None and b[2] in self.mod.readonly_globals() and \
                    g.init is not None and is_con(off):
                c = self.const_at(g.init, g.ty, scval(off), size)
                if c is not None:
                    return c
        return None

    def const_at(self, c, ty, off, size):
        rt = self.mod.rtype(ty)
        while True:
            if isinstance(c, GlobalRef):
                return base('g', c.name) if off == 0 and size == 8 else None
            if c.kind == 'zero':
                return con(0, size * 8)
            if rt[0] in ('int', 'ptr', 'float', 'double'):
                if off == 0 and self.mod.sizeof(rt) == size:
                    return self.value(State(), c)
                return None
            if rt[0] == 'arr':
                es = self.mod.sizeof(rt[2])
                k = off // es
                if off < 0 or k >= rt[1]:
                    return None
                if c.kind == 'str':
                    if es == size:
                        return con(c.val[k], size * 8)
                    return None
                c, off, rt = c.val[k], off - k * es, self.mod.rtype(rt[2])
                continue
            if rt[0] == 'struct':
                for k, e in enumerate(rt[1]):
                    fo = self.mod.field_offset(rt, k)
                    if fo <= off < fo + self.mod.sizeof(e):
                        c, off, rt = c.val[k], off - fo, self.mod.rtype(e)
                        break
                else:
                    return None
                continue
            return None

    def mem_store(self, st, b, off, size, val):
        r = self.region(st, b)
        ws = [w for w in r.writes if not (w[0] != 'fill' and w[0] == off and w[1] == size)]
        if len(ws) != len(r.writes):
            # only drop the older write when nothing in between may overlap it
            idx = max(i for i, w in enumerate(r.writes) if w[0] != 'fill' and w[0] == off
                      and w[1] == size)
            between = r.writes[idx + 1:]
            if not all(w[0] != 'fill' and self.differ(st, off, size, w[0], w[1])
                       for w in between):
                ws = list(r.writes)
        st.mem[b] = Region(r.ver, tuple(ws) + ((off, size, val),))

    def havoc(self, st, b, why=''):
        self.counter += 1
        st.mem[b] = Region('h%d%s' % (self.counter, why))

    def havoc_all(self, st, keep=()):
        self.counter += 1
        st.aux['epoch'] = self.counter
        for b in list(st.mem):
            if b in keep:
                continue
            if b[0] == 'b' and b[1] == 'alloca' and b not in self.escaped(st):
                continue
            if b[0] == 'b' and b[1] == 'g':
                g = self.mod.globals.get(b[2])
                if g is not None and b[2] in self.mod.readonly_globals():
                    continue
            self.havoc(st, b)

    def escaped(self, st):
        return st.aux.get('esc', frozenset())

    def escape(self, st, v):
        if isinstance(v, tuple) and v and v[0] == 'l':
            for a, c in v[3]:
                if a[0] == 'b' and a[1] == 'alloca':
                    st.aux['esc'] = self.escaped(st) | {a}

    # ------------------------------------------------------------ instructions
    def step(self, st, ins):
        """execute a non-terminator on the abstract state; True if control stops here"""
        op = ins.op
        if op in llir.BINOPS and op[0] != 'f':
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            st.env[ins] = self.binop(ins, st, op, a, b)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            st.env[ins] = fop(op, self.fw(ins.ty), a, b)
        elif op == 'fneg':
            st.env[ins] = fop('fneg', self.fw(ins.ty), self.value(st, ins.ops[0]))
        elif op == 'icmp':
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            if isinstance(a, bool) or isinstance(b, bool) or a[0] != 'l' or b[0] != 'l':
                r = self.boolop('xor', a, b)
                st.env[ins] = neg(r) if ins.x['pred'] == 'eq' else r
            else:
                st.env[ins] = self.refine_cmp(st, icmp(ins.x['pred'], a, b))
        elif op == 'fcmp':
            a, b = self.value(st, ins.ops[0]), self.value(st, ins.ops[1])
            st.env[ins] = fcmp(ins.x['pred'], a, b)
        elif op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            self.cast(st, ins)
        elif op in ('fptrunc', 'fpext'):
            a = self.value(st, ins.ops[0])
            st.env[ins] = fop(op, self.fw(ins.ty), a)
        elif op in ('sitofp', 'uitofp'):
            a = self.value(st, ins.ops[0])
            if isinstance(a, bool) or a[0] != 'l':
                a = self.cond_int(a, 32)
            st.env[ins] = ('fop', op, self.fw(ins.ty), a)
        elif op in ('fptosi', 'fptoui'):
            a = self.value(st, ins.ops[0])
            st.env[ins] = X(op, self.tw(ins.ty), a)
        elif op == 'freeze':
            st.env[ins] = self.value(st, ins.ops[0])
        elif op == 'getelementptr':
            st.env[ins] = self.gep(st, ins.x['sty'], ins.ops)
        elif op == 'alloca':
            b = ('b', 'alloca', ins.func.name, ins.name or str(ins.uid))
            st.env[ins] = atom(b)
            st.mem[b] = Region('undef')
        elif op == 'load':
            self.load(st, ins)
        elif op == 'store':
            self.store(st, ins)
        elif op == 'select':
            raise Incomplete('select reached step')
        elif op == 'call':
            return self.call(st, ins)
        elif op in ('extractvalue', 'insertvalue', 'va_arg'):
            st.env[ins] = self.unknown(ins)
        else:
            raise Incomplete('instruction ' + op)
        return False

    def refine_cmp(self, st, c):
        """null tests of known objects"""
        if isinstance(c, bool):
            return c
        if c[0] in ('eq', 'ne') and c[1][1] == 64 and len(c[1][3]) == 1:
            a, k = c[1][3][0]
            if a[0] == 'b' and a[1] in ('alloca', 'g', 'obj') and is_con(con(c[1][2], 64)):
                v = sgn(c[1][2], 64)
                if abs(v) < 1 << 32:
                    return c[0] == 'ne'
        return c

    def fw(self, ty):
        return {'float': 32, 'double': 64, 'x86_fp80': 80}[ty[0]]

    def cond_int(self, c, w, s=False):
        if c is True or c is False:
            return con((-1 if s else 1) if c else 0, w)
        if c[0] == 'l':
            return c
        return X('sext' if s else 'zext', w, c)

    def cast(self, st, ins):
        a = self.value(st, ins.ops[0])
        w = self.tw(ins.ty)
        op = ins.op
        if op == 'bitcast':
            if w is None:
                st.env[ins] = a if a[0] != 'l' else i2f(a)
            elif a[0] != 'l' and not isinstance(a, bool):
                st.env[ins] = f2i(a, w)
            else:
                st.env[ins] = a
            return
        if isinstance(a, bool) or a[0] != 'l':      # i1
            if w == 1:
                st.env[ins] = a
            else:
                st.env[ins] = self.cond_int(a, w, op == 'sext')
            return
        if op in ('ptrtoint', 'inttoptr'):
            r = zext(a, w) if a[1] < w else trunc(a, w)
            if op == 'inttoptr':
                s = single(r)
                if s is not None and s[0] == 'x':
                    self.derived_pointer(s)
            st.env[ins] = r
        elif op == 'trunc':
            if w == 1:
                t = trunc(a, 1)
                s = single(t)
                if is_con(t):
                    st.env[ins] = bool(cval(t))
                elif s and s[0] == 'x' and s[1] == 'zext' and s[3][0] != 'l':
                    st.env[ins] = s[3]
                else:
                    z = single(a)
                    if z and z[0] == 'x' and z[1] in ('zext', 'sext') and z[3][0] != 'l':
                        st.env[ins] = z[3]
                    else:
                        st.env[ins] = icmp('ne', and_(a, con(1, a[1])), con(0, a[1]))
            else:
                st.env[ins] = trunc(a, w)
        elif op == 'zext':
            src = ins.ops[0]
            if getattr(self.pol, 'ranged_trunc', False) and getattr(src, 'op', None) == 'trunc':
                # a value that fits is itself again
                v = st.env.get(src.ops[0])
                if isinstance(v, tuple) and v[0] == 'l' and v[1] == w and \
                        all(c if isinstance(c, bool) else st.ctx.entails(c) for c in
                            (icmp('sle', con(0, w), v), icmp('slt', v, con(1 << a[1], w)))):
                    st.env[ins] = v
                    return
            st.env[ins] = zext(a, w)
        else:
            st.env[ins] = sext(a, w)

    def derived_pointer(self, a):
        """(p + c) & -2**k : an aligned pointer into p's object"""
        if a[1] == 'and':
            for p, q in ((a[3], a[4]), (a[4], a[3])):
                if is_con(q):
                    b = [x for x, c in p[3] if c == 1 and x[0] == 'b']
                    if len(b) == 1 and len(p[3]) == 1:
                        al = -scval(q)
                        if al > 0 and al & (al - 1) == 0:
                            c = sgn(p[2], 64)
                            self.ptr_atoms.add(a)
                            self.aligned = getattr(self, 'aligned', {})
                            self.aligned[a] = (b[0], c - (al - 1), c)

    def load(self, st, ins):
        addr = self.value(st, ins.ops[0])
        size = self.mod.sizeof(ins.ty)
        b, off = self.split_addr(addr)
        if not self.quiet or True:
            self.pol.access(self, st, ins, b, off, size, False)
        if b is None:
            st.env[ins] = self.unknown(ins, 'wild')
            return
        r = self.pol.load_hook(self, st, ins, b, off, size)
        if r is None:
            r = self.mem_load(st, b, off, size, self.mod.rtype(ins.ty))
        w = self.tw(ins.ty)
        if w == 1 and not isinstance(r, bool) and r[0] == 'l':
            r = icmp('ne', trunc(r, 1), con(0, 1))
        elif w and w != 1 and (isinstance(r, bool) or r[0] != 'l'):
            r = self.cond_int(r, w)
        st.env[ins] = r

    def store(self, st, ins):
        v = self.value(st, ins.ops[0])
        addr = self.value(st, ins.ops[1])
        size = self.mod.sizeof(ins.ops[0].ty)
        if isinstance(v, bool) or (v[0] not in ('l', 'i2f', 'fop', 'fs', 'fc', 'agg')):
            v = self.cond_int(v, 8)
        b, off = self.split_addr(addr)
        self.pol.access(self, st, ins, b, off, size, True)
        if b is None:
            self.havoc_all(st)
            return
        if b[0] != 'b' or b[1] != 'alloca':
            self.escape(st, v)
        if v[0] == 'agg':
            self.havoc(st, b)
            return
        if self.pol.store_filter(self, st, ins, b, off, size, v):
            self.mem_store(st, b, off, size, v)

    def callee_name(self, ins):
        c = ins.x['callee']
        if isinstance(c, GlobalRef):
            return c.name
        return None

    def call(self, st, ins):
        name = self.callee_name(ins)
        args = [self.value(st, o) if not (isinstance(o, Const) and o.ty == llir.META)
                else None for o in ins.ops]
        if name and name.startswith('llvm.'):
            base_ = name.split('.')[1]
            if base_ in ('memcpy', 'memmove', 'memset'):
                name = base_
            elif base_ == 'va_start' and self.pol.call(self, st, ins, 'va_start', args):
                return False
            elif base_ in ('va_start', 'va_end', 'va_copy', 'stacksave', 'stackrestore',
                           'assume', 'experimental', 'dbg', 'lifetime'):
                if ins.ty != llir.VOID:
                    st.env[ins] = self.unknown(ins)
                return False
        r = self.pol.call(self, st, ins, name, args)
        if r is not None:
            if r == 'stop':
                return True
            if ins.ty != llir.VOID:
                st.env[ins] = r if r is not NotImplemented and r != 'done' else self.unknown(ins)
            return False
        if name == 'memset':
            self.do_memset(st, ins, args)
            st.env[ins] = args[0]
            return False
        if name in ('memcpy', 'memmove'):
            self.do_memcpy(st, ins, args)
            st.env[ins] = args[0]
            return False
        if name in NORETURN:
            return True
        if name in PURE_LIBC or name in NOCLOBBER:
            if ins.ty != llir.VOID:
                st.env[ins] = self.unknown(ins, name)
            return False
        for a in args:
            self.escape(st, a)
        self.havoc_all(st)
        if ins.ty != llir.VOID:
            st.env[ins] = self.unknown(ins, name or 'indirect')
        return False

    def do_memset(self, st, ins, args):
        b, off = self.split_addr(args[0])
        n = args[2]
        self.pol.access(self, st, ins, b, off, n, True)
        if b is None:
            self.havoc_all(st)
            return
        byte = cval(args[1]) & 0xff if is_con(args[1]) else None
        if not self.pol.store_filter(self, st, ins, b, off, n, None):
            return
        r = self.region(st, b)
        ws = r.writes
        if is_con(off) and scval(off) == 0 and is_con(n):
            # drop the writes the fill covers
            ws = tuple(w for w in ws if not (w[0] != 'fill' and is_con(w[0]) and
                                             0 <= scval(w[0]) and
                                             scval(w[0]) + w[1] <= scval(n)))
        st.mem[b] = Region(r.ver, ws + (('fill', off, n, byte),))

    def do_memcpy(self, st, ins, args):
        b, off = self.split_addr(args[0])
        b2, off2 = self.split_addr(args[1])
        n = args[2]
        self.pol.access(self, st, ins, b, off, n, True)
        self.pol.access(self, st, ins, b2, off2, n, False)
        if b is None:
            self.havoc_all(st)
            return
        if not self.pol.store_filter(self, st, ins, b, off, n, None):
            return
        if b2 is not None and is_con(n) and is_con(off) and is_con(off2) and cval(n) <= 256:
            # copy known cells
            src = self.region(st, b2)
            n_ = cval(n)
            cells = []
            ok = True
            covered = 0
            for wr in src.writes:
                if wr[0] == 'fill' or not is_con(wr[0]):
                    ok = False
                    break
                o = scval(wr[0]) - scval(off2)
                if 0 <= o and o + wr[1] <= n_:
                    cells.append((o, wr[1], wr[2]))
                    covered += wr[1]
            if ok and cells:
                if covered < n_:
                    # the rest is unknown
                    r = self.region(st, b)
                    st.mem[b] = Region(r.ver, r.writes + (('fill', off, n, None),))
                for o, s, v in cells:
                    self.mem_store(st, b, addc(off, o), s, v)
                return
        r = self.region(st, b)
        # a copy of known length: loads from it are loads from the source as it is now
        src = None
        if b2 is not None and is_con(n):
            r2 = self.region(st, b2)
            src = ('copy', b2, off2, r2, version(r2.ver, r2.writes))
        st.mem[b] = Region(r.ver, r.writes + (('fill', off, n, src),))

    # ------------------------------------------------------------ control flow
    def edge(self, st, prev, block):
        """evaluate the phis of block for the edge prev->block"""
        new = []
        for i in block.instrs:
            if i.op != 'phi':
                break
            for v, pb in zip(i.ops, i.x['blocks']):
                if pb is prev:
                    new.append((i, self.value(st, v)))
                    break
            else:
                raise Incomplete('phi edge')
        for i, v in new:
            st.env[i] = v

    def assume(self, st, c):
        """False if the condition cannot hold"""
        if c is True:
            return True
        if c is False:
            return False
        f = st.ctx.facts
        if neg(c) in f:
            return False
        st.ctx.assume(c)
        if c[0] == 'and':
            st.ctx.assume(c[1])
            st.ctx.assume(c[2])
        return True

    def feasible(self, st, c):
        """cheap infeasibility test used to prune impossible traces"""
        if c is True or c is False:
            return c
        if c in st.ctx.facts:
            return True
        if neg(c) in st.ctx.facts:
            return False
        if c[0] in ('eq', 'ne', 'slt', 'sle', 'ult', 'ule', 'and', 'or'):
            return not st.ctx.entails(neg(c))
        return True

    def run_block(self, st, block, start=0):
        """-> list of (state, successor block) ; [] when the trace ends"""
        states = [(st, start)]
        out = []
        while states:
            st, k = states.pop()
            n = len(block.instrs)
            ended = False
            while k < n:
                ins = block.instrs[k]
                if ins.op == 'phi':
                    k += 1
                    continue
                if ins.is_term:
                    break
                if ins.op == 'select':
                    c = self.value(st, ins.ops[0])
                    if c is True or c is False:
                        st.env[ins] = self.value(st, ins.ops[1 if c else 2])
                    else:
                        s2 = st.fork()
                        if self.feasible(s2, neg(c)) and self.assume(s2, neg(c)):
                            s2.env[ins] = self.value(s2, ins.ops[2])
                            states.append((s2, k + 1))
                        if self.feasible(st, c) and self.assume(st, c):
                            st.env[ins] = self.value(st, ins.ops[1])
                        else:
                            ended = True
                            break
                    k += 1
                    continue
                if self.step(st, ins):
                    ended = True
                    break
                k += 1
            if ended:
                continue
            out.extend(self.terminator(st, block))
        return out

    def terminator(self, st, block):
        t = block.term
        if t.op == 'ret':
            v = self.value(st, t.ops[0]) if t.ops else None
            self.pol.ret(self, st, t, v)
            return []
        if t.op == 'unreachable':
            return []
        if t.op == 'br':
            if not t.ops:
                return [(st, t.x['targets'][0])]
            c = self.value(st, t.ops[0])
            a, b = t.x['targets']
            if c is True:
                return [(st, a)]
            if c is False:
                return [(st, b)]
            if a is b:
                return [(st, a)]
            out = []
            s2 = st.fork()
            if self.feasible(st, c) and self.assume(st, c):
                st.path += ((t, True),)
                out.append((st, a))
            if self.feasible(s2, neg(c)) and self.assume(s2, neg(c)):
                s2.path += ((t, False),)
                out.append((s2, b))
            return out
        if t.op == 'switch':
            v = self.value(st, t.ops[0])
            default = t.x['targets'][0]
            if is_con(v):
                for k, b in t.x['cases']:
                    if (k & mask(v[1])) == cval(v):
                        return [(st, b)]
                return [(st, default)]
            groups = {}
            for k, b in t.x['cases']:
                groups.setdefault(b, []).append(k)
            out = []
            allne = st.fork()
            dead = False
            for k, b in t.x['cases']:
                if b is not default and not self.assume(allne, icmp('ne', v, con(k, v[1]))):
                    dead = True
            for b, ks in groups.items():
                if b is default:
                    continue
                s2 = st.fork()
                c = False
                for k in ks:
                    e = icmp('eq', v, con(k, v[1]))
                    if len(ks) == 1 or self.feasible(st, e):
                        c = cor(c, e)
                if self.assume(s2, c):
                    s2.path += ((t, tuple(ks)),)
                    out.append((s2, b))
            if not dead:
                allne.path += ((t, 'default'),)
                out.append((allne, default))
            return out
        raise Incomplete('terminator ' + t.op)

    # --- the driver
    def run_function(self, f, st):
        self.cfg(f)
        self.explore(f, st, f.entry, None, None)

    def explore(self, f, st, block, prev, loop):
        """run all traces from (prev -> block).  With loop = (header, body) the traces stop at
        the back edge and at the exits: returns (back edge states, exits)."""
        cfg = self.cfg(f)
        live = cfg.live_in()
        back = []
        exits = []
        pending = []
        seq = 0

        def push(s, b, p):
            nonlocal seq
            seq += 1
            heapq.heappush(pending, (cfg.index[b], seq, s, b, p))
        if loop is None:
            push(st, block, prev)
        else:
            # start inside the header (phis already set)
            for s, b in self.run_block_guard(f, st, block):
                self.route(cfg, loop, s, b, block, push, back, exits)
        while pending:
            idx = pending[0][0]
            group = []
            while pending and pending[0][0] == idx:
                _, _, s, b, p = heapq.heappop(pending)
                if p is not None:
                    self.edge(s, p, b)
                group.append((s, b, p))
            group = self.join(cfg, live, group)
            for s, b, p in group:
                self.nstates += 1
                self.stats['states'] += 1
                if self.nstates > self.MAXSTATES:
                    raise Incomplete('too many abstract states in %s' % f.name)
                if b in cfg.loops and (loop is None or b is not loop[0]) and not self.is_cut(b):
                    for es, eb, ep in self.do_loop(f, s, b):
                        if loop is not None and eb not in loop[1]:
                            exits.append((es, eb, ep))
                        elif loop is not None and eb is loop[0]:
                            self.edge(es, ep, eb)
                            back.append((es, ep))
                        else:
                            push(es, eb, ep)
                    continue
                for s2, b2 in self.run_block_guard(f, s, b):
                    if loop is None:
                        push(s2, b2, b)
                    else:
                        self.route(cfg, loop, s2, b2, b, push, back, exits)
        return back, exits

    def is_cut(self, b):
        return False

    def run_block_guard(self, f, s, b):
        return self.run_block(s, b)

    def route(self, cfg, loop, s, b, prev, push, back, exits):
        if b is loop[0]:
            self.edge(s, prev, b)
            back.append((s, prev))
        elif b not in loop[1]:
            exits.append((s, b, prev))
        else:
            push(s, b, prev)

    def join(self, cfg, live, group):
        if len(group) == 1:
            return group
        out = {}
        for s, b, p in group:
            lv = live[b] | {i for i in b.instrs if i.op == 'phi'}
            env = {v: s.env[v] for v in lv if v in s.env}
            key = (tuple(sorted(((v.uid if isinstance(v, Instr) else -v.index - 1), t)
                                for v, t in env.items()) if False else
                         frozenset((id(v), t) for v, t in env.items())),
                   frozenset((k, (r.ver, r.writes)) for k, r in s.mem.items()),
                   self.pol.event_key(s), frozenset(s.aux.items()), b)
            if key in out:
                o = out[key][0]
                f1, f2 = set(o.ctx.facts), set(s.ctx.facts)
                d1 = tuple(x for x in o.ctx.facts if x not in f2)
                d2 = tuple(x for x in s.ctx.facts if x not in f1)
                cs = [c + d1 for c in o.cases] + [c + d2 for c in s.cases]
                o.cases = tuple(cs) if len(cs) <= 64 else ((),)
                o.ctx = Ctx([x for x in o.ctx.facts if x in f2], o.ctx.known)
            else:
                out[key] = (s, b, p)
        return list(out.values())

    # --- loops
    def do_loop(self, f, st, header):
        cfg = self.cfg(f)
        body = cfg.loops[header]
        self.stats['loops'] += 1
        phis = [i for i in header.instrs if i.op == 'phi']
        init = {i: st.env[i] for i in phis}
        # 1. what does the body change in memory?
        modcells = {}        # base -> set of (off, size) or None (whole object)
        again = False
        for i in phis:
            self._geo.pop(i, None)
        self.quiet += 1
        c0 = self.counter
        try:
            for rounds in range(12):
                gs, vars_ = self.generalise(st, header, phis, init, modcells, [])
                back, exits = self.explore(f, gs.fork(), header, None, (header, body))
                changed = False
                for s in [x[0] for x in back] + [x[0] for x in exits]:
                    for b, r in s.mem.items():
                        r0 = gs.mem.get(b)
                        if r0 is not None and r0 == r:
                            continue
                        if b in modcells and modcells[b] is None:
                            continue
                        if b[0] == 'b' and b[1] == 'alloca' and r0 is None:
                            continue
                        if b[0] == 's' and r0 is None and '#' in b[1] and \
                                b[1].rsplit('#', 1)[1].isdigit() and \
                                int(b[1].rsplit('#', 1)[1]) > c0 and b not in st.mem:
                            continue        # an object that is new in each iteration
                        if r0 is None and not r.writes and r.ver == self.region(gs, b).ver:
                            continue
                        n0 = len(r0.writes) if r0 is not None else 0
                        if r0 is not None and r0.ver != r.ver:
                            modcells[b] = None
                            changed = True
                            continue
                        w0 = set(r0.writes) if r0 is not None else set()
                        for w in r.writes:
                            if w in w0:
                                continue
                            if w[0] == 'fill' or not is_con(w[0]) or w[1] > 8 \
                                    or not isinstance(w[1], int):
                                modcells[b] = None
                                changed = True
                                break
                            cell = (w[0], w[1])
                            if cell not in modcells.setdefault(b, set()):
                                modcells[b].add(cell)
                                changed = True
                if not changed:
                    break
            else:
                raise Incomplete('loop at %s (%s): modified memory does not stabilise' % (
                    header.name, self.mod.where(header.term)))
            # variables that double each time around are written as 1 << k
            geo = self.geometric(init, gs, phis, back)
            if geo:
                self._geo.update(geo)
                gs, vars_ = self.generalise(st, header, phis, init, modcells, [])
                back, exits = self.explore(f, gs.fork(), header, None, (header, body))
            # 2. candidate invariants
            cands = self.candidates(st, gs, vars_, back, exits, header)
            # hold on entry?
            sub0 = {v: t for v, (t, kind) in vars_.items() if t is not None}
            keep = []
            for c in cands:
                try:
                    if st.ctx.entails(subst_cond(c, sub0)):
                        keep.append(c)
                except ValueError:
                    pass
            # 3. consecution
            while True:
                gs, vars2 = self.generalise(st, header, phis, init, modcells, keep, vars_)
                back, exits = self.explore(f, gs.fork(), header, None, (header, body))
                bad = set()
                for s, p in back:
                    m = self.back_values(s, phis, vars2, modcells)
                    for c in keep:
                        if c in bad:
                            continue
                        try:
                            if m is None or not s.ctx.entails(subst_cond(c, m)):
                                bad.add(c)
                        except ValueError:
                            bad.add(c)
                if not bad:
                    break
                keep = [c for c in keep if c not in bad]
            lost = [i for i in phis if i in self._geo and not any(
                w == ('phi', i) and icmp('sle', atom(a), con(30, awidth(a))) in keep
                for a, (t, w) in vars_.items())]
            if lost:
                for i in lost:
                    del self._geo[i]
                    self._nogeo.add(i)
                again = True
        finally:
            self.quiet -= 1
        if again:
            return self.do_loop(f, st, header)
        self.stats['invariants'] += len(keep)
        if not self.quiet:
            self.inv_log.append((self.mod.where(header.term), [show(c) for c in keep]))
        # 4. the pass that counts
        gs, _ = self.generalise(st, header, phis, init, modcells, keep, vars_)
        back, exits = self.explore(f, gs.fork(), header, None, (header, body))
        if hasattr(self.pol, 'loop_done'):
            self.pol.loop_done(self, st, header, gs, back, exits)
        return exits

    def generalise(self, st, header, phis, init, modcells, inv, reuse=None):
        """state at the header with everything the loop changes unknown; vars: atom -> (initial
        value term, where)"""
        s = st.fork()
        vars_ = {}
        back = {}
        if reuse:
            for a, (t, where) in reuse.items():
                back[where] = a
        for i in phis:
            t0 = init[i]
            w = self.tw(i.ty)
            if w is None:
                s.env[i] = self.unknown(i)
                continue
            if w == 1:
                s.env[i] = self.unknown(i)
                continue
            b = None
            if i.ty == llir.PTR and not isinstance(t0, bool):
                b, off = self.split_addr(t0)
            where = ('phi', i)
            a = back.get(where)
            if a is None:
                self.counter += 1
                a = ('s', '%s@%s#%d' % (i.name, header.name, self.counter), w)
            if b is not None:
                s.env[i] = add(atom(b), atom(a))
                vars_[a] = (off, where)
            elif i in self._geo:
                s.env[i] = shl(con(1, w), atom(a))
                vars_[a] = (con(self._geo[i], w), where)
            else:
                s.env[i] = atom(a)
                vars_[a] = (t0 if t0[0] == 'l' else None, where)
                if i.ty == llir.PTR:
                    self.ptr_atoms.add(a)
        for b, cells in modcells.items():
            if cells is None:
                self.havoc(s, b)
                continue
            r = self.region(s, b)
            for off, size in sorted(cells, key=repr):
                where = ('mem', b, off, size)
                a = back.get(where)
                if a is None:
                    self.counter += 1
                    a = ('s', 'mem[%s+%s]@%s#%d' % (show_atom(b), show(off), header.name,
                                                   self.counter), size * 8)
                t0 = self.mem_load(st, b, off, size, ('int', size * 8))
                vars_[a] = (t0 if t0[0] == 'l' else None, where)
                self.mem_store(s, b, off, size, atom(a))
        for c in inv:
            s.ctx.assume(c)
        return s, vars_

    def back_values(self, s, phis, vars_, modcells):
        m = {}
        for a, (t0, where) in vars_.items():
            if where[0] == 'phi':
                i = where[1]
                v = s.env[i]
                if i.ty == llir.PTR and t0 is not None and not isinstance(v, bool):
                    b, off = self.split_addr(v)
                    if b is not None and b == self._ptrbase.get(a):
                        m[a] = off
                        continue
                    if a in self._ptrbase:
                        return None
                if isinstance(v, bool) or v[0] != 'l':
                    return None
                if i in self._geo:
                    one = con(1, v[1])
                    if v not in (scale(shl(one, atom(a)), 2), shl(one, addc(atom(a), 1))):
                        return None
                    v = addc(atom(a), 1)
                m[a] = v
            else:
                _, b, off, size = where
                v = self.mem_load(s, b, off, size, ('int', size * 8))
                if v[0] != 'l':
                    v = self.fresh('f', size * 8)
                m[a] = v
        return m

    _ptrbase = {}

    def geometric(self, init, gs, phis, back):
        """loop variables with a power of two as initial value that double on every way
        around: phi -> exponent of the initial value"""
        out = {}
        for i in phis:
            t0, g = init[i], gs.env.get(i)
            if i in self._nogeo or i.ty[0] != 'int' or i.ty[1] < 32 or t0[0] != 'l' or \
                    not is_con(t0) or g is None or single(g) is None:
                continue
            v0 = cval(t0)
            if v0 <= 0 or v0 & (v0 - 1) or not back:
                continue
            if all(s.env.get(i) == scale(g, 2) for s, p in back):
                out[i] = v0.bit_length() - 1
        return out

    def candidates(self, st, gs, vars_, back, exits, header):
        """template invariants"""
        self._ptrbase = dict(self._ptrbase)
        cands = []
        lv = set(vars_)
        ints = []
        for a, (t0, where) in vars_.items():
            if where[0] == 'phi' and where[1].ty == llir.PTR:
                v = gs.env[where[1]]
                b, _ = self.split_addr(v)
                if b is not None:
                    self._ptrbase[a] = b
            if t0 is None:
                continue
            ints.append(a)
        # loop-invariant terms the body compares with
        others = {}
        shifts = set()
        for s in [x[0] for x in back] + [x[0] for x in exits]:
            for c in s.ctx.facts:
                self.collect_cmp(c, lv, others)
            for a in list(lv):
                pass
        allat = set()
        for s in [x[0] for x in back] + [x[0] for x in exits]:
            for c in s.ctx.facts:
                allat |= atoms_of(c)
            for t in s.env.values():
                if isinstance(t, tuple) and t and t[0] == 'l':
                    allat |= atoms_of(t)
        for a in allat:
            if a[0] == 'x' and a[1] == 'shl' and is_con(a[3]):
                shifts |= atoms_of(a[4]) & lv
        shifts |= {a for a in ints if vars_[a][1][0] == 'phi' and vars_[a][1][1] in self._geo}
        for a in ints:
            w = awidth(a)
            t = atom(a)
            t0 = vars_[a][0]
            cands.append(icmp('sle', t0, t))
            cands.append(icmp('sle', t, t0))
            if not is_con(t0):
                cands.append(icmp('sle', con(0, w), t))
            if a in shifts:
                cands.append(icmp('sle', t, con(30, w)))
                cands.append(icmp('sle', t, con(29, w)))
            for o in sorted(others.get(a, ()), key=repr):
                cands.append(icmp('sle', t, o))
                cands.append(icmp('sle', t, addc(o, -1)))
                if not is_con(o):
                    cands.append(icmp('sle', o, t))
                    cands.append(icmp('ule', t, o))
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                wa, wb = awidth(a), awidth(b)
                ta, tb = atom(a), atom(b)
                if wa != wb:
                    if wa < wb:
                        ta = sext(ta, wb)
                    else:
                        tb = sext(tb, wa)
                cands.append(icmp('sle', ta, tb))
                cands.append(icmp('sle', tb, ta))
                x0, y0 = vars_[a][0], vars_[b][0]
                if wa == wb:
                    d0 = sub(x0, y0)
                    cands.append(icmp('eq', sub(ta, tb), d0))
                    if is_con(d0) and is_con(x0):
                        for k in (2, 4, 8):
                            cands.append(icmp('sle', ta, scale(tb, k)))
                            cands.append(icmp('sle', tb, scale(ta, k)))
        cands += self.pol.extra_candidates(self, st, gs, vars_, back, exits) \
            if hasattr(self.pol, 'extra_candidates') else []
        out = []
        seen = set()
        for c in cands:
            if c is True or c is False or c in seen:
                continue
            seen.add(c)
            out.append(c)
        return out

    def collect_cmp(self, c, lv, out):
        """loop-invariant terms each loop variable is compared with (in both widths)"""
        if isinstance(c, bool):
            return
        if c[0] in ('slt', 'sle', 'ult', 'ule'):
            self.relate(sub(c[1], c[2]), lv, out)
            # t + step < limit: the limit itself is interesting
            for x, y in ((c[1], c[2]), (c[2], c[1])):
                if x[2] and not (atoms_of(y) & lv):
                    self.relate(sub(addc(x, -x[2]), y), lv, out)
        elif c[0] in ('eq', 'ne'):
            self.relate(c[1], lv, out)
        elif c[0] in ('and', 'or'):
            self.collect_cmp(c[1], lv, out)
            self.collect_cmp(c[2], lv, out)

    def relate(self, d, lv, out):
        """d = k*var + rest compared with 0"""
        w = d[1]
        mine = [(a, k) for a, k in d[3] if (({a} | atoms_of(atom(a))) & lv)]
        if len(mine) != 1:
            return
        a, k = mine[0]
        rest = mk(w, d[2], {x: y for x, y in d[3] if x is not a})
        if k == 1:
            o = scale(rest, -1)
        elif k == mask(w):
            o = rest
        else:
            return
        while a not in lv:
            if a[0] == 'x' and a[1] in ('sext', 'zext', 'trunc') and a[3][0] == 'l':
                t = a[3]
                o = self.narrow(o, t[1])
                if o is None:
                    return
                mine = [(x, y) for x, y in t[3] if (({x} | atoms_of(atom(x))) & lv)]
                if len(mine) != 1 or mine[0][1] != 1:
                    return
                a = mine[0][0]
                o = sub(o, mk(t[1], t[2], {x: y for x, y in t[3] if x is not a}))
            else:
                return
        if is_con(o) and abs(scval(o)) > 1 << 40:
            return
        out.setdefault(a, set()).add(o)

    @staticmethod
    def narrow(o, w):
        if o[1] == w:
            return o
        if o[1] < w:
            return zext(o, w)
        return trunc(o, w)
