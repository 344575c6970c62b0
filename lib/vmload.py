"""The loader (VM_Create): bounds, the two decoding passes, what a successful load guarantees."""
from vmpol import *


def byte_load(t, b):
    """t is the zero extension of one byte of object b"""
    z = single(t) if t[0] == 'l' else None
    if z is None:
        return None
    if z[0] == 'x' and z[1] in ('zext', 'sext') and z[3][0] == 'l':
        if z[1] == 'sext':
            return None
        z = single(z[3])
    if z is not None and z[0] == 'ld' and z[3] == 8 and z[1] == b:
        return z
    return None


def byte_parts(t, out=None, k=1):
    """t as a sum/or of distinct bytes: {multiplier: byte atom} or None"""
    if out is None:
        out = {}
    w = t[1]
    if t[0] != 'l' or t[2]:
        return None
    for a, c in t[3]:
        c = (c * k) & mask(w)
        if a[0] == 'x' and a[1] in ('or', 'xor'):
            for x in (a[3], a[4]):
                if byte_parts(x, out, c) is None:
                    return None
        elif a[0] == 'x' and a[1] == 'zext' and a[3][0] == 'l' and a[3][1] == 8 and \
                single(a[3]) is not None and single(a[3])[0] == 'ld' and c not in out:
            out[c] = single(a[3])
        elif a[0] == 'x' and a[1] == 'zext' and a[3][0] == 'l':
            if byte_parts(a[3], out, c) is None:
                return None
        else:
            return None
    return out


def little_endian(t, n, b):
    """offset of the first of the n bytes of object b that t assembles, or None"""
    if t[0] == 'l':
        z = single(t)
        if z is not None and z[0] == 'x' and z[1] == 'zext' and z[3][0] == 'l':
            z = single(z[3])
        if z is not None and z[0] == 'ld' and z[1] == b and z[3] == 8 * n:
            return z[2]           # one load: the host is little endian
    p = byte_parts(t)
    if p is None or set(p) != {1 << (8 * i) for i in range(n)}:
        return None
    o = p[1][2]
    for i in range(n):
        a = p[1 << (8 * i)]
        if a[1] != b or a[2] != addc(o, i):
            return None
    return o


def cond_true_for(facts, a, v):
    """can the facts that only talk about atom a hold when a == v?"""
    w = awidth(a)
    m = {a: con(v, w)}
    for f in facts:
        if isinstance(f, bool):
            if not f:
                return False
            continue
        at = atoms_of(f)
        if a not in at:
            continue
        try:
            r = subst_cond(f, m)
        except (ValueError, KeyError):
            continue
        if r is False:
            return False
    return True


def possible(s, a, domain):
    """the values a can have in state s"""
    ks = [k.facts for k in s.by_cases()]
    return [v for v in domain if any(cond_true_for(f, a, v) for f in ks)]


def at_value(t, a, v):
    """the constant that t is when a == v, or None"""
    if isinstance(t, int):
        return t
    try:
        r = subst(t, {a: con(v, awidth(a))})
    except (ValueError, KeyError):
        return None
    return scval(r) if r[0] == 'l' and is_con(r) else None


class LoaderCheck(LoaderPolicy):
    def __init__(self, mod):
        super().__init__(mod)
        f = mod.funcs.get('VM_Create')
        if f is None:
            raise Anchor('VM_Create not found')
        self.f = f
        self.returns = []
        self.pending = []
        self.walk1 = None         # the pass that expands the bytes to words
        self.walk2 = None
        self.bytewalk = set()    # byte walkers, one set per analysis of the loop
        self.wordwalk = []
        self.notes = []
        self.lockstep = []        # accesses decided by the lockstep rule
        self.D = {}               # opcode -> words
        self.BR = set()           # opcodes whose operand is an instruction index
        self.walk_bad = []
        self.operands = {}
        self.fetches = []        # (state at the end of a step, opcode byte, its values, where)
        self.swaps = 0
        self.swap_bad = []

    # --- entry state
    def start(self, eng):
        f = self.f
        st = State()
        ptrs = [a for a in f.args if a.ty == llir.PTR]
        ints = [a for a in f.args if a.ty == llir.I(32)]
        if len(ptrs) != 4 or len(ints) != 1:
            raise Anchor('unexpected signature of VM_Create')
        vm, name, bc, sc = ptrs
        self.vmb = ('b', 'obj', 'vm')
        self.bcb = ('b', 'param', 'bytecode')
        self.L = sym('length', 32)
        self.sizes[self.vmb] = con(self.F.total, 64)
        self.sizes[self.bcb] = sext(self.L, 64)
        st.env[vm] = atom(self.vmb)
        st.env[name] = base('param', 'name')
        st.env[bc] = atom(self.bcb)
        st.env[sc] = sym('systemCalls', 64)
        st.env[ints[0]] = self.L
        self.arg_vm, self.arg_sc = vm, sc
        self.sysc = sym('systemCalls', 64)
        return st

    def run(self):
        self.eng = eng = Engine(self.mod, self)
        st = self.start(eng)
        eng.run_function(self.f, st)
        for p in self.pending:
            self.findings.append(p['finding'])
        return self

    # --- memory
    def field_off(self, name):
        if name not in self.F.off:
            raise Anchor('vm_t has no member %s' % name)
        return con(self.F.off[name], 64)

    def field(self, eng, st, name):
        size = self.F.size[name]
        ty = llir.PTR if name in PTRFIELDS else ('int', size * 8)
        return eng.mem_load(st, self.vmb, self.field_off(name), size, ty)

    def field_base(self, eng, st, name):
        t = self.field(eng, st, name)
        if t[0] != 'l':
            return None
        b, off = eng.split_addr(t)
        if b is not None and is_con(off) and cval(off) == 0:
            return b
        return None

    def call(self, eng, st, ins, name, args):
        r = super().call(eng, st, ins, name, args)
        if name == 'Com_malloc':
            b, _ = eng.split_addr(r)
            st.ev = st.ev + (('malloc', b, args[2]),)
        elif name == 'Com_free':
            b, off = eng.split_addr(args[0])
            st.ev = st.ev + (('free', b, off, args[2], ins.uid),)
        elif name == 'Com_Error':
            st.ev = st.ev + (('error', args[0], ins.uid),)
        elif name == 'memset':
            b, off = eng.split_addr(args[0])
            st.ev = st.ev + (('zero' if is_con(args[1]) and cval(args[1]) & 0xff == 0 else 'fill',
                              b, off, args[2]),)
        elif name in ('memcpy', 'memmove'):
            b, off = eng.split_addr(args[0])
            b2, off2 = eng.split_addr(args[1])
            st.ev = st.ev + (('copy', b, off, b2, off2, args[2]),)
        return r

    def report_bounds(self, *a):
        pass

    def report(self, eng, st, ins, rule, text):
        if eng.quiet:
            return
        w = self.mod.where(ins)
        fd = Finding(rule, w, text, trace(self.mod, st))
        if rule == 'bounds' and self._cur is not None:
            b, off, size = self._cur
            cb = self.field_base(eng, st, 'codeBase')
            if b == cb and b is not None:
                self.pending.append({'finding': fd, 'off': off, 'size': size, 'st': st.fork(),
                                     'ins': ins})
                return
        if any(f.rule == rule and f.where == w for f in self.findings):
            return
        self.findings.append(fd)

    _cur = None

    def access(self, eng, st, ins, b, off, size, write):
        self._cur = (b, off, size)
        if write and not eng.quiet and b == self.bcb:
            self.findings.append(Finding('const-bytecode', self.mod.where(ins),
                                         "the caller's bytecode is written", trace(self.mod, st)))
        super().access(eng, st, ins, b, off, size, write)
        self._cur = None

    def ret(self, eng, st, ins, val):
        if not eng.quiet:
            self.returns.append((st, ins, val))

    # --- the decoding passes
    def loop_done(self, eng, entry, header, gs, back, exits):
        self.image_writes(eng, gs, back)
        cb = self.field_base(eng, gs, 'codeBase')
        if cb is None or not back:
            return
        phis = {}
        for i in header.instrs:
            if i.op != 'phi':
                break
            t = gs.env.get(i)
            a = single(t) if isinstance(t, tuple) and t[0] == 'l' else None
            if a is not None and a[0] == 's':
                phis[a] = i
        # constant step of every loop variable on every way around
        steps = []
        for s, p in back:
            d = {}
            for a, i in phis.items():
                v = s.env.get(i)
                if isinstance(v, tuple) and v[0] == 'l' and v[1] == awidth(a):
                    x = sub(v, atom(a))
                    if is_con(x):
                        d[a] = scval(x)
                    elif a not in atoms_of(x):
                        d[a] = x
            steps.append(d)
        counters = [a for a in phis if all(d.get(a) == 1 for d in steps)]
        zero0 = {}
        for a, i in phis.items():
            t0 = entry.env.get(i)
            zero0[a] = isinstance(t0, tuple) and t0[0] == 'l' and is_con(t0) and cval(t0) == 0
        walkers = [a for a in phis if all(a in d and (not isinstance(d[a], int) or
                                                      1 <= d[a] <= 8) for d in steps)
                   and zero0[a]]
        w = 4
        news = []
        for s, p in back:
            news.append(self.new_writes(gs, s, cb))
        if any(n is None for n in news):
            return
        if any(n for n in news) or 'pass1' in entry.aux:
            self.try_pass1(eng, entry, header, gs, back, exits, phis, steps, counters, walkers,
                           zero0, news, cb)
            self.try_pass2(eng, entry, header, gs, back, exits, phis, steps, counters, walkers,
                           zero0, news, cb)

    def image_writes(self, eng, gs, back):
        """loops over the data segment only bring its words into host order"""
        ib = self.field_base(eng, gs, 'dataBase')
        if ib is None or eng.quiet:
            return
        for s, p in back:
            nw = self.new_writes(gs, s, ib)
            if nw is None:
                self.swap_bad.append(Finding('image', self.mod.where(p.term), 'the data segment '
                                             'is rewritten by a loop that is not understood'))
                continue
            for x in nw:
                self.swaps += 1
                o = little_endian(x[2], x[1], ib) if x[0] != 'fill' else None
                if o is None or not self.same_off(s, o, x[0]):
                    self.swap_bad.append(Finding(
                        'image', self.mod.where(p.term), 'the loader stores %s in the data '
                        'segment, which is not the little endian value found there' % (
                            show(x[2]) if x[0] != 'fill' else 'a block')))

    def new_writes(self, gs, s, b):
        r0, r = gs.mem.get(b), s.mem.get(b)
        if r is None or r0 is None:
            return []
        if r0.ver != r.ver:
            return None
        old = set(r0.writes)
        return [x for x in r.writes if x not in old]

    @staticmethod
    def word(P, j):
        return scale(sext(addc(atom(P), j), 64) if awidth(P) < 64 else addc(atom(P), j), 4)

    def try_pass1(self, eng, entry, header, gs, back, exits, phis, steps, counters, walkers,
                  zero0, news, cb):
        for P in walkers:
            D = {}
            ok = True
            why = ''
            for (s, p), d, nw in zip(back, steps, news):
                cells = {}
                for x in nw:
                    if x[0] == 'fill' or x[1] != 4:
                        ok = False
                        break
                    for j in range(d[P] if isinstance(d[P], int) else 8):
                        if x[0] == self.word(P, j):
                            cells[j] = x[2]
                            break
                    else:
                        ok = False
                if not ok or 0 not in cells or \
                        isinstance(d[P], int) and set(cells) != set(range(d[P])):
                    ok = False
                    break
                opa = byte_load(cells[0], self.bcb)
                if opa is None:
                    ok = False
                    break
                vals = possible(s, opa, range(256))
                self.operand(eng, s, header, opa, d, P, cells, vals)
                for v in vals:
                    n = at_value(d[P], opa, v)
                    if n is None or set(cells) != set(range(n)):
                        ok = False
                        why = 'opcode %d: the words written are not the words skipped' % v
                    elif D.setdefault(v, n) != n:
                        ok = False
                        why = 'opcode %d advances the expansion by %d or %d words' % (
                            v, D[v], n)
            if not ok:
                if why and not eng.quiet:
                    self.walk_bad.append(Finding('decode-width', self.mod.where(header.term),
                                                 why))
                continue
            ks = [k for k in counters if zero0[k]]
            # instruction index -> word index
            ipb = self.field_base(eng, gs, 'instructionPointers')
            fills = []
            esz = 8
            for k in ks:
                good = ipb is not None
                for s, p in back:
                    nw = self.new_writes(gs, s, ipb) if good else None
                    if not nw or len(nw) != 1 or nw[0][0] == 'fill':
                        good = False
                        break
                    o, sz, v = nw[0]
                    if o != scale(sext(atom(k), 64), sz) or v != sext(atom(P), sz * 8):
                        good = False
                        break
                if good:
                    fills.append(k)
            # the operand words: which bytes do they come from
            info = {'D': D, 'P': P, 'K': ks, 'fills': fills, 'where': header.term,
                    'code0': entry.mem.get(cb), 'cb': cb, 'size': self.size_of(eng, entry, cb),
                    'facts': entry.ctx, 'walkers': [a for a in walkers if a != P]}
            for s, b, p in exits:
                x = self.latch_value(s, p, header, phis[P], b)
                kx = {}
                for k in ks:
                    v = self.latch_value(s, p, header, phis[k], b)
                    if v is not None:
                        kx[k] = v
                if x is None or not kx:
                    continue
                s.aux['pass1'] = (cb, s.mem.get(cb), x, tuple(sorted(kx.items(), key=repr)),
                                  tuple(sorted(D.items())),
                                  (ipb, s.mem.get(ipb)) if fills else None)
            if not eng.quiet:
                self.walk1 = info
                self.bytewalk.update(info['walkers'])
            return

    def operand(self, eng, s, header, opa, d, P, cells, vals):
        """the operand word is the little endian value of the bytes behind the opcode, and the
        byte walker advances by the same number of bytes"""
        if eng.quiet:
            return
        n = None
        if 1 in cells:
            for k in (1, 2, 4):
                o = little_endian(cells[1], k, self.bcb)
                # the offsets may differ in how the index was widened
                if o is not None and self.same_off(s, o, addc(opa[2], 1)):
                    n = k
                    break
        for v in vals:
            self.operands.setdefault(v, set()).add(n if 1 in cells else 0)
        self.fetches.append((s, opa, vals, header.term))
        step = [x for a, x in d.items() if a != P and
                all(at_value(x, opa, v) == 1 + (n or 0) for v in vals)]
        if not step or (1 in cells and n is None):
            self.walk_bad.append(Finding(
                'operand-decode', self.mod.where(header.term),
                'opcodes %s: the expanded operand is not the little endian value of the bytes '
                'that follow the opcode' % vals[:6]))

    @staticmethod
    def same_off(s, a, b):
        if a == b:
            return True
        d = sub(a, b)
        return s.ctx.entails(icmp('eq', a, b)) or (is_con(d) and cval(d) == 0)

    def latch_value(self, s, p, header, phi, b):
        """value of a loop variable on a normal exit edge"""
        if p in phi.x['blocks']:
            return eng_value(self.eng, s, phi.ops[phi.x['blocks'].index(p)])
        if p is header:
            return s.env.get(phi)
        return None

    def try_pass2(self, eng, entry, header, gs, back, exits, phis, steps, counters, walkers,
                  zero0, news, cb):
        p1 = entry.aux.get('pass1')
        if p1 is None or p1[0] != cb or entry.mem.get(cb) != p1[1]:
            return
        _, _, X1, KX, D1, ip = p1
        D1 = dict(D1)
        allbad = []
        for P in walkers:
            self.range_bad = []
            reg = gs.mem.get(cb)
            opa = ('ld', cb, self.word(P, 0), 32, version(reg.ver, reg.writes))
            ok = True
            br = {}
            bad = []
            for (s, p), d, nw in zip(back, steps, news):
                vals = possible(s, opa, sorted(D1))
                tr = None
                for x in nw:
                    if x[0] == 'fill' or x[1] != 4 or x[0] not in \
                            [self.word(P, j) for j in range(
                                1, d[P] if isinstance(d[P], int) else 8)]:
                        ok = False
                        break
                    tr = self.translated(eng, s, x, P, gs, cb, ip)
                    if not tr:
                        bad.append('operand written with %s, which is not an entry of '
                                   'instructionPointers' % show(x[2]))
                for v in vals:
                    n = at_value(d[P], opa, v)
                    if n is None or D1[v] != n or any(
                            x[0] not in [self.word(P, j) for j in range(1, n)] for x in nw):
                        ok = False
                        bad.append('opcode %d: the first pass advances by %d words, the second '
                                   'by %s' % (v, D1[v], n))
                    br.setdefault(v, set()).add(bool(nw) and bool(tr))
            if not ok:
                allbad += bad
                continue
            allbad = []
            if eng.quiet:
                return
            for b in set(self.range_bad):
                self.walk_bad.append(Finding('branch-range', self.mod.where(header.term), b))
            for b in bad:
                self.walk_bad.append(Finding('branch-target', self.mod.where(header.term), b))
            self.wordwalk.append((P, opa))
            self.walk2 = {'P': P, 'opa': opa, 'br': {v for v, s in br.items() if s == {True}},
                          'where': header.term}
            size = self.size_of(eng, entry, cb)
            rest = []
            for q in self.pending:
                if self.discharge(eng, q, P, opa, D1, X1, KX, counters, zero0, size):
                    self.lockstep.append(q['ins'])
                    key = (q['ins'].uid, False)
                    self.sites[key] = q['ins']
                    self.ok[key] = self.ok.get(key, 0) + 1
                else:
                    rest.append(q)
            self.pending = rest
            return
        if not eng.quiet and allbad:
            self.walk_bad.append(Finding('decode-lockstep', self.mod.where(header.term),
                                         '; '.join(allbad[:3])))

    def translated(self, eng, s, x, P, gs, cb, ip):
        """the written word is an initialised element of instructionPointers"""
        if ip is None:
            return False
        ipb, ipreg = ip
        if s.mem.get(ipb) != ipreg:
            return False
        v = x[2]
        for a in sorted(atoms_of(v), key=repr):
            if a[0] == 'ld' and a[1] == ipb and v == trunc(atom(a), 32):
                n = self.size_of(eng, s, ipb)
                if not (s.ctx.entails(icmp('sle', con(0, 64), a[2])) and n is not None and
                        s.ctx.entails(icmp('sle', addc(a[2], a[3] // 8), n))):
                    self.range_bad.append('a branch target is translated without having been '
                                          'checked against the number of instructions')
                return True
        return False

    def discharge(self, eng, q, P, opa, D1, X1, KX, counters, zero0, size):
        s, off = q['st'], q['off']
        if q['size'] != 4:
            return False
        for c in range(0, 4):
            if off == self.word(P, c):
                break
        else:
            return False
        vals = possible(s, opa, sorted(D1))
        if any(D1[v] <= c for v in vals):
            return False
        if not any(zero0[k] and s.ctx.entails(icmp('slt', atom(k), x))
                   for k in counters for _, x in KX if x[1] == awidth(k)):
            # the counter may already have been incremented on this path
            return False
        return s.ctx.entails(icmp('sle', scale(sext(X1, 64), 4), size))


def eng_value(eng, s, v):
    r = eng.value(s, v)
    return r if isinstance(r, tuple) and r[0] == 'l' else None


PTRFIELDS = {'codeBase', 'dataBase', 'instructionPointers', 'systemCall'}
