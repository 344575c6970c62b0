"""The definition of every QVM instruction, and the comparison with the summaries."""
from vmsem import *


class Case:
    def __init__(self, cond, **k):
        self.cond = cond
        self.kind = k.get('kind', 'next')     # next | error | done
        self.ofs = k.get('ofs', 0)
        self.pc = k.get('pc')                 # word index of the next instruction
        self.ps = k.get('ps')
        self.top = k.get('top', {})           # k -> [acceptable terms] for slot(ofs + k)
        self.image = k.get('image', ())       # (offset, size, value)
        self.vm = k.get('vm', {})
        self.ev = k.get('ev', ())
        self.copy = k.get('copy')
        self.syscall = k.get('syscall')
        self.soft_error = k.get('soft_error', False)


def spec(I, op, st):
    """cases of the instruction in state st (at the dispatch)"""
    eng = I.eng
    name = qvm.NAMES[op]
    o, N = I.ofs8(st), I.pcN(st)
    T0 = eng.mem_load(st, I.S, slot(o, 0), 4, ('int', 32))
    T1 = eng.mem_load(st, I.S, slot(o, -1), 4, ('int', 32))
    W = eng.mem_load(st, CODE, word(addc(N, 1)), 4, ('int', 32))
    ps = I.ps_value(st)
    n1 = addc(N, 1)
    n2 = addc(N, 2)
    nxt = n2 if qvm.OPERAND[name] else n1
    d = qvm.DELTA[name]

    def addr(t):
        return zext_mask(t)

    def zext_mask(t):
        return sext(and_(t, MASK), 64)

    def img(t, size):
        return eng.mem_load(st, IMG, addr(t), size, ('int', 8 * size))

    def val(*vs, **k):
        return [Case(k.get('cond', True), ofs=d, pc=nxt, top={d: list(vs)})]
    F0, F1 = i2f(T0), i2f(T1)
    if name in ('UNDEF',):
        return [Case(True, kind='error')]
    if name == 'IGNORE':
        return [Case(True, pc=nxt)]
    if name == 'BREAK':
        return [Case(True, pc=nxt, vm={'breakCount': addc(I.pol.field(eng, st, 'breakCount'),
                                                          1)})]
    if name == 'ENTER':
        return [Case(True, pc=nxt, ps=sub(ps, W))]
    if name == 'LEAVE':
        p2 = add(ps, W)
        ra = img(p2, 4)
        prev = eng.mem_load(st, CODE, word(addc(ra, -1)), 4, ('int', 32))
        c1 = icmp('eq', ra, con(-1, 32))
        c2 = cand(cand(icmp('sle', con(1, 32), ra), icmp('slt', ra, CODELEN)),
                  icmp('eq', prev, con(qvm.NUM['CALL'], 32)))
        return [Case(c1, kind='done', ofs=0), Case(c2, pc=ra, ps=p2),
                Case(cand(neg(c1), neg(c2)), kind='error')]
    if name == 'CALL':
        neg_ = icmp('slt', T0, con(0, 32))
        inr = icmp('ult', T0, ICOUNT)
        ret = (addr(ps), 4, n1)
        return [Case(neg_, pc=n1, ofs=0, syscall=True,
                     image=(ret, (addr(addc(ps, 4)), 4, addc(scale(T0, -1), -1))),
                     top={0: [trunc(sym('sysret', 64), 32)]}),
                Case(cand(neg(neg_), inr), ofs=-1, image=(ret,),
                     pc=trunc(eng.mem_load(st, IP, scale(sext(T0, 64), 8), 8, ('int', 64)), 32)),
                Case(cand(neg(neg_), neg(inr)), kind='error')]
    if name in ('PUSH', 'POP'):
        return [Case(True, ofs=d, pc=nxt)]
    if name == 'CONST':
        return val(W)
    if name == 'LOCAL':
        return val(add(W, ps))
    if name == 'JUMP':
        inr = icmp('ult', T0, ICOUNT)
        return [Case(inr, ofs=-1, pc=trunc(eng.mem_load(st, IP, scale(sext(T0, 64), 8), 8,
                                                        ('int', 64)), 32)),
                Case(neg(inr), kind='error')]
    if name in qvm.BRANCH:
        if name in ('EQ', 'NE'):
            c = icmp(name.lower(), T1, T0)
        elif name.endswith('F'):
            c = fcmp({'EQF': 'oeq', 'NEF': 'une', 'LTF': 'olt', 'LEF': 'ole', 'GTF': 'ogt',
                      'GEF': 'oge'}[name], F1, F0)
        else:
            c = icmp({'I': 's', 'U': 'u'}[name[2]] + name[:2].lower(), T1, T0)
        return [Case(c, ofs=-2, pc=W), Case(neg(c), ofs=-2, pc=n2)]
    if name == 'LOAD1':
        return val(zext(img(T0, 1), 32))
    if name == 'LOAD2':
        return val(zext(img(T0, 2), 32))
    if name == 'LOAD4':
        return val(img(T0, 4))
    if name in ('STORE1', 'STORE2', 'STORE4'):
        n = int(name[-1])
        return [Case(True, ofs=-2, pc=nxt, image=((addr(T1), n, trunc(T0, 8 * n)),))]
    if name == 'ARG':
        return [Case(True, ofs=-1, pc=nxt, image=((addr(add(W, ps)), 4, T0),))]
    if name == 'BLOCK_COPY':
        dst, src, n = zext(T1, 64), zext(T0, 64), sext(W, 64)
        M = zext(MASK, 64)
        valid = True
        for c in (icmp('ule', dst, M), icmp('ule', src, M), icmp('ule', n, M),
                  icmp('ule', add(dst, n), M), icmp('ule', add(src, n), M)):
            valid = cand(valid, c)
        return [Case('copied', ofs=-2, pc=nxt, copy=(dst, src, n)),
                Case('refused', ofs=-2, pc=nxt, soft_error=valid)]
    z = con(0, 32)
    if name in ('DIVI', 'DIVU', 'MODI', 'MODU'):
        op_ = {'DIVI': 'sdiv', 'DIVU': 'udiv', 'MODI': 'srem', 'MODU': 'urem'}[name]
        nz = icmp('ne', T0, z)
        alts = [divop(op_, T1, T0)]
        c = Case(nz, ofs=-1, pc=nxt, top={-1: alts})
        cases = [Case(neg(nz), kind='error'), c]
        if name in ('DIVI', 'MODI'):
            c.m1 = (T0, scale(T1, -1) if name == 'DIVI' else z)
        return cases
    two = {'ADD': add, 'SUB': sub, 'MULI': mul, 'MULU': mul, 'BAND': and_, 'BOR': or_,
           'BXOR': xor_, 'LSH': shl, 'RSHI': ashr, 'RSHU': lshr}
    if name in two:
        return val(two[name](T1, T0))
    if name == 'NEGI':
        return val(scale(T0, -1))
    if name == 'BCOM':
        return val(lognot(T0))
    if name == 'SEX8':
        return val(sext(trunc(T0, 8), 32))
    if name == 'SEX16':
        return val(sext(trunc(T0, 16), 32))
    if name == 'NEGF':
        return val(f2i(fop('fneg', 32, F0), 32))
    if name in ('ADDF', 'SUBF', 'MULF', 'DIVF'):
        op_ = {'ADDF': 'fadd', 'SUBF': 'fsub', 'MULF': 'fmul', 'DIVF': 'fdiv'}[name]
        return val(f2i(fop(op_, 32, F1, F0), 32))
    if name == 'CVIF':
        return val(f2i(('fop', 'sitofp', 32, T0), 32))
    if name == 'CVFI':
        return val(trunc(X('fptosi', 64, F0), 32), X('fptosi', 32, F0))
    raise ValueError(name)


def equalities(ctx):
    """atom -> constant that the facts fix"""
    m = {}
    for f in ctx.facts:
        if not isinstance(f, bool) and f[0] == 'eq' and len(f[1][3]) == 1:
            a, k = f[1][3][0]
            if a[0] == 'b':
                continue
            if k == 1:
                m[a] = con(-f[1][2], f[1][1])
            elif k == mask(f[1][1]):
                m[a] = con(f[1][2], f[1][1])
    return m


def same_value(ctx, got, want):
    if got == want:
        return True
    if not (isinstance(got, tuple) and isinstance(want, tuple)):
        return False
    if got[0] != 'l' or want[0] != 'l' or got[1] != want[1]:
        return False
    m = equalities(ctx)
    if m:
        try:
            if subst(got, m) == subst(want, m):
                return True
        except (ValueError, KeyError):
            pass
    return ctx.entails(icmp('eq', got, want))


class SpecCheck:
    """findings: list of (tag, Finding)"""

    def __init__(self, I, ops=None):
        self.I = I
        self.out = []
        self.obligations = 0
        self.ps_var = None
        self.find_ps()
        I.ps_value = self.ps_value
        if ops is None:
            self.check_entry()
        for op in (ops if ops is not None else range(qvm.COUNT)):
            self.check_op(op)

    def find_ps(self):
        I = self.I
        psf = single(I.pol.field(I.eng, State(), 'programStack'))
        c = []
        for v in I.vars:
            t = I.vals0.get(v)
            if isinstance(t, tuple) and t[0] == 'l' and t[1] == 32 and v is not I.ofs and \
                    v is not I.pcv and any(a == psf for a, k in t[3]):
                c.append(v)
        if len(c) != 1:
            raise Incomplete('the program stack pointer of the interpreter is not identified')
        self.ps_var = c[0]

    def ps_value(self, st):
        return self.I.eng.value(st, self.ps_var)

    def bad(self, tag, op, s, ins, text):
        I = self.I
        w = I.mod.where(ins) if ins is not None else I.mod.where(I.cut.term)
        t = 'OP_%s: %s' % (qvm.NAMES[op], text) if op is not None else text
        if any(g == tag and f.text == t and f.where == w for g, f in self.out):
            return
        self.out.append((tag, Finding(tag, w, t, trace(I.mod, s) if s else ())))

    # ---------------------------------------------------------- entry
    NARGS = 13                 # command + 12: the widest vmMain a module may declare

    def vararg(self, i):
        """the i-th int behind the two named arguments (x86-64: 4 registers left, then stack)"""
        if i < 4:
            return atom(('ld', ('b', 'va', 'reg'), con(16 + 8 * i, 64), 32, '0'))
        return atom(('ld', ('b', 'va', 'overflow'), con(8 * (i - 4), 64), 32, '0'))

    def check_entry(self):
        I, eng = self.I, self.I.eng
        z = State()
        ps0 = I.pol.field(eng, z, 'programStack')
        lvl0 = I.pol.field(eng, z, 'callLevel')
        ins = I.cut.term
        for s in I.entry:
            self.obligations += 7 + self.NARGS
            P = self.ps_value(s)
            if P != addc(ps0, -(8 + 4 * self.NARGS)):
                self.bad('frame', None, s, ins, 'a call starts with program stack %s instead of '
                         'vm.programStack - %d' % (show(P), 8 + 4 * self.NARGS))
            o, N = I.ofs8(s), I.pcN(s)
            if not is_con(N) or cval(N) != 0:
                self.bad('frame', None, s, ins, 'execution starts at word %s instead of the '
                         'first instruction' % show(N))

            def slot_(k):
                return sext(and_(addc(P, k), MASK), 64)
            want = [(slot_(0), 4, con(-1, 32)), (slot_(4), 4, con(0, 32)),
                    (slot_(8), 4, sym('command', 32))]
            for i in range(self.NARGS - 1):
                want.append((slot_(12 + 4 * i), 4, self.vararg(i)))
            r = s.mem.get(IMG) or Region('0')
            rest = list(r.writes)
            for w in want:
                m = [x for x in rest if x[0] == w[0] and x[1] == 4]
                if len(m) != 1 or not same_value(s.ctx, m[0][2], w[2]):
                    off = [i for i, x in enumerate(want) if x is w][0]
                    name = ('the return address', 'the return stack word')[off] if off < 2 \
                        else 'argument word %d' % (off - 2)
                    self.bad('frame', None, s, ins, '%s in the frame of the call is %s instead '
                             'of %s' % (name, ' / '.join(show(x[2]) for x in m) or 'not set',
                                        show(w[2])))
                for x in m:
                    rest.remove(x)
            if rest or r.ver != '0':
                self.bad('frame', None, s, ins, 'the call also writes to the data segment: %s' %
                         self.wr(rest))
            # the module can read every entry of its operand stack
            size = I.pol.size_of(eng, s, I.Sobj)
            ok = any(e[0] == 'zero' and is_con(e[4]) and is_con(e[2]) and is_con(e[3]) and
                     ((e[1] == I.Sobj and cval(e[2]) == 0 and cval(e[4]) >= cval(size)) or
                      (e[1] == I.S and cval(e[2]) == 0 and cval(e[4]) >= 1024))
                     for e in s.ev)
            if not ok:
                self.bad('init', None, s, ins, 'the operand stack is not initialised before the '
                         'first instruction (the module can read it)')
            if I.pol.field(eng, s, 'callLevel') != addc(lvl0, 1):
                self.bad('state', None, s, ins, 'vm.callLevel is %s during the call' % show(
                    I.pol.field(eng, s, 'callLevel')))
            ci = I.pol.field(eng, s, 'currentlyInterpreting')
            if not nonzero(s, ci):
                self.bad('state', None, s, ins, 'vm.currentlyInterpreting is %s during the call'
                         % show(ci))
            for e in s.ev:
                if e[0] in ('error', 'syscall', 'copy'):
                    self.bad('frame', None, s, ins, 'unexpected %s before the first instruction'
                             % e[0])
        for s, i2, v in I.entry_returns:
            self.bad('frame', None, s, i2, 'a call returns without running the module')
        # calls that are refused
        for label, vm, neg_ in (('NULL VM', con(0, 64), False), ('unloaded VM', atom(VMB), True)):
            self.obligations += 4
            s0 = State()
            for a in I.f.args:
                s0.env[a] = vm if a.ty == llir.PTR else sym('command', eng.tw(a.ty))
            if neg_:
                s0.ctx.assume(icmp('slt', CODELEN, con(1, 32)))
            I.pol.returns = []
            eng.arrivals = []
            nf = len(I.pol.findings)
            I.pol.pc = None
            eng.run_function(I.f, s0)
            new = I.pol.findings[nf:]
            del I.pol.findings[nf:]
            for f in new:
                self.out.append(('error', f))
            for s in eng.arrivals:
                self.bad('error', None, s, ins, 'VM_Call runs an %s' % label)
            if not I.pol.returns:
                self.bad('error', None, s0, ins, 'VM_Call with an %s does not return' % label)
            for s, i2, v in I.pol.returns:
                errs = [e for e in s.ev if e[0] == 'error']
                if not is_con(v) or scval(v) != -1:
                    self.bad('error', None, s, i2, 'VM_Call returns %s for an %s' % (
                        show(v), label))
                if not errs or not nonzero(s, errs[-1][1]):
                    self.bad('error', None, s, i2, 'VM_Call refuses an %s without reporting it' %
                             label)
                elif neg_:
                    le = I.pol.field(eng, s, 'lastError')
                    if le != errs[-1][1]:
                        self.bad('error', None, s, i2, 'lastError is %s after VM_Call on an %s' %
                                 (show(le), label))
                for f in self.MUT:
                    if f != 'lastError' and I.pol.field(eng, s, f) != I.pol.field(eng, z, f):
                        self.bad('state', None, s, i2, 'a refused call changes vm.%s' % f)
                img = s.mem.get(IMG)
                if img is not None and (img.writes or img.ver != '0'):
                    self.bad('state', None, s, i2, 'a refused call changes the data segment')
            I.pol.returns = []

    # ---------------------------------------------------------- one opcode
    def check_op(self, op):
        I = self.I
        sm = I.summ[op]
        st = sm.start
        cases = spec(I, op, st)
        hit = set()
        for s in sm.arrivals:
            self.arrival(op, sm, st, s, cases, hit)
        for s, ins, v in sm.returns:
            self.returned(op, sm, st, s, ins, v, cases, hit)
        for i, c in enumerate(cases):
            if i not in hit and c.cond is not False:
                self.bad('semantics', op, st, self.op_ins(sm),
                         'no path of the handler implements the case "%s"' % self.desc(c))
        # fetches
        nexts = {word(I.pcN(s)) for s in sm.arrivals}
        for s, ins, off, size in sm.fetches:
            self.obligations += 1
            if off in nexts and size == 4:
                continue
            self.bad('code-fetch', op, s, ins, 'reads the code at %s, which is neither the '
                     'next instruction nor the operand' % show(off))

    def op_ins(self, sm):
        b = sm.target
        for i in b.instrs:
            if i.op != 'phi':
                return i
        return b.term

    @staticmethod
    def desc(c):
        if isinstance(c.cond, str):
            return c.cond
        k = {'next': 'continue', 'error': 'error exit', 'done': 'return to the caller'}[c.kind]
        return k if c.cond is True else '%s when %s' % (k, show(c.cond))

    def applies(self, s, c):
        if c.cond is True:
            return True
        if c.cond == 'copied':
            return any(e[0] == 'copy' for e in s.ev)
        if c.cond == 'refused':
            return not any(e[0] == 'copy' for e in s.ev)
        return holds(s.ctx, c.cond)

    def pick(self, op, s, cases, hit, ins, what):
        for i, c in enumerate(cases):
            if self.applies(s, c):
                hit.add(i)
                return c
        if s.ctx.contradictory():
            return None
        self.bad('semantics', op, s, ins, '%s under conditions that fit no case of the '
                 'instruction: %s' % (what, ', '.join(
                     show(f) for f in s.ctx.facts[len(self.I.e0.ctx.facts):])[:300]))
        return None

    def arrival(self, op, sm, st, s, cases, hit):
        I = self.I
        eng = I.eng
        ins = s.path[-1][0] if len(s.path) > 1 else self.op_ins(sm)
        c = self.pick(op, s, cases, hit, ins, 'continues')
        if c is None:
            if not s.ctx.contradictory():
                self.check_pc(op, sm, st, s, ins, I.pcN(s))
            return
        self.obligations += 1
        if c.kind != 'next':
            self.bad('semantics', op, s, ins, 'continues where the instruction must %s' % (
                'fail' if c.kind == 'error' else 'return'))
            if c.kind == 'error':
                self.bad('error', op, s, ins, 'continues where the call must fail')
            self.check_pc(op, sm, st, s, ins, I.pcN(s))
            return
        o = I.ofs8(st)
        o2, N2, ps2 = I.ofs8(s), I.pcN(s), self.ps_value(s)
        t_ofs = eng.value(s, I.ofs)
        if t_ofs[1] > 8 and t_ofs != zext(o2, t_ofs[1]):
            self.bad('stack', op, s, ins, 'the operand stack index %s may leave 0..255' %
                     show(t_ofs))
        if o2 != addc(o, c.ofs):
            self.bad('semantics', op, s, ins, 'operand stack index becomes %s instead of %s' % (
                show(o2), show(addc(o, c.ofs))))
            return
        # program counter
        okpc = same_value(s.ctx, N2, c.pc)
        if not okpc:
            self.bad('semantics', op, s, ins, 'continues at word %s instead of %s' % (
                show(N2), show(c.pc)))
        self.check_pc(op, sm, st, s, ins, N2)
        # program stack
        want = c.ps if c.ps is not None else self.ps_value(st)
        if not same_value(s.ctx, ps2, want):
            self.bad('semantics', op, s, ins, 'program stack becomes %s instead of %s' % (
                show(ps2), show(want)))
        self.operand_stack(op, st, s, ins, c, o)
        self.image(op, st, s, ins, c)
        self.vmfields(op, st, s, ins, c)
        self.events(op, st, s, ins, c)

    def check_pc(self, op, sm, st, s, ins, N2):
        """the next instruction is at a word the loader validated"""
        I = self.I
        self.obligations += 1
        N = I.pcN(st)
        w = I.pol.widths.get(op)
        if w is not None and N2 == addc(N, w):
            return
        W = I.eng.mem_load(st, CODE, word(addc(N, 1)), 4, ('int', 32))
        if N2 == W:
            if op in I.pol.br:
                return
            self.bad('pc', op, s, ins, 'jumps to its operand, which the loader did not translate '
                     'into the address of an instruction')
            return
        for a in atoms_of(N2):
            if a[0] == 'ld' and a[1] == IP and N2 == trunc(atom(a), 32) and a[3] == 64:
                # the bounds of the index are an obligation of the access itself
                return
        prev = atom(('ld', CODE, word(addc(N2, -1)), 32, '0'))
        if s.ctx.entails(icmp('sle', con(1, 32), N2)) and \
                s.ctx.entails(icmp('slt', N2, CODELEN)):
            for f in s.ctx.facts:
                if not isinstance(f, bool) and f[0] == 'eq' and \
                        f == icmp('eq', prev, con(qvm.NUM['CALL'], 32)):
                    return
        self.bad('pc', op, s, ins, 'continues at %s, which is not known to be the start of an '
                 'instruction' % show(N2))

    def slot_index(self, o, off):
        for k in range(-6, 8):
            if off == slot(o, k):
                return k
        return None

    def operand_stack(self, op, st, s, ins, c, o):
        I = self.I
        eng = I.eng
        r = s.mem.get(I.S)
        r0 = st.mem.get(I.S)
        written = set()
        if r.ver != r0.ver:
            self.bad('stack', op, s, ins, 'the operand stack is overwritten as a whole')
            return
        for x in r.writes:
            if x in r0.writes:
                continue
            k = self.slot_index(o, x[0]) if x[0] != 'fill' else None
            if k is None or x[1] != 4:
                self.bad('stack', op, s, ins, 'writes the operand stack at %s' % (
                    show(x[0]) if x[0] != 'fill' else 'an unknown place'))
                continue
            written.add(k)
        self.obligations += 1
        for k in sorted(written):
            if k <= c.ofs and k not in c.top:
                got = eng.mem_load(s, I.S, slot(o, k), 4, ('int', 32))
                if got != eng.mem_load(st, I.S, slot(o, k), 4, ('int', 32)):
                    self.bad('semantics', op, s, ins, 'changes the operand stack entry %d below '
                             'the top' % (c.ofs - k))
        for k, want in c.top.items():
            got = eng.mem_load(s, I.S, slot(o, k), 4, ('int', 32))
            alts = list(want)
            m1 = getattr(c, 'm1', None)
            if m1 and s.ctx.entails(icmp('eq', m1[0], con(-1, 32))):
                alts.append(m1[1])
            if not any(same_value(s.ctx, got, w) for w in alts):
                tag = 'semantics' if not c.syscall else 'syscall'
                self.bad(tag, op, s, ins, 'pushes %s instead of %s' % (
                    show(got), show(want[0])))

    def image(self, op, st, s, ins, c):
        I = self.I
        if c.syscall:
            return                 # judged with the call
        self.obligations += 1
        r, r0 = s.mem.get(IMG), st.mem.get(IMG)
        new = tuple(x for x in r.writes if x not in r0.writes)
        if c.copy:
            dst, src, n = c.copy
            if len(new) != 1 or new[0][0] != 'fill' or new[0][1] != dst:
                self.bad('semantics', op, s, ins, 'block copy writes %d places' % len(new))
            return
        if r.ver != r0.ver or not self.same_writes(s, new, c.image):
            self.bad('semantics', op, s, ins, 'writes to the data segment: %s; expected: %s' % (
                self.wr(new), self.wr(c.image)))

    @staticmethod
    def wr(ws):
        return ', '.join('[%s]:%d = %s' % (show(w[0]), w[1] * 8, show(w[2]))
                         if w[0] != 'fill' else 'a block at %s' % show(w[1])
                         for w in ws) or 'none'

    def same_writes(self, s, got, want):
        if len(got) != len(want):
            return False
        rest = list(want)
        for g in got:
            for w in rest:
                if g[0] != 'fill' and g[0] == w[0] and g[1] == w[1] and \
                        same_value(s.ctx, g[2], w[2]):
                    rest.remove(w)
                    break
            else:
                return False
        return True

    MUT = ('currentlyInterpreting', 'callLevel', 'breakCount', 'lastError', 'programStack')

    def vmfields(self, op, st, s, ins, c):
        I = self.I
        self.obligations += 1
        for f, off in I.pol.F.off.items():
            if f in IMM or I.pol.F.size[f] != 4:
                continue
            a, b = I.pol.field(I.eng, st, f), I.pol.field(I.eng, s, f)
            if f in c.vm:
                if not same_value(s.ctx, b, c.vm[f]):
                    self.bad('semantics', op, s, ins, 'vm.%s becomes %s instead of %s' % (
                        f, show(b), show(c.vm[f])))
                continue
            if c.syscall and f in ('lastError', 'breakCount', 'currentlyInterpreting',
                                   'programStack'):
                continue
            if c.soft_error and f == 'lastError':
                continue
            if a != b:
                tag = 'state' if f in self.MUT and f != 'breakCount' else 'semantics'
                self.bad(tag, op, s, ins, 'changes vm.%s to %s' % (f, show(b)))

    def events(self, op, st, s, ins, c):
        I = self.I
        ev = [e for e in s.ev if e not in st.ev]
        self.obligations += 1
        if c.copy:
            dst, src, n = c.copy
            cp = [e for e in ev if e[0] == 'copy']
            if len(cp) != 1 or cp[0][1] != dst or cp[0][2] != IMG or cp[0][3] != src or \
                    not same_value(s.ctx, cp[0][4], n):
                self.bad('semantics', op, s, ins, 'copies %s' % [
                    tuple(show(x) if isinstance(x, tuple) and x[0] == 'l' else x
                          for x in e[1:]) for e in cp])
            ev = [e for e in ev if e[0] != 'copy']
        if c.soft_error is not False:
            # refused: reported, and only when the ranges really are bad
            errs = [e for e in ev if e[0] == 'error']
            le = I.pol.field(I.eng, s, 'lastError')
            if not errs:
                self.bad('error', op, s, ins, 'the copy is dropped without an error')
            elif le != errs[-1][1] or not nonzero(s, le):
                self.bad('error', op, s, ins, 'lastError is %s after an error' % show(le))
            k = s.ctx.copy()
            k.assume(c.soft_error)
            for f in flat_and(c.soft_error):
                k.assume(f)
            if not k.contradictory():
                self.bad('semantics', op, s, ins, 'refuses a copy whose ranges are valid')
            return
        if c.syscall:
            sc = [e for e in ev if e[0] == 'syscall']
            if len(sc) != 1:
                self.bad('syscall', op, s, ins, '%d system calls' % len(sc))
            else:
                self.syscall(op, st, s, ins, c, sc[0])
            ev = [e for e in ev if e[0] not in ('syscall', 'zero')]
        for e in ev:
            if e[0] == 'error':
                self.bad('error', op, s, ins, 'reports an error but continues')
            elif e[0] == 'syscall':
                self.bad('semantics', op, s, ins, 'calls the host')
            elif e[0] == 'copy':
                self.bad('semantics', op, s, ins, 'copies memory')

    def syscall(self, op, st, s, ins, c, e):
        I = self.I
        eng = I.eng
        _, args, snap, imgreg, psfield = e
        self.obligations += 4
        if args[0] != atom(VMB):
            self.bad('syscall', op, s, ins, 'first argument of the callback is %s, not the VM' %
                     show(args[0]))
        base_ = [x for x in imgreg.writes if x not in st.mem[IMG].writes]
        if imgreg.ver != st.mem[IMG].ver or not self.same_writes(s, base_, c.image):
            self.bad('syscall', op, s, ins, 'data segment at the call: %s; expected: %s' % (
                self.wr(base_), self.wr(c.image)))
        m = State()
        m.mem[IMG] = imgreg
        ps = self.ps_value(st)
        for i in range(16):
            want = sext(eng.mem_load(m, IMG, sext(and_(addc(ps, 4 + 4 * i), MASK), 64), 4,
                                     ('int', 32)), 64)
            if i == 0 and snap[0] == sext(c.image[1][2], 64):
                continue
            if snap[i] != want:
                self.bad('syscall', op, s, ins, 'argument word %d handed to the callback is %s '
                         'instead of the word at program stack + %d' % (
                             i, show(snap[i]), 4 + 4 * i))
                break
        if psfield != addc(ps, -4):
            self.bad('syscall', op, s, ins, 'vm.programStack is %s during the callback' %
                     show(psfield))

    # ---------------------------------------------------------- exits
    def returned(self, op, sm, st, s, ins, v, cases, hit):
        I = self.I
        c = self.pick(op, s, cases, hit, ins, 'returns')
        self.obligations += 1
        if c is None or c.kind == 'next':
            if c is None and s.ctx.contradictory():
                return
            if c is not None:
                self.bad('semantics', op, s, ins,
                         'ends the call where the instruction must continue')
            self.exit_state(op, s, ins)
            if not any(e[0] == 'error' and e not in st.ev for e in s.ev):
                self.bad('pc', op, s, ins, 'ends the call without an error under conditions '
                         'other than returning to the host')
                self.bad('error', op, s, ins, 'ends the call without reporting an error under '
                         'conditions other than returning to the host')
            else:
                self.error_exit(op, st, s, ins, v)
            return
        self.exit_state(op, s, ins)
        if c.kind == 'error':
            self.error_exit(op, st, s, ins, v)
        else:
            o = I.ofs8(st)
            T0 = I.eng.mem_load(st, I.S, slot(o, 0), 4, ('int', 32))
            if v != sext(T0, v[1]):
                self.bad('frame', op, s, ins, 'VM_Call returns %s instead of the top of the '
                         'operand stack' % show(v))

    def error_exit(self, op, st, s, ins, v):
        I = self.I
        self.obligations += 1
        errs = [e for e in s.ev if e[0] == 'error' and e not in st.ev]
        le = I.pol.field(I.eng, s, 'lastError')
        w = errs[-1] if errs else None
        if not is_con(v) or scval(v) != -1:
            self.bad('error', op, s, ins, 'a failed call returns %s' % show(v))
        if not errs:
            self.bad('error', op, s, ins, 'the call fails without reporting an error')
        elif le != w[1] or not nonzero(s, le):
            self.bad('error', op, s, ins, 'lastError is %s, the reported error is %s' % (
                show(le), show(w[1])))

    def exit_state(self, op, s, ins):
        I = self.I
        self.obligations += 3
        z = State()
        for f in ('programStack', 'callLevel'):
            if I.pol.field(I.eng, s, f) != I.pol.field(I.eng, z, f):
                self.bad('state', op, s, ins, 'VM_Call leaves vm.%s = %s' % (
                    f, show(I.pol.field(I.eng, s, f))))
        ci = I.pol.field(I.eng, s, 'currentlyInterpreting')
        lvl = I.pol.field(I.eng, z, 'callLevel')
        ok = False
        c = icmp('slt', con(0, 32), lvl)
        if ci == X('zext', 32, c):
            ok = True
        elif is_con(ci):
            ok = s.ctx.entails(c if cval(ci) else neg(c))
        elif s.ctx.entails(icmp('sle', con(0, 32), lvl)) and ci == X(
                'zext', 32, icmp('ne', lvl, con(0, 32))):
            ok = True
        elif ci == X('zext', 32, icmp('ne', lvl, con(0, 32))):
            ok = True
        if not ok:
            self.bad('state', op, s, ins, 'VM_Call leaves vm.currentlyInterpreting = %s' %
                     show(ci))


def holds(ctx, c):
    if not isinstance(c, bool) and c[0] == 'and':
        return holds(ctx, c[1]) and holds(ctx, c[2])
    if not isinstance(c, bool) and c[0] == 'or':
        return holds(ctx, c[1]) or holds(ctx, c[2])
    return ctx.entails(c)


def nonzero(s, t):
    return (is_con(t) and cval(t) != 0) or s.ctx.entails(icmp('ne', t, con(0, t[1])))


def flat_and(c):
    if isinstance(c, bool):
        return []
    if c[0] == 'and':
        return flat_and(c[1]) + flat_and(c[2])
    return [c]
