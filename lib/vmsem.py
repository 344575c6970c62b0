"""What one bytecode instruction does: summaries of the interpreter loop in VM_Call, per opcode,
compared with the definition of the instruction set."""
from vmpol import *
from vmload import possible
import vmload
import terms
import qvm

PTR_FIELDS = {'dataBase': ('b', 'image'), 'codeBase': ('b', 'code'),
              'instructionPointers': ('b', 'ip')}
INT_FIELDS = ('dataMask', 'instructionCount', 'codeLength')
IMM = set(PTR_FIELDS) | set(INT_FIELDS) | {'systemCall', 'dataAlloc', 'stackBottom', 'name'}
MASK = sym('dataMask', 32)
ICOUNT = sym('instructionCount', 32)
CODELEN = sym('codeLength', 32)
SYSCALL = sym('systemCall', 64)
IMG = ('b', 'image')
CODE = ('b', 'code')
IP = ('b', 'ip')
VMB = ('b', 'obj', 'vm')
terms.LOWMASK.add(single(MASK))


class InterpEngine(Engine):
    def __init__(self, mod, pol):
        super().__init__(mod, pol)
        self.cut = None
        self.cutheaders = set()
        self.arrivals = []

    def is_cut(self, b):
        return b in self.cutheaders

    def join(self, cfg, live, group):
        # a handler is a small loop-free piece of code: all its paths are kept apart
        if self.pol.op is not None and len(group) <= 48:
            return group
        return super().join(cfg, live, group)

    def terminator(self, st, block):
        if block is self.cut:
            self.arrivals.append(st)
            return []
        return super().terminator(st, block)


class InterpPolicy(BoundsPolicy):
    def __init__(self, mod, widths, br):
        super().__init__(mod)
        self.F = Fields(mod, 'vm_s')
        self.widths, self.br = widths, br
        self.sizes[VMB] = con(self.F.total, 64)
        self.sizes[CODE] = addc(scale(sext(CODELEN, 64), 4), 4)
        self.sizes[IP] = scale(sext(ICOUNT, 64), 8)
        self.sizes[IMG] = addc(sext(MASK, 64), 5)
        self.entry = {}
        self.op = None
        self.returns = []
        self.divs = []
        self.div_ok = 0
        self.confined = 0
        self.fetches = []
        self.pc = None            # (pc term, e): the running instruction is at pc + e
        self.rw = []
        self.calls = {}

    # --- vm_t
    def fieldname(self, off):
        return self.F.name(scval(off)) if is_con(off) else None

    def initial_version(self, st, b):
        return '0'

    def load_hook(self, eng, st, ins, b, off, size):
        if b == VMB:
            n = self.fieldname(off)
            if n in PTR_FIELDS:
                return atom(PTR_FIELDS[n])
            if n in INT_FIELDS:
                return sym(n, 32)
            if n == 'systemCall':
                return SYSCALL
        return None

    def store_filter(self, eng, st, ins, b, off, size, val):
        if b == VMB:
            n = self.fieldname(off)
            if n is None or n in IMM:
                self.report(eng, st, ins, 'immutable-field',
                            'VM_Call writes vm_t.%s' % (n or '?'))
        return True

    # --- accesses
    cur = None                # the object of the access being judged

    def access(self, eng, st, ins, b, off, size, write):
        self.cur = b
        try:
            self.access_(eng, st, ins, b, off, size, write)
        finally:
            self.cur = None

    def access_(self, eng, st, ins, b, off, size, write):
        if eng.quiet:
            return
        if b == CODE:
            if write:
                self.report(eng, st, ins, 'code-write', 'the interpreter writes the code segment')
                return
            self.sites[(ins.uid, False)] = ins
            if self.pc is None:
                self.ok[(ins.uid, False)] = 1     # the first fetch: judged with the entry
                return
            pc, e = self.pc
            if size == 4 and (off == word(addc(pc, e + 1)) or off == word(addc(pc, e))):
                # the word behind the running instruction's first word: its operand, the next
                # instruction or the zero word that ends the code
                self.ok[(ins.uid, False)] = 1
                return
            s = st.ctx
            if s.entails(icmp('sle', con(0, 64), off)) and \
                    s.entails(icmp('sle', addc(off, size), self.sizes[CODE])):
                self.ok[(ins.uid, False)] = 1
                return
            # the fetch of the next instruction is decided by the rule for the program counter
            self.fetches.append((st.fork(), ins, off, size))
            return
        if b == IP and write:
            self.report(eng, st, ins, 'code-write', 'the interpreter writes the jump table')
            return
        if b is not None and b[0] == 'b' and b[1] == 'va':
            return
        if b == IMG:
            self.confined += 1
            # a single access starts at a wrapped address, only its tail may use the guard
            if isinstance(size, int) and not eng.quiet and \
                    not st.ctx.entails(icmp('sle', off, sext(MASK, 64))):
                self.report(eng, st, ins, 'no-wrap', '%s of the data segment at offset %s, which '
                            'may lie behind the segment' % ('write' if write else 'read',
                                                            show(off)))
        if self.aligned_ok(eng, st, ins, b, off, size, write):
            return
        super().access(eng, st, ins, b, off, size, write)

    def aligned_ok(self, eng, st, ins, b, off, size, write):
        al = getattr(eng, 'aligned', {}).get(b)
        if al is None:
            return False
        ob, lo, hi = al
        S = self.size_of(eng, st, ob)
        if S is None:
            return False
        sz = con(size, 64) if isinstance(size, int) else size
        self.sites[(ins.uid, write)] = ins
        if st.ctx.entails(icmp('sle', con(0, 64), addc(off, lo))) and \
                st.ctx.entails(icmp('sle', add(addc(off, hi), sz), S)):
            self.ok[(ins.uid, write)] = 1
        else:
            self.report(eng, st, ins, 'bounds', '%s of the operand stack at offset %s: not '
                        'provably inside the %s bytes' % ('write' if write else 'read',
                                                          show(off), show(S)))
        return True

    def unknown_object(self, eng, st, ins, b, off, size, write):
        super().unknown_object(eng, st, ins, b, off, size, write)

    def report(self, eng, st, ins, rule, text):
        if eng.quiet:
            return
        op = qvm.NAMES[self.op] + ': ' if self.op is not None and self.op < qvm.COUNT else ''
        w = self.mod.where(ins)
        if any(f.rule == rule and f.where == w and f.text == op + text for f in self.findings):
            return
        fd = Finding(rule, w, op + text, trace(self.mod, st))
        fd.base = self.cur
        self.findings.append(fd)

    # --- calls
    def call(self, eng, st, ins, name, args):
        if name is None:
            c = eng.value(st, ins.x['callee'])
            if c == SYSCALL:
                snap = []
                b, off = eng.split_addr(args[1]) if len(args) > 1 else (None, None)
                if b is not None:
                    for i in range(16):
                        snap.append(eng.mem_load(st, b, addc(off, 8 * i), 8, ('int', 64)))
                st.ev = st.ev + (('syscall', tuple(args), tuple(snap), st.mem.get(IMG),
                                  self.field(eng, st, 'programStack')),)
                eng.havoc(st, IMG)
                ver = st.mem[IMG].ver
                for n in ('lastError', 'breakCount', 'currentlyInterpreting'):
                    eng.mem_store(st, VMB, con(self.F.off[n], 64), 4,
                                  eng.fresh('after.' + n, 32))
                r = sym('sysret', 64)
                return r if ins.ty != llir.VOID else 'done'
            self.report(eng, st, ins, 'unknown-call', 'calls %s' % show(c))
            return 'stop'
        self.calls[name] = ins
        if name == 'Com_Error':
            st.ev = st.ev + (('error', args[0]),)
            return 'done'
        if name in ('memcpy', 'memmove'):
            b, off = eng.split_addr(args[0])
            b2, off2 = eng.split_addr(args[1])
            if b == IMG:
                self.access(eng, st, ins, b, off, args[2], True)
                if b2 is None:
                    self.report(eng, st, ins, 'wild-pointer', 'copies from %s' % show(args[1]))
                else:
                    self.access(eng, st, ins, b2, off2, args[2], False)
                st.ev = st.ev + (('copy', off, b2, off2, args[2]),)
                r = st.mem.get(IMG) or Region('0')
                st.mem[IMG] = Region(r.ver, r.writes + (('fill', off, args[2], None),))
                return args[0]
            return None
        if name == 'va_start':
            b, off = eng.split_addr(args[0])
            n = len(ins.func.args)
            for o, sz, v in ((0, 4, con(8 * n, 32)), (4, 4, con(48, 32)),
                             (8, 8, base('va', 'overflow')), (16, 8, base('va', 'reg'))):
                eng.mem_store(st, b, addc(off, o), sz, v)
            return 'done'
        if name == 'memset':
            b, off = eng.split_addr(args[0])
            if b is not None and b[1] == 'alloca':
                st.ev = st.ev + (('zero', b, off, args[1], args[2]),)
            return None
        if name in ('Com_malloc', 'Com_free'):
            self.report(eng, st, ins, 'alloc', 'the interpreter calls ' + name)
            return 'done'
        return None

    def div(self, eng, st, ins, op, a, b):
        if eng.quiet or ins is None:
            return
        why = None
        w = a[1]
        if not st.ctx.entails(icmp('ne', b, con(0, w))):
            why = 'the divisor %s may be 0' % show(b)
        elif op[0] == 's' and not (st.ctx.entails(icmp('ne', b, con(-1, w))) or
                                   st.ctx.entails(icmp('ne', a, con(1 << (w - 1), w)))):
            why = '%s / %s may be INT_MIN / -1' % (show(a), show(b))
        if why:
            self.divs.append(Finding('trap', self.mod.where(ins), '%s: %s (SIGFPE)' % (op, why),
                                     trace(self.mod, st)))
        else:
            self.div_ok += 1

    def field(self, eng, st, name):
        return eng.mem_load(st, VMB, con(self.F.off[name], 64), 4, ('int', 32))

    def ret(self, eng, st, ins, val):
        if not eng.quiet:
            self.returns.append((st, ins, val))


def word(t):
    return scale(sext(t, 64), 4)


def slot(o8, k):
    return scale(zext(addc(o8, k), 64), 4)


class OpSummary:
    def __init__(self, op):
        self.op = op
        self.arrivals = []
        self.returns = []


class Interp:
    """the summaries of all opcodes of one build variant"""

    def __init__(self, variant, loader):
        self.variant = variant
        self.mod = load_module(variant)
        f = self.mod.funcs.get('VM_Call')
        if f is None:
            raise Anchor('VM_Call not found')
        self.f = f
        self.pol = InterpPolicy(self.mod, loader['D'], loader['br'])
        self.eng = InterpEngine(self.mod, self.pol)
        self.problems = []
        self.summ = {}
        self.build()

    # --- entry
    def entry_facts(self):
        return [icmp('sle', con(0, 32), MASK), icmp('slt', MASK, con(1 << 30, 32)),
                icmp('sle', con(1, 32), ICOUNT), icmp('sle', ICOUNT, CODELEN),
                icmp('slt', CODELEN, con(1 << 26, 32))]

    def build(self):
        f, eng, pol = self.f, self.eng, self.pol
        cfg = eng.cfg(f)
        sw = [b for b in f.blocks if b.term.op == 'switch' and b in cfg.index]
        if not sw:
            raise Anchor('no dispatch switch')
        cut = max(sw, key=lambda b: len(b.term.x['cases']))
        if len(cut.term.x['cases']) < 40:
            raise Anchor('no dispatch over the opcodes found')
        loops = [(h, body) for h, body in cfg.loops.items() if cut in body]
        if not loops:
            raise Incomplete('the dispatch is not in a loop')
        inloop = set()
        for h, body in loops:
            inloop |= set(body)
        eng.cut = cut
        eng.cutheaders = {h for h, b in loops}
        self.cut, self.inloop = cut, inloop
        # live values at the dispatch
        li = cfg.live_in()
        live = set()
        for s in set(cut.succs):
            live |= {v for v in li[s] if not (isinstance(v, Instr) and v.op == 'phi' and
                                              v.block is s)}
            for i in s.instrs:
                if i.op != 'phi':
                    break
                for v, pb in zip(i.ops, i.x['blocks']):
                    if pb is cut and isinstance(v, (Instr, Arg)):
                        live.add(v)
        self.live = live
        # 1. from the entry to the first dispatch
        st = State()
        for a in f.args:
            st.env[a] = atom(VMB) if a.ty == llir.PTR else sym('command', self.eng.tw(a.ty))
        for c in self.entry_facts():
            st.ctx.assume(c)
        st.aux['nochk'] = True
        eng.run_function(f, st)
        self.entry = [s for s in eng.arrivals]
        self.entry_returns = list(pol.returns)
        pol.returns = []
        if not self.entry:
            raise Incomplete('the dispatch is not reached from the entry')
        e0 = self.entry[0]
        self.e0 = e0
        for s in self.entry:
            s.aux.pop('nochk', None)
        self.vars = {}
        for v in live:
            if isinstance(v, Instr) and v.block in inloop:
                w = eng.tw(v.ty)
                self.vars[v] = None
        self.find_stack()
        self.find_roles()
        self.houdini()
        # the pass that counts
        self.run_ops(report=True)

    def find_stack(self):
        """the operand stack: the local array the loop indexes"""
        eng = self.eng
        al = getattr(eng, 'aligned', {})
        cand = [a for a in al if any(a in s.mem for s in self.entry)]
        cand += [b for b in self.e0.mem if b[0] == 'b' and b[1] == 'alloca' and
                 cval(self.pol.size_of(eng, self.e0, b) or con(0, 64)) >= 1024 and
                 b not in [al[a][0] for a in cand]]
        if len(cand) != 1:
            raise Incomplete('operand stack not identified (%d candidates)' % len(cand))
        self.S = cand[0]
        self.Sobj = al[self.S][0] if self.S in al else self.S

    def find_roles(self):
        """which loop variables are the operand stack index, the program counter, ..."""
        eng, e0 = self.eng, self.e0
        vals = {v: eng.value(e0, v) for v in self.vars}
        scr = eng.value(e0, self.cut.term.ops[0])
        lds = [a for a in atoms_of(scr) if a[0] == 'ld' and a[1] == CODE]
        if scr[0] != 'l' or len(lds) != 1:
            raise Incomplete('the dispatch does not depend on one code word: %s' % show(scr))
        self.opw0 = lds[0]
        ints = [v for v, t in vals.items() if isinstance(t, tuple) and t[0] == 'l']
        self.ofs_cands = [v for v in ints if is_con(vals[v]) and eng.tw(v.ty) in (8, 16, 32, 64)]
        self.ofs_cands.sort(key=lambda v: (eng.tw(v.ty) != 8, v.uid))
        if not is_con(lds[0][2]):
            raise Incomplete('first fetch at %s' % show(lds[0][2]))
        k = scval(lds[0][2]) // 4
        self.pc_cands = [(v, k - scval(vals[v])) for v in ints if is_con(vals[v]) and
                         eng.tw(v.ty) == 32 and abs(k - scval(vals[v])) <= 1]
        self.vals0 = vals
        self.scr0 = scr

    # --- hypotheses
    def houdini(self):
        err = None
        tried = 0
        for ofs in self.ofs_cands:
            for pcv, e in self.pc_cands:
                if pcv is ofs:
                    continue
                tried += 1
                try:
                    if self.try_roles(ofs, pcv, e):
                        return
                except Incomplete as x:
                    err = x
        raise Incomplete('the interpreter state does not follow the stack machine scheme%s' % (
            ': %s' % err if err else ''))

    def templates(self, v):
        """what a loop variable may always be equal to at the dispatch"""
        w = self.eng.tw(v.ty)
        if w == 32:
            return ['top', 'second', 'word', 'operand']
        return []

    def template_value(self, eng, st, kind, ofs8, pcN):
        if kind == 'top':
            return eng.mem_load(st, self.S, slot(ofs8, 0), 4, ('int', 32))
        if kind == 'second':
            return eng.mem_load(st, self.S, slot(ofs8, -1), 4, ('int', 32))
        if kind == 'word':
            return eng.mem_load(st, CODE, word(pcN), 4, ('int', 32))
        if kind == 'operand':
            return eng.mem_load(st, CODE, word(addc(pcN, 1)), 4, ('int', 32))

    def try_roles(self, ofs, pcv, e):
        eng = self.eng
        self.ofs, self.pcv, self.e = ofs, pcv, e
        self.choice = {}
        self.alts = {}
        for v in self.vars:
            if v is ofs or v is pcv:
                continue
            self.alts[v] = self.templates(v) + [None]
            self.choice[v] = 0
        self.unstable = set()          # memory regions / vm fields the loop changes
        eng.quiet += 1
        try:
            for rounds in range(40):
                if not self.check_arrivals(self.entry):
                    continue
                self.run_ops(report=False)
                if self.check_arrivals([s for x in self.summ.values() for s in x.arrivals]):
                    break
            else:
                return False
        finally:
            eng.quiet -= 1
        # the scheme makes sense when the dispatch value is a function of the code word only
        return True

    def ofs8(self, st):
        t = self.eng.value(st, self.ofs)
        return trunc(t, 8) if t[1] > 8 else t

    def pcN(self, st):
        return addc(self.eng.value(st, self.pcv), self.e)

    def check_arrivals(self, states):
        """weaken the hypotheses by what these arrivals violate; True if nothing changed"""
        eng = self.eng
        same = True
        for s in states:
            o, n = self.ofs8(s), self.pcN(s)
            for v, alts in self.alts.items():
                while alts[self.choice[v]] is not None:
                    t = self.template_value(eng, s, alts[self.choice[v]], o, n)
                    x = eng.value(s, v)
                    if x == t:
                        break
                    self.choice[v] += 1
                    same = False
            scr = eng.value(s, self.cut.term.ops[0])
            want = self.dispatch_value(self.template_value(eng, s, 'word', o, n))
            if scr != want:
                raise Incomplete('the dispatch value is not taken from the next instruction: %s'
                                 % show(scr)[:200])
            for b, r in s.mem.items():
                if b in (IMG, self.S, CODE, IP) or b in self.unstable:
                    continue
                if b == VMB:
                    continue
                r0 = self.e0.mem.get(b)
                if r0 is not None and r != r0:
                    self.unstable.add(b)
                    same = False
            for fld, off in self.pol.F.off.items():
                if fld in IMM or self.pol.F.size[fld] != 4 or ('vm', fld) in self.unstable:
                    continue
                if self.pol.field(eng, s, fld) != self.pol.field(eng, self.e0, fld):
                    self.unstable.add(('vm', fld))
                    same = False
        return same

    def dispatch_value(self, w):
        """the dispatch value as a function of the code word"""
        m = {self.opw0: w}
        return subst(self.scr0, m)

    def table_target(self, op):
        t = self.dispatch_value(con(op, 32))
        for a in sorted(atoms_of(t), key=repr):
            if a[0] == 'ld' and a[1][0] == 'b' and a[1][1] == 'g' and is_con(a[2]):
                c = self.eng.initial_content(a[1], a[2], a[3] // 8, ('int', a[3]))
                if c is not None:
                    t = subst(t, {a: c})
        if not is_con(t):
            return None
        term = self.cut.term
        for k, b in term.x['cases']:
            if (k & mask(t[1])) == cval(t):
                return b
        return term.x['targets'][0]

    # --- one opcode
    def op_state(self, op):
        eng = self.eng
        st = State()
        e0 = self.e0
        for c in e0.ctx.facts:
            if not any(a[0] == 'ld' and a[1] == CODE for a in atoms_of(c)):
                st.ctx.assume(c)
        wo = eng.tw(self.ofs.ty)
        o8 = sym('ofs', 8)
        pc = sym('pc', 32)
        st.ctx.assume(icmp('sle', con(0, 32), addc(pc, self.e)))
        st.ctx.assume(icmp('slt', addc(pc, self.e), CODELEN))
        if self.pol.widths.get(op) == 2:
            st.ctx.assume(icmp('slt', addc(pc, self.e + 1), CODELEN))
        for v, t in e0.env.items():
            if isinstance(v, Instr) and v.block in self.inloop:
                continue
            st.env[v] = t
        for b, r in e0.mem.items():
            if b == VMB:
                w = tuple(x for x in r.writes if x[0] != 'fill' and is_con(x[0]) and
                          ('vm', self.pol.F.name(scval(x[0]))) not in self.unstable)
                w += tuple((con(self.pol.F.off[k[1]], 64), 4, sym('vm.' + k[1], 32))
                           for k in sorted((k for k in self.unstable if k[0] == 'vm'), key=repr))
                st.mem[b] = Region('0', w)
            elif b in (IMG, self.S) or b in self.unstable:
                st.mem[b] = Region('cut.' + str(b[-1]))
            else:
                st.mem[b] = r
        st.mem.setdefault(IMG, Region('cut.image'))
        st.mem.setdefault(self.S, Region('cut.S'))
        st.mem.setdefault(CODE, Region('0'))
        if wo == 8:
            st.env[self.ofs] = o8
        else:
            # a wider index variable: is it kept in 0..255?
            st.env[self.ofs] = zext(o8, wo)
        st.env[self.pcv] = pc
        self.pol.pc = (pc, self.e)
        eng.opw = self.template_value(eng, st, 'word', o8, addc(pc, self.e))
        for v in self.vars:
            if v is self.ofs or v is self.pcv:
                continue
            kind = self.alts[v][self.choice[v]]
            if kind == 'word':
                st.env[v] = con(op, 32)
            elif kind is not None:
                st.env[v] = self.template_value(eng, st, kind, o8, addc(pc, self.e))
            elif eng.tw(v.ty) and eng.tw(v.ty) > 1:
                st.env[v] = sym('var.%s' % v.name, eng.tw(v.ty))
            else:
                st.env[v] = eng.unknown(v)
        # the word at the program counter is this opcode
        t = eng.opw
        st.ctx.assume(icmp('eq', t, con(op, 32)))
        st.aux['esc'] = self.e0.aux.get('esc', frozenset())
        return st

    def run_ops(self, report):
        eng, pol = self.eng, self.pol
        for op in range(qvm.COUNT):
            b = self.table_target(op)
            if b is None:
                raise Incomplete('dispatch of opcode %d not determined' % op)
            st = self.op_state(op)
            pol.op = op
            eng.arrivals = []
            pol.returns = []
            eng.nstates = 0
            pol.fetches = []
            s = OpSummary(op)
            s.start = st.fork()
            s.target = b
            q = eng.quiet
            if not report:
                eng.quiet = 1
            st.path = ((self.cut.term, (op,)),)
            eng.explore(self.f, st, b, self.cut, None)
            eng.quiet = q
            s.arrivals = eng.arrivals
            s.returns = pol.returns
            s.fetches = pol.fetches
            self.summ[op] = s
        pol.op = None
