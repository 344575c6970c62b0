"""What VM_Create leaves behind: error discipline, resources, what a successful load guarantees;
VM_Free; the helpers the host uses to reach VM memory."""
from vmload import *
import qvm

BRANCH_OPS = {qvm.NUM[n] for n in qvm.BRANCH}

HEADER = ('vmMagic', 'instructionCount', 'codeOffset', 'codeLength', 'dataOffset', 'dataLength',
          'litLength', 'bssLength')
TAG_FIELD = {0: 'codeBase', 1: 'dataBase', 2: 'instructionPointers'}
POINTERS = ('codeBase', 'dataBase', 'instructionPointers')


class Report:
    def __init__(self, mod):
        self.mod = mod
        self.out = []
        self.obligations = 0

    def bad(self, tag, ins, text, st=None):
        w = self.mod.where(ins) if ins is not None else '?'
        if any(g == tag and f.text == text and f.where == w for g, f in self.out):
            return
        self.out.append((tag, Finding(tag, w, text, trace(self.mod, st) if st else ())))


def is_zero(st, t):
    return (is_con(t) and cval(t) == 0) or st.ctx.entails(icmp('eq', t, con(0, t[1])))


def not_zero(st, t):
    return (is_con(t) and cval(t) != 0) or (
        not is_con(t) and st.ctx.entails(icmp('ne', t, con(0, t[1]))))


class LoaderPost(Report):
    """obligations on every way out of VM_Create"""

    def __init__(self, L):
        super().__init__(L.mod)
        self.L = L
        self.eng = L.eng
        self.npaths = len(L.returns)
        self.nsucc = self.nfail = 0
        for st, ins, val in L.returns:
            if not is_con(val):
                self.bad('error', ins, 'VM_Create returns %s' % show(val), st)
            elif cval(val) == 0:
                self.nsucc += 1
                self.success(st, ins)
            else:
                self.nfail += 1
                self.failure(st, ins)
        if not self.nsucc:
            self.bad('accept', L.f.entry.term, 'no path of VM_Create succeeds')
        if not self.nfail:
            self.bad('reject', L.f.entry.term, 'no path of VM_Create fails')
        self.null_arguments()
        self.decode()

    def fld(self, st, n):
        return self.L.field(self.eng, st, n)

    # --- both
    def resources(self, st, ins, failed):
        live = {}
        for e in st.ev:
            if e[0] == 'malloc':
                live[e[1]] = (e[2], 'live')
            elif e[0] == 'free':
                self.obligations += 1
                b = e[1]
                if b is None or b not in live:
                    self.bad('resource', ins, 'Com_free of something Com_malloc did not return: '
                             '%s' % (show_atom(b) if b else '?'), st)
                    continue
                tag, state = live[b]
                if state == 'freed':
                    self.bad('resource', ins, '%s is freed twice' % show_atom(b), st)
                if not is_con(e[2]) or cval(e[2]):
                    self.bad('resource', ins, 'Com_free of the middle of %s' % show_atom(b), st)
                if e[3] != tag:
                    self.bad('resource', ins, 'memory allocated with type %s is freed with type '
                             '%s' % (show(tag), show(e[3])), st)
                live[b] = (tag, 'freed')
        for b, (tag, state) in live.items():
            self.obligations += 1
            null = ('eq', norm_diff(atom(b))) in st.ctx.facts
            if failed and state == 'live' and not null:
                self.bad('resource', ins, 'VM_Create fails without releasing %s' % show_atom(b),
                         st)
            if not failed:
                f = TAG_FIELD.get(scval(tag)) if is_con(tag) else None
                if state == 'freed':
                    self.bad('resource', ins, 'VM_Create succeeds after freeing %s' %
                             show_atom(b), st)
                elif f is None or self.fld(st, f) != atom(b):
                    self.bad('resource', ins, '%s (type %s) is not stored in vm.%s' % (
                        show_atom(b), show(tag), f), st)

    def failure(self, st, ins):
        self.obligations += 3
        errs = [e for e in st.ev if e[0] == 'error']
        le = self.fld(st, 'lastError')
        if not errs:
            self.bad('error', ins, 'VM_Create fails without calling Com_Error', st)
        if not not_zero(st, le):
            self.bad('error', ins, 'vm.lastError is %s after VM_Create failed' % show(le), st)
        elif errs and le != errs[-1][1]:
            self.bad('error', ins, 'vm.lastError is %s, the error reported last is %s' % (
                show(le), show(errs[-1][1])), st)
        self.resources(st, ins, True)
        for n in POINTERS + ('codeLength', 'instructionCount', 'dataMask', 'callLevel'):
            self.obligations += 1
            t = self.fld(st, n)
            if not is_zero(st, t):
                self.bad('resource', ins, 'a failed VM_Create leaves vm.%s = %s' % (n, show(t)),
                         st)
        self.accept(st, ins, errs)

    # --- completeness: only images with a defect are refused
    def wellformed(self, st):
        h = self.header_terms()
        L = self.L.L
        z = con(0, 32)
        s64 = lambda t: sext(t, 64)
        lim = con(4 << 20, 32)
        c = [icmp('ne', self.L.sysc, con(0, 64)), icmp('ne', atom(self.L.bcb), con(0, 64)),
             icmp('slt', con(32, 32), L), icmp('sle', L, lim)]
        c += [icmp('eq', h['vmMagic'], con(qvm.MAGIC, 32)),
              icmp('sle', con(1, 32), h['codeLength']),
              icmp('sle', con(1, 32), h['instructionCount']),
              icmp('sle', h['instructionCount'], h['codeLength'])]
        for n in ('codeOffset', 'dataOffset', 'dataLength', 'litLength', 'bssLength'):
            c.append(icmp('sle', z, h[n]))
        c.append(icmp('sle', h['bssLength'], con(10 << 20, 32)))
        c.append(icmp('sle', add(s64(h['codeOffset']), s64(h['codeLength'])), s64(L)))
        c.append(icmp('sle', add(add(s64(h['dataOffset']), s64(h['dataLength'])),
                                 s64(h['litLength'])), s64(L)))
        # consequences, spelled out for the linear domain
        for n in ('codeOffset', 'codeLength', 'dataOffset', 'dataLength', 'litLength'):
            c.append(icmp('sle', h[n], L))
        c.append(icmp('sle', add(h['codeOffset'], h['codeLength']), L))
        c.append(icmp('sle', add(add(h['dataOffset'], h['dataLength']), h['litLength']), L))
        return c

    def header_terms(self):
        """the header words as this module reads them, by position in the file"""
        if getattr(self, '_h', None) is None:
            h = {}
            seen = set()
            for st, ins, val in self.L.returns:
                for f in st.ctx.facts:
                    if isinstance(f, bool):
                        continue
                    for t in subterms(f):
                        if t in seen:
                            continue
                        seen.add(t)
                        if t[0] == 'l' and t[1] == 32:
                            o = little_endian(t, 4, self.L.bcb)
                            if o is not None and is_con(o) and cval(o) % 4 == 0 and \
                                    cval(o) < 32:
                                h.setdefault(HEADER[cval(o) // 4], t)
            for i, n in enumerate(HEADER):
                if n not in h:
                    h[n] = None
            self._h = h
        return self._h

    def accept(self, st, ins, errs):
        """a failing path needs a reason: a failed allocation, a missing argument or a
        malformed image"""
        h = self.header_terms()
        if any(v is None for v in h.values()):
            return            # reported by decode()
        wf = self.wellformed(st)
        for k in st.by_cases():
            self.obligations += 1
            if not self.has_reason(st, k, h, wf):
                self.bad('accept', ins, 'VM_Create refuses an image (error %s) under conditions '
                         'that well-formed images meet: %s' % (
                             show(errs[0][1]) if errs else 'none',
                             '; '.join(show(f) for f in k.facts[-3:])[:300]), st)

    def has_reason(self, st, ctx, h, wf):
        for e in st.ev:
            if e[0] == 'malloc' and ('eq', norm_diff(atom(e[1]))) in ctx.facts:
                return True
        k = ctx.copy()
        for c in wf:
            k.assume(c)
        if k.contradictory(True):
            return True
        # the walk over the code
        cl = h['codeLength']
        co = sext(h['codeOffset'], 64)
        at = set()
        for f in ctx.facts:
            if not isinstance(f, bool):
                at |= set(atoms_of(f))
        walk = self.L.bytewalk
        # an unknown opcode
        for a in sorted(at, key=repr):
            if a[0] == 'ld' and a[1] == self.L.bcb and a[3] == 8 and \
                    atoms_of(a[2]) & walk:
                ops = [v for v in range(qvm.COUNT) if cond_true_for(ctx.facts, a, v)]
                if not ops:
                    return True
                # truncated: with room for any instruction it can be the path is impossible
                about = [f for f in ctx.facts if not isinstance(f, bool) and a in atoms_of(f)]
                done = set()
                for o in ops:
                    need = 1 + qvm.OPERAND[qvm.NAMES[o]]
                    try:
                        fs = frozenset(subst_cond(f, {a: con(o, 8)}) for f in about)
                    except (ValueError, KeyError):
                        fs = frozenset()
                    if (need, fs) in done:
                        continue
                    done.add((need, fs))
                    k2 = k.copy()
                    for f in fs:
                        k2.assume(f)
                    k2.assume(icmp('sle', addc(a[2], need), add(co, sext(cl, 64))))
                    if False not in fs and not k2.contradictory(True):
                        break
                else:
                    return True
        # no byte of the code is left
        for a in sorted(at & walk, key=repr):
            off = atom(a)
            k2 = k.copy()
            if awidth(a) == 32:
                k2.assume(icmp('slt', off, cl))
            else:
                k2.assume(icmp('slt', off, sext(cl, 64)))
            if k2.contradictory(True):
                return True
        # a branch to an instruction that does not exist
        for P, opa in self.L.wordwalk:
            ops = [v for v in range(qvm.COUNT) if cond_true_for(ctx.facts, opa, v)]
            tgt = [a for a in at if a[0] == 'ld' and a[1] == opa[1] and a[3] == 32 and
                   a[4] == opa[4] and a[2] == self.L.word(P, 1)]
            if ops and all(o in BRANCH_OPS for o in ops):
                for a in tgt:
                    k2 = k.copy()
                    k2.assume(icmp('sle', con(0, 32), atom(a)))
                    k2.assume(icmp('slt', atom(a), h['instructionCount']))
                    if k2.contradictory(True):
                        return True
        return False

    # --- success
    def success(self, st, ins):
        L = self.L
        errs = [e for e in st.ev if e[0] == 'error']
        self.obligations += 2
        if errs:
            self.bad('error', ins, 'VM_Create reports error %s but succeeds' % show(errs[0][1]),
                     st)
        le = self.fld(st, 'lastError')
        if not is_zero(st, le):
            self.bad('error', ins, 'vm.lastError is %s after VM_Create succeeded' % show(le), st)
        self.resources(st, ins, False)
        h = self.header_terms()
        if any(v is None for v in h.values()):
            return
        # the header was validated
        k = st.ctx
        for c, what in self.obligatory(h):
            self.obligations += 1
            if not k.entails(c):
                self.bad('reject', ins, 'an image is accepted although %s' % what, st)
        if not any(st.ctx.entails(c) for c in [icmp('ne', L.sysc, con(0, 64))]):
            self.bad('reject', ins, 'VM_Create succeeds without a system call handler', st)
        self.guarantee(st, ins, h)

    def obligatory(self, h):
        L = self.L.L
        z = con(0, 32)
        s64 = lambda t: sext(t, 64)
        r = [(icmp('eq', h['vmMagic'], con(qvm.MAGIC, 32)), 'the magic number is wrong'),
             (icmp('sle', con(1, 32), h['instructionCount']), 'it declares no instruction'),
             (icmp('sle', con(1, 32), h['codeLength']), 'the code segment is empty'),
             (icmp('sle', h['instructionCount'], h['codeLength']),
              'it declares more instructions than code bytes')]
        for n in ('codeOffset', 'dataOffset', 'dataLength', 'litLength', 'bssLength'):
            r.append((icmp('sle', z, h[n]), '%s is negative' % n))
        r.append((icmp('sle', add(s64(h['codeOffset']), s64(h['codeLength'])), s64(L)),
                  'the code segment is not inside the file'))
        r.append((icmp('sle', add(add(s64(h['dataOffset']), s64(h['dataLength'])),
                                  s64(h['litLength'])), s64(L)),
                  'the data and lit segments are not inside the file'))
        return r

    def guarantee(self, st, ins, h):
        L, eng = self.L, self.eng
        g = lambda tag, text: self.bad(tag, ins, text, st)
        self.obligations += 12
        dm = self.fld(st, 'dataMask')
        # the mask is 2^n - 1
        p = addc(dm, 1)
        a = single(p)
        pow2 = a is not None and a[0] == 'x' and a[1] == 'shl' and is_con(a[3]) and \
            cval(a[3]) == 1
        if is_con(p):
            pow2 = cval(p) & (cval(p) - 1) == 0
        if not pow2:
            g('guarantee', 'vm.dataMask = %s is not a power of two minus one' % show(dm))
        if not st.ctx.entails(icmp('sle', con(0, 32), dm)):
            g('guarantee', 'vm.dataMask = %s may be negative' % show(dm))
        need = add(add(h['dataLength'], h['litLength']), h['bssLength'])
        if not st.ctx.entails(icmp('sle', need, addc(dm, 1))):
            g('guarantee', 'the data, lit and bss segments may exceed vm.dataMask + 1 bytes')
        db = L.field_base(eng, st, 'dataBase')
        size = L.size_of(eng, st, db) if db else None
        if size is None:
            g('guarantee', 'vm.dataBase does not point to an allocated data segment')
        else:
            if not (size == addc(sext(dm, 64), 5) or size == sext(addc(dm, 5), 64)):
                g('guarantee', 'the data segment has %s bytes instead of vm.dataMask + 5' %
                  show(size))
            self.data_image(st, ins, h, db, size)
        for n in ('instructionCount', 'codeLength'):
            if self.fld(st, n) != h[n]:
                g('guarantee', 'vm.%s is %s instead of the value in the header' % (
                    n, show(self.fld(st, n))))
        cl = h['codeLength']
        cb = L.field_base(eng, st, 'codeBase')
        size = L.size_of(eng, st, cb) if cb else None
        want = addc(scale(sext(cl, 64), 4), 4)
        if size is None or not (size == want or size == sext(addc(scale(cl, 4), 4), 64)):
            g('guarantee', 'the code segment has %s bytes instead of 4 * (code length + 1)' % (
                show(size) if size else '?'))
        ib = L.field_base(eng, st, 'instructionPointers')
        size = L.size_of(eng, st, ib) if ib else None
        if size is None or size != scale(sext(h['instructionCount'], 64), 8):
            g('guarantee', 'the jump table has %s bytes instead of one pointer per instruction' %
              (show(size) if size else '?'))
        ps = self.fld(st, 'programStack')
        if ps != addc(dm, 1):
            g('guarantee', 'the program stack starts at %s instead of the end of the data '
              'segment' % show(ps))
        if self.fld(st, 'systemCall') != L.sysc:
            g('guarantee', 'vm.systemCall is %s' % show(self.fld(st, 'systemCall')))
        for n in ('callLevel', 'currentlyInterpreting', 'breakCount'):
            if not is_zero(st, self.fld(st, n)):
                g('guarantee', 'vm.%s is %s after loading' % (n, show(self.fld(st, n))))
        # the expanded code fits
        p1 = st.aux.get('pass1')
        if p1 is None:
            g('guarantee', 'this path does not expand the code')
        elif not st.ctx.entails(icmp('sle', scale(sext(p1[2], 64), 4),
                                     scale(sext(cl, 64), 4))):
            g('guarantee', 'the expanded code may be longer than the code segment')

    def data_image(self, st, ins, h, db, size):
        self.obligations += 2
        r = st.mem.get(db)
        evs = [e for e in st.ev if e[0] == 'copy' and e[1] == db]
        n = add(h['dataLength'], h['litLength'])
        good = [e for e in evs if is_con(e[2]) and cval(e[2]) == 0 and e[3] == self.L.bcb and
                e[4] == sext(h['dataOffset'], 64) and e[5] in (sext(n, 64), add(
                    sext(h['dataLength'], 64), sext(h['litLength'], 64)))]
        if len(good) != 1 or len(evs) != 1:
            self.bad('image', ins, 'the data segment is not filled with the %s bytes at the '
                     'data offset of the file: %s' % (show(n)[:60], [
                         '%s bytes from %s + %s to %s' % (
                             show(e[5]), show_atom(e[3]) if e[3] else '?', show(e[4]),
                             show(e[2])) for e in evs]), st)
        z = [e for e in st.ev if e[0] == 'zero' and e[1] == db]
        # cleared before the copy
        order = [e for e in st.ev if e[0] in ('zero', 'copy') and e[1] == db]
        if not z or order[0][0] != 'zero' or len(z) != 1 or not (
                is_con(z[0][2]) and cval(z[0][2]) == 0 and z[0][3] == size):
            self.bad('image', ins, 'the data segment is not cleared as a whole before the '
                     'initialised data is copied', st)

    # --- arguments
    def null_arguments(self):
        L = self.L
        L2 = LoaderCheck(self.mod)
        eng = Engine(self.mod, L2)
        L2.eng = eng
        st = L2.start(eng)
        st.env[L2.arg_vm] = con(0, 64)
        eng.run_function(L2.f, st)
        self.obligations += 1
        for f in L2.findings:
            self.out.append(('reject', f))
        if not L2.returns:
            self.bad('reject', L.f.entry.term, 'VM_Create(NULL, ...) does not return')
        for s, ins, v in L2.returns:
            if is_con(v) and cval(v) == 0 or not is_con(v):
                self.bad('reject', ins, 'VM_Create(NULL, ...) returns %s' % show(v), s)
            if not any(e[0] == 'error' and not_zero(s, e[1]) for e in s.ev):
                self.bad('error', ins, 'VM_Create(NULL, ...) fails without calling Com_Error', s)
            if any(e[0] == 'malloc' for e in s.ev):
                self.bad('resource', ins, 'VM_Create(NULL, ...) allocates memory', s)

    # --- the decoder against the instruction set
    def decode(self):
        L = self.L
        w1, w2 = L.walk1, L.walk2
        h = self.header_terms()
        t = L.f.entry.term
        for n, v in h.items():
            self.obligations += 1
            if v is None:
                self.bad('decode', t, 'header word %s (file offset %d) is not decoded as a '
                         'little endian 32-bit value before use' % (n, 4 * HEADER.index(n)))
        if w1 is None:
            self.bad('decode', t, 'the pass that expands the code to words is not recognised')
            return
        where = w1['where']
        if not L.fetches:
            self.bad('fetch', where, 'no instruction is decoded')
        if all(v is not None for v in h.values()):
            end = add(sext(h['codeOffset'], 64), sext(h['codeLength'], 64))
            for s, opa, vals, w in L.fetches:
                n = 1 + max([qvm.OPERAND[qvm.NAMES[v]] for v in vals if v < qvm.COUNT] or [0])
                self.obligations += 1
                if not s.ctx.entails(icmp('sle', addc(opa[2], n), end)):
                    self.bad('fetch', w, 'an instruction of %d bytes (opcode %s) is accepted '
                             'although it may not be complete inside the code segment' % (
                                 n, vals[0] if len(vals) == 1 else vals[:8]), s)
        for op in range(256):
            self.obligations += 1
            D = w1['D'].get(op)
            if op >= qvm.COUNT:
                if D is not None:
                    self.bad('opcode', where, 'byte %d, which is no opcode, is accepted' % op)
                continue
            n = qvm.NAMES[op]
            want = 2 if qvm.OPERAND[n] else 1
            if D is None:
                self.bad('decode', where, 'OP_%s is refused' % n)
            elif D != want:
                self.bad('decode', where, 'OP_%s takes %d words instead of %d' % (n, D, want))
            elif L.operands.get(op) != {qvm.OPERAND[n]}:
                self.bad('decode', where, 'OP_%s is decoded with an operand of %s bytes instead '
                         'of %d' % (n, sorted(L.operands.get(op, ()), key=str), qvm.OPERAND[n]))
        if not w1['fills']:
            self.bad('decode', where, 'the jump table is not filled with the word index of '
                     'every instruction')
        # the words behind the expanded code stop the interpreter
        r = w1['code0']
        self.obligations += 1
        ok = r is not None and any(
            x[0] == 'fill' and is_con(x[1]) and cval(x[1]) == 0 and x[2] == w1['size'] and
            x[3] == qvm.NUM['UNDEF'] for x in r.writes)
        if not ok:
            self.bad('guarantee', where, 'the code segment is not filled with OP_UNDEF before '
                     'the code is expanded')
        if w2 is None:
            self.bad('decode', where, 'the pass that translates branch targets is not '
                     'recognised')
            return
        for op in range(qvm.COUNT):
            self.obligations += 1
            n = qvm.NAMES[op]
            if (op in w2['br']) != (n in qvm.BRANCH):
                self.bad('decode', w2['where'], 'the operand of OP_%s is %stranslated to a code '
                         'address' % (n, 'not ' if n in qvm.BRANCH else ''))


class FreeCheck(Report):
    """VM_Free"""

    def __init__(self, mod):
        super().__init__(mod)
        f = mod.funcs.get('VM_Free')
        if f is None:
            raise Anchor('VM_Free not found')
        pol = LoaderCheck(mod)
        pol.vmb = ('b', 'obj', 'vm')
        pol.bcb = ('b', 'param', 'bytecode')
        pol.f = f
        pol.sizes[pol.vmb] = con(pol.F.total, 64)
        self.pol = pol
        FB = {n: ('b', 'field', n) for n in POINTERS}

        class E(Engine):
            pass
        eng = E(mod, pol)
        pol.eng = eng

        def load_hook(eng_, st, ins, b, off, size):
            if b == pol.vmb and is_con(off) and ('touched', scval(off)) not in st.aux:
                n = pol.F.name(scval(off))
                if n in POINTERS and not any(
                        x[0] == 'fill' or (is_con(x[0]) and scval(x[0]) == scval(off))
                        for x in (st.mem[b].writes if b in st.mem else ())):
                    return atom(FB[n])
            return None
        pol.load_hook = load_hook
        for null in (False, True):
            pol.returns = []
            st = State()
            st.env[f.args[0]] = con(0, 64) if null else atom(pol.vmb)
            eng.run_function(f, st)
            if not pol.returns:
                self.bad('resource', f.entry.term, 'VM_Free does not return')
            for s, ins, v in pol.returns:
                if null:
                    self.obligations += 1
                    if s.ev:
                        self.bad('resource', ins, 'VM_Free(NULL) has an effect', s)
                else:
                    self.one(s, ins, FB)
        for x in pol.findings:
            self.out.append(('resource', x))

    def one(self, s, ins, FB):
        pol, eng = self.pol, self.pol.eng
        lvl = atom(('ld', pol.vmb, con(pol.F.off['callLevel'], 64), 32, '0'))
        frees = [e for e in s.ev if e[0] == 'free']
        errs = [e for e in s.ev if e[0] == 'error']
        self.obligations += 5
        if s.ctx.entails(icmp('eq', lvl, con(0, 32))):
            if errs:
                self.bad('error', ins, 'VM_Free reports an error for an idle VM', s)
            for tag, n in TAG_FIELD.items():
                null = ('eq', norm_diff(atom(FB[n]))) in s.ctx.facts
                m = [e for e in frees if e[1] == FB[n]]
                if null and m:
                    pass          # freeing NULL is harmless
                if not null and len(m) != 1:
                    self.bad('resource', ins, 'VM_Free frees vm.%s %d times' % (n, len(m)), s)
                for e in m:
                    if not is_con(e[3]) or scval(e[3]) != tag:
                        self.bad('resource', ins, 'VM_Free frees vm.%s with type %s' % (
                            n, show(e[3])), s)
                    if not is_con(e[2]) or cval(e[2]):
                        self.bad('resource', ins, 'VM_Free frees the middle of vm.%s' % n, s)
            for e in frees:
                if e[1] not in FB.values():
                    self.bad('resource', ins, 'VM_Free frees %s' % (
                        show_atom(e[1]) if e[1] else 'an unknown pointer'), s)
            for n, o in pol.F.off.items():
                if pol.F.size[n] not in (4, 8):
                    continue
                t = eng.mem_load(s, pol.vmb, con(o, 64), pol.F.size[n],
                                 ('int', 8 * pol.F.size[n]))
                self.obligations += 1
                if not is_con(t) or cval(t):
                    self.bad('resource', ins, 'VM_Free leaves vm.%s = %s' % (n, show(t)), s)
        elif s.ctx.entails(icmp('ne', lvl, con(0, 32))):
            if frees:
                self.bad('resource', ins, 'VM_Free releases the memory of a running VM', s)
            le = pol.field(eng, s, 'lastError')
            if not errs or le != errs[-1][1] or not not_zero(s, le):
                self.bad('error', ins, 'VM_Free on a running VM: lastError is %s, %s' % (
                    show(le), 'reported' if errs else 'nothing is reported'), s)
            for n in POINTERS + ('codeLength', 'dataMask', 'callLevel', 'programStack'):
                size = pol.F.size[n]
                a = eng.mem_load(s, pol.vmb, con(pol.F.off[n], 64), size, ('int', 8 * size))
                b = eng.mem_load(State(), pol.vmb, con(pol.F.off[n], 64), size,
                                 ('int', 8 * size))
                if a != b:
                    self.bad('resource', ins, 'VM_Free on a running VM changes vm.%s' % n, s)
        else:
            self.bad('resource', ins, 'VM_Free does not look at vm.callLevel', s)


class BridgeCheck(Report):
    """VM_ArgPtr, VM_MemoryRangeValid, VM_IntToFloat, VM_FloatToInt"""

    def __init__(self, mod):
        super().__init__(mod)
        from vmsem import InterpPolicy, MASK, IMG, VMB
        self.MASK, self.IMG, self.VMB = MASK, IMG, VMB

        class P(InterpPolicy):
            def access(self, eng, st, ins, b, off, size, write):
                if b == IMG and not eng.quiet:
                    self.report(eng, st, ins, 'bounds', 'the helper touches VM memory itself')
                BoundsPolicy.access(self, eng, st, ins, b, off, size, write)
        self.P = P
        self.arg_ptr()
        self.range_valid()
        self.floats()

    def explore(self, name, env):
        f = self.mod.funcs.get(name)
        if f is None:
            raise Anchor('%s not found' % name)
        pol = self.P(self.mod, {}, set())
        eng = Engine(self.mod, pol)
        st = State()
        for a, v in zip(f.args, env):
            st.env[a] = v
        st.ctx.assume(icmp('sle', con(0, 32), self.MASK))
        st.ctx.assume(icmp('slt', self.MASK, con(1 << 30, 32)))
        eng.run_function(f, st)
        for x in pol.findings:
            self.out.append(('bridge', x))
        if not pol.returns:
            self.bad('bridge', f.entry.term, '%s does not return' % name)
        return f, pol, eng

    def arg_ptr(self):
        A = sym('addr', 64)
        f, pol, eng = self.explore('VM_ArgPtr', (A, atom(self.VMB)))
        M64 = sext(self.MASK, 64)
        for s, ins, v in pol.returns:
            self.obligations += 1
            if is_con(v) and cval(v) == 0:
                if not s.ctx.entails(icmp('eq', A, con(0, 64))):
                    self.bad('bridge', ins, 'VM_ArgPtr returns NULL for an address that is not '
                             'NULL', s)
                continue
            if s.ctx.entails(icmp('eq', A, con(0, 64))):
                self.bad('bridge', ins, 'VM_ArgPtr maps address 0 to %s' % show(v), s)
                continue
            b, off = eng.split_addr(v)
            if b != self.IMG:
                self.bad('bridge', ins, 'VM_ArgPtr returns %s' % show(v), s)
                continue
            if not (s.ctx.entails(icmp('sle', con(0, 64), off)) and
                    s.ctx.entails(icmp('sle', off, M64))):
                self.bad('bridge', ins, 'VM_ArgPtr may return a pointer outside the data segment:'
                         ' offset %s' % show(off), s)
            elif off not in (and_(A, M64), sext(and_(trunc(A, 32), self.MASK), 64),
                             zext(and_(trunc(A, 32), self.MASK), 64)):
                self.bad('bridge', ins, 'VM_ArgPtr returns offset %s instead of the masked '
                         'address' % show(off), s)
        f, pol, eng = self.explore('VM_ArgPtr', (A, con(0, 64)))
        for s, ins, v in pol.returns:
            self.obligations += 1
            if not is_con(v) or cval(v):
                self.bad('bridge', ins, 'VM_ArgPtr(..., NULL) returns %s' % show(v), s)

    def range_valid(self):
        A, n = sym('addr', 64), sym('len', 64)
        f, pol, eng = self.explore('VM_MemoryRangeValid', (A, n, atom(self.VMB)))
        d = zext(trunc(A, 32), 64)
        M = zext(self.MASK, 64)
        inside = [icmp('ule', d, M), icmp('ule', n, M), icmp('ule', add(d, n), M),
                  icmp('ne', A, con(0, 64))]
        for s, ins, v in pol.returns:
            self.obligations += 1
            if not is_con(v):
                self.bad('bridge', ins, 'VM_MemoryRangeValid returns %s' % show(v), s)
            elif cval(v) == 0:
                # a range that ends exactly at the end of the segment may be accepted or refused
                end = add(M, con(1, 64))
                ok = [inside[0], icmp('ule', n, end), icmp('ule', add(d, n), end), inside[3]]
                for c, what in zip(ok, ('start address', 'length', 'end of the range',
                                            'NULL address')):
                    self.obligations += 1
                    if not s.ctx.entails(c):
                        self.bad('bridge', ins, 'VM_MemoryRangeValid accepts a range without '
                                 'checking the %s' % what, s)
            else:
                for k in s.by_cases():
                    if any(k.entails(neg(c)) for c in inside):
                        continue
                    for c in inside:
                        k.assume(c)
                    if not k.contradictory():
                        self.bad('bridge', ins, 'VM_MemoryRangeValid refuses a range inside the '
                                 'data segment', s)
        f, pol, eng = self.explore('VM_MemoryRangeValid', (A, n, con(0, 64)))
        for s, ins, v in pol.returns:
            if not is_con(v) or cval(v) == 0:
                self.bad('bridge', ins, 'VM_MemoryRangeValid accepts a NULL VM', s)

    def floats(self):
        x = sym('x', 32)
        f, pol, eng = self.explore('VM_IntToFloat', (x,))
        for s, ins, v in pol.returns:
            self.obligations += 1
            if v != i2f(x):
                self.bad('bridge', ins, 'VM_IntToFloat does not keep the bits: %s' % show(v), s)
        y = i2f(x)
        f, pol, eng = self.explore('VM_FloatToInt', (y,))
        for s, ins, v in pol.returns:
            self.obligations += 1
            if v != x:
                self.bad('bridge', ins, 'VM_FloatToInt does not keep the bits: %s' % show(v), s)
