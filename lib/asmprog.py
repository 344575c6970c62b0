"""q3asm as a program: main with everything but the line assembler and the string loops inlined."""
from asmsem import *
from effects import READONLY, WRITE0

IO = {'fopen', 'fwrite', 'fread', 'fclose', 'fseek', 'ftell', 'remove', 'unlink', 'rename',
      'ferror', 'fflush', 'fputs', 'fputc', 'open', 'write', 'close', 'creat'}


class RestorePolicy(Policy):
    """does a function give a global back the value it had? (calls by their effects)"""

    def __init__(self, mod, eff, glob):
        super().__init__(mod)
        self.eff, self.glob = eff, glob
        self.bad = []
        self.rets = 0

    def initial_version(self, st, b):
        return '0'

    def call(self, eng, st, ins, name, args):
        if name is None:
            raise Incomplete('indirect call at ' + self.mod.where(ins))
        n = libname(name)
        if name in self.eff.noreturn or n in NORETURN:
            return 'stop'
        mods = self.eff.mods.get(name)
        if mods is None:
            if n not in READONLY and n not in WRITE0:
                return None
            mods = {('arg', 0)} if n in WRITE0 else set()
        for r in mods:
            if r[0] == 'g':
                eng.havoc(st, ('b', 'g', r[1]))
            elif r[0] == 'arg' and r[1] < len(args):
                b, off = eng.split_addr(args[r[1]])
                if b is not None:
                    eng.havoc(st, b)
        if ins.ty == llir.VOID:
            return 'done'
        t = eng.fresh('r', eng.tw(ins.ty) or 64)
        if ins.ty == llir.PTR:
            eng.ptr_atoms.add(single(t))
        return t

    def ret(self, eng, st, ins, val):
        if eng.quiet:
            return
        self.rets += 1
        b = ('b', 'g', self.glob)
        v = eng.mem_load(st, b, con(0, 64), 4, ('int', 32))
        v0 = eng.mem_load(self.st0, b, con(0, 64), 4, ('int', 32))
        if not st.ctx.entails(icmp('eq', v, v0)):
            self.bad.append(self.mod.where(ins))


def restores(mod, eff, fname, glob, lo, hi):
    """every return of the function leaves the 32 bit global as it was on entry (lo..hi)"""
    pol = RestorePolicy(mod, eff, glob)
    eng = Engine(mod, pol)
    st = State()
    b = ('b', 'g', glob)
    v = eng.mem_load(st, b, con(0, 64), 4, ('int', 32))
    st.ctx.assume(icmp('sle', con(lo, 32), v))
    st.ctx.assume(icmp('sle', v, con(hi, 32)))
    pol.st0 = st.fork()
    try:
        eng.run_function(mod.funcs[fname], st)
    except Incomplete:
        return False
    return not pol.bad


class ProgPolicy(LinePolicy):
    def __init__(self, prog):
        super().__init__(prog.asm)
        self.mod = prog.mod
        self.prog = prog
        self.rets = []
        self.passes = []

    def event_key(self, st):
        return st.ev

    def load_hook(self, eng, st, ins, b, off, size):
        sm = self.seg_member(b, off)
        if sm and sm[1] == 'image':
            return eng.fresh('image', size * 8)
        return None

    def store_filter(self, eng, st, ins, b, off, size, val):
        sm = self.seg_member(b, off)
        if sm and sm[1] == 'image':
            st.ev += (('emit', sm[0], self.mod.where(ins)),)
            return False
        return True

    def loaded(self, eng, st, a):
        pass

    def call(self, eng, st, ins, name, args):
        n = libname(name) if name else None
        if n == 'exit':
            return 'stop'
        if n in ('malloc', 'calloc', 'strdup', 'realloc'):
            t = eng.fresh('heap', 64)
            eng.ptr_atoms.add(single(t))
            return t
        if n in IO:
            desc = tuple(self.describe(eng, st, a) for a in args)
            w = eng.tw(ins.ty) if ins.ty != llir.VOID else None
            buf = None
            if n == 'fwrite':
                b, off = eng.split_addr(args[0])
                buf = (b, off, args[1], args[2])
            if n == 'fread':
                b, off = eng.split_addr(args[0])
                if b is not None:
                    eng.havoc(st, b)
            t = None
            if w:
                eng.counter += 1
                t = sym('%s!%d' % (n, eng.counter), w)
                if ins.ty == llir.PTR:
                    eng.ptr_atoms.add(single(t))
            if not (n in ('fflush', 'ferror') or n == 'fputs'):
                snap = None
                if n == 'fwrite' and b is not None and b[1:2] != ('g',):
                    snap = tuple(eng.mem_load(st, b, addc(off, 4 * k), 4, ('int', 32))
                                 for k in range(8))
                err = eng.mem_load(st, ('b', 'g', 'errorCount'), con(0, 64), 4, ('int', 32))
                st.ev += (('io', n, desc, t, buf, (snap, err), self.mod.where(ins)),)
            return t if t is not None else 'done'
        return super().call(eng, st, ins, name, args)

    def describe(self, eng, st, a):
        if isinstance(a, tuple) and a and a[0] == 'l' and a[1] == 64:
            b, off = eng.split_addr(a)
            if b is not None and b[0] == 'b' and b[1] == 'g' and b[2] == 'segment':
                return a
        return super().describe(eng, st, a)

    def opaque(self, eng, st, ins, name, args):
        E = self.asm.eff
        mods = E.mods[name]
        if name == self.prog.line:
            lst = ('line', name, self.state(eng, st), self.mod.where(ins))
            if not st.aux.get('first'):
                st.ev += (lst,)
        seg = any(r == ('g', 'segment') or r == ('type', 'segment_t') for r in mods)
        if not seg:
            n0 = st.ev
            t = super().opaque(eng, st, ins, name, args)
            st.ev = n0
            calls = E.transitive_calls(name)
            if any(libname(c) == 'fopen' for c in calls) and ins.ty == llir.PTR:
                desc = tuple(self.describe(eng, st, a) for a in args)
                err = eng.mem_load(st, ('b', 'g', 'errorCount'), con(0, 64), 4, ('int', 32))
                st.ev += (('io', 'fopen', desc, t, None, (None, err), self.mod.where(ins)),)
            st.aux.pop('err', None)
            return t
        # a line: everything it may change except the segment bases
        for r in mods:
            if r[0] == 'g' and r[1] != 'segment' and r[1] not in self.prog.kept:
                b = ('b', 'g', r[1])
                eng.havoc(st, b)
            elif r[0] == 'arg' and r[1] < len(args):
                b, off = eng.split_addr(args[r[1]])
                if b is not None and b[2:3] != ('segment',):
                    eng.havoc(st, b)
        st.aux['heapver'] = ('line', eng.counter)
        S = self.asm.seg
        for k in range(S['n']):
            eng.counter += 1
            eng.mem_store(st, ('b', 'g', 'segment'), con(k * S['size'] + S['F']['imageUsed'][0], 64),
                          4, sym('used%d#%d' % (k, eng.counter), 32))
        if ins.ty == llir.VOID:
            return 'done'
        t = eng.fresh('r', eng.tw(ins.ty) or 64)
        if ins.ty == llir.PTR:
            eng.ptr_atoms.add(single(t))
        return t

    def state(self, eng, st):
        """the counters a line builds on"""
        S = self.asm.seg
        g = lambda n, o, z: eng.mem_load(st, ('b', 'g', n), con(o, 64), z, ('int', 8 * z))
        return tuple(g('segment', k * S['size'] + S['F'][m][0], 4)
                     for m in ('imageUsed', 'segmentBase') for k in range(S['n']))

    def loop_done(self, eng, st, header, gs, back, exits):
        """what the state was where the loop over the lines of a pass began"""
        if eng.quiet:
            return
        n = len(st.ev)
        if any(e[0] == 'line' for s in [x[0] for x in back] + [x[0] for x in exits]
               for e in s.ev[n:]):
            self.passes.append((st.fork(), self.mod.where(header.term), st.ev, header))

    def ret(self, eng, st, ins, val):
        if not eng.quiet:
            self.rets.append((st, val, self.mod.where(ins)))


class Program:
    def __init__(self, asm):
        self.asm = asm
        E = asm.eff
        # (what writes the file is part of the program)
        keep = {f for f in asm.opaque if not any(
            libname(c) in ('fwrite', 'write', 'remove', 'unlink', 'rename')
            for c in E.transitive_calls(f))}
        m0 = asm.m0
        self.line = 'AssembleLine'
        callers = [f for f in m0.funcs if any(n == self.line for i, n in E.calls.get(f, ()))]
        if not callers:
            raise Anchor('nothing calls AssembleLine')
        # the function that makes the passes: the lowest one every call of a line goes through
        self.owner = callers[0]
        if len(callers) != 1:
            self.owner = 'main'
        while self.owner != 'main' and not any(
                ('g', 'passNumber') in E.roots(i.ops[1]) for i in m0.funcs[self.owner].instrs()
                if i.op == 'store'):
            up = [f for f in m0.funcs if any(n == self.owner for i, n in E.calls.get(f, ()))]
            self.owner = up[0] if len(up) == 1 else 'main'
        keep |= {self.line, self.owner, 'main'}
        self.keep = keep
        text = build.program(SRC)
        t = build.opt(build.noinline(text, keep),
                      build.INLINE_UNROLL.replace('globaldce,', '').replace(
                          'loop-unroll-full', 'loop-simplifycfg'), build.OPTARGS)
        self.mod = llir.Module(t, 'q3asm')
        # globals that are changed and given back
        self.kept = set()
        pn = ('g', 'passNumber')
        owners = [f.name for f in m0.funcs.values() if f.blocks and f.name != 'main' and any(
            i.op == 'store' and isinstance(i.ops[1], GlobalRef) and i.ops[1].name == 'passNumber'
            for i in f.instrs())]
        reach = E.transitive_calls(self.line) | {self.line}
        inside = [f for f in owners if f in reach]
        self.restored = inside
        if all(restores(m0, E, f, 'passNumber', 0, 1) for f in inside):
            self.kept.add('passNumber')

    def run(self, root=None, initial=False):
        pol = ProgPolicy(self)
        eng = TypedEngine(self.mod, pol, DI(self.mod))
        st = State()
        if initial:
            # the initial values of the globals
            for n, g in self.mod.globals.items():
                if g.const or g.init is None or n == 'segment':
                    continue
                rt = self.mod.rtype(g.ty)
                if rt[0] == 'int' and rt[1] in (32, 64, 8):
                    eng.mem_store(st, ('b', 'g', n), con(0, 64), rt[1] // 8,
                                  eng.const_at(g.init, g.ty, 0, rt[1] // 8))
        eng.run_function(self.mod.funcs[root or self.owner], st)
        return pol, eng
