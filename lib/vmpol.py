"""What memory and calls mean in src/vm/vm.c."""
from engine import *
import build

HOST_CALLS = {'Com_Error', 'Com_malloc', 'Com_free'}


def load_module(variant, passes=build.INLINE_UNROLL, src='src/vm/vm.c'):
    fl = ['-I' + build.REPO + '/src/vm']
    if variant == 'switch':
        fl += ['-U__GNUC__']
    return build.module(src, fl, passes, variant, indirect=True)


class Fields:
    """byte offset <-> name of the members of a struct, from the debug info"""

    def __init__(self, mod, name):
        fs = mod.struct_fields(name)
        if not fs:
            raise Anchor('struct %s not found in the debug info' % name)
        self.off = {n: o // 8 for n, o, s in fs}
        self.size = {n: s // 8 for n, o, s in fs}
        self.total = max(o // 8 + s // 8 for n, o, s in fs)
        self.total = (self.total + 7) // 8 * 8

    def name(self, off):
        for n, o in self.off.items():
            if o <= off < o + self.size[n]:
                return n
        return None


class Finding:
    def __init__(self, rule, where, text, path=()):
        self.rule, self.where, self.text, self.path = rule, where, text, path

    def __str__(self):
        return '%s: %s: %s' % (self.where, self.rule, self.text)


class BoundsPolicy(Policy):
    """every access of an object with a known size is within it"""

    def __init__(self, mod):
        super().__init__(mod)
        self.sizes = {}          # base atom -> size term (64 bit)
        self.findings = []
        self.ok = {}             # (ins uid, write) -> count of discharged instances
        self.sites = {}
        self.maybe_null = set()

    def size_of(self, eng, st, b):
        if b in self.sizes:
            return self.sizes[b]
        if b[0] == 'b' and b[1] == 'alloca':
            f = self.mod.funcs.get(b[2])
            for i in f.instrs():
                if i.op == 'alloca' and (i.name or str(i.uid)) == b[3]:
                    n = i.ops[0]
                    if isinstance(n, Const) and n.kind == 'int':
                        return con(self.mod.sizeof(i.x['aty']) * n.val, 64)
        if b[0] == 'b' and b[1] == 'g':
            g = self.mod.globals.get(b[2])
            if g is not None and not g.external:
                return con(self.mod.sizeof(g.ty), 64)
        return None

    def interesting(self, b):
        return True

    def access(self, eng, st, ins, b, off, size, write):
        if eng.quiet:
            return
        if b is None:
            self.report(eng, st, ins, 'wild-pointer', 'cannot tell which object %s addresses'
                        % show(off))
            return
        if not self.interesting(b):
            return
        S = self.size_of(eng, st, b)
        if S is None:
            self.unknown_object(eng, st, ins, b, off, size, write)
            return
        sz = con(size, 64) if isinstance(size, int) else size
        key = (ins.uid, write)
        self.sites[key] = ins
        why = None
        if b in self.maybe_null and ('ne', norm_diff(atom(b))) not in st.ctx.facts:
            why = 'the allocation may have failed (no null check on this path)'
        elif not st.ctx.entails(icmp('sle', con(0, 64), off)):
            why = 'offset %s is not provably >= 0' % show(off)
        elif not st.ctx.entails(icmp('sle', con(0, 64), sz)):
            why = 'length %s is not provably >= 0' % show(sz)
        elif not st.ctx.entails(icmp('sle', add(off, sz), S)):
            why = 'offset %s + %s bytes is not provably <= object size %s' % (
                show(off), show(sz), show(S))
        if why:
            self.report(eng, st, ins, 'bounds', '%s of %s: %s' % (
                'write' if write else 'read', show_atom(b), why))
        else:
            self.ok[key] = self.ok.get(key, 0) + 1

    def unknown_object(self, eng, st, ins, b, off, size, write):
        self.report(eng, st, ins, 'unknown-object', 'access to %s+%s: object of unknown size' % (
            show_atom(b), show(off)))

    def report(self, eng, st, ins, rule, text):
        if eng.quiet:
            return
        w = self.mod.where(ins)
        if any(f.rule == rule and f.where == w for f in self.findings):
            return
        self.findings.append(Finding(rule, w, text, trace(self.mod, st)))


def trace(mod, st, n=40):
    out = []
    for t, v in st.path[-n:]:
        out.append('%s -> %s' % (mod.where(t), v))
    return out


class LoaderPolicy(BoundsPolicy):
    def __init__(self, mod, vmname='vm', bytecode='bytecode', length='length'):
        super().__init__(mod)
        self.F = Fields(mod, 'vm_s')
        self.mallocs = []
        self.size_ids = {}
        self.events = []

    def interesting(self, b):
        return True

    def call(self, eng, st, ins, name, args):
        if name == 'Com_malloc':
            # traces that allocate different sizes allocate different objects
            a = ('b', 'malloc', '%s' % self.mod.where(ins).split(' ')[0], ins.uid,
                 self.size_id(args[0]))
            self.sizes[a] = args[0]
            self.maybe_null.add(a)
            if not eng.quiet:
                self.mallocs.append((ins, args[0]))
            st.mem[a] = Region('undef')
            return atom(a)
        if name == 'Com_free':
            return 'done'
        if name == 'Com_Error':
            return 'done'
        if name == 'strncpy':
            b, off = eng.split_addr(args[0])
            self.access(eng, st, ins, b, off, args[2], True)
            return args[0]
        return None

    def size_id(self, t):
        return self.size_ids.setdefault(t, len(self.size_ids))

    def store_filter(self, eng, st, ins, b, off, size, val):
        # the content of vm->name is not tracked
        if b == self.vmb and is_con(off) and self.F.name(scval(off)) == 'name':
            return False
        return True

    def size_of(self, eng, st, b):
        return super().size_of(eng, st, b)
