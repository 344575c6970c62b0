"""The symbol table of q3asm: what DefineSymbol and LookupSymbol do, by abstract interpretation."""
from asmsem import *

DEFINE, LOOKUP = 'DefineSymbol', 'LookupSymbol'


class Chain:
    """a loop over a linked list: the node, the first node, the node after it"""

    def __init__(self, node, first, nexts, body, state, where, exits):
        self.node, self.first, self.nexts, self.body = node, first, nexts, body
        self.state, self.where, self.exits = state, where, exits


class SymPolicy(LinePolicy):
    def __init__(self, S):
        super().__init__(S.asm)
        self.mod = S.mod
        self.S = S
        self.rets = []
        self.chains = []
        self.loops = []


    def event_key(self, st):
        k = [c for c in st.ctx.facts if isinstance(c, tuple) and c[0] in ('eq', 'ne') and
             len(c[1][3]) == 1]
        return st.ev, frozenset(k)

    def load_hook(self, eng, st, ins, b, off, size):
        return None

    def store_filter(self, eng, st, ins, b, off, size, val):
        if b[0] == 'b' and b[1] == 'alloca':
            return True
        st.ev += (('store', b, off, size, val, self.mod.where(ins)),)
        return True

    def call(self, eng, st, ins, name, args):
        n = libname(name) if name else None
        if n in ('malloc', 'calloc', 'realloc'):
            t = eng.fresh('new', 64)
            a = single(t)
            eng.ptr_atoms.add(a)
            st.mem[a] = Region('undef')
            if n == 'calloc':
                st.mem[a] = Region('undef', (('fill', con(0, 64), con(1 << 40, 64), 0),))
            st.ctx.assume(icmp('ne', t, con(0, 64)))
            st.ev += (('new', a, n, self.mod.where(ins)),)
            return t
        if n in ('strdup',):
            t = eng.fresh('new', 64)
            a = single(t)
            st.ctx.assume(icmp('ne', t, con(0, 64)))
            eng.ptr_atoms.add(a)
            st.mem[a] = Region('cp%d' % self.intern(self.content(eng, st, args[0])))
            return t
        if n in self.asm.errfuncs:
            st.ev += (('error', n, self.mod.where(ins)),)
            return 'done'
        if n == self.S.hash:
            return self.result((n, (self.canon(self.content(eng, st, args[0])),), ()), 32)
        if n == DEFINE:
            st.ev += (('define', self.mod.where(ins)),)
            for r in self.asm.eff.mods[DEFINE]:
                if r[0] == 'g':
                    eng.havoc(st, ('b', 'g', r[1]))
            return 'done'
        if n in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp'):
            cs = sorted((self.canon(self.content(eng, st, a)) for a in args[:2]), key=repr)
            cnt = args[2] if len(args) > 2 else None
            return self.result((n, tuple(cs) + (cnt,), ()), 32)
        if n in ('sprintf', 'snprintf'):
            b, off = eng.split_addr(args[0])
            if b is None or not is_con(off) or scval(off):
                raise Incomplete('sprintf at ' + self.mod.where(ins))
            st.mem[b] = Region('cp%d' % self.intern((n, tuple(
                self.canon(self.describe(eng, st, a)) for a in args[1:]))))
            return eng.fresh('n', 32)
        if n == 'strcpy':
            b, off = eng.split_addr(args[0])
            if b is not None and is_con(off) and scval(off) == 0:
                st.mem[b] = Region('cp%d' % self.intern(
                    self.canon(self.content(eng, st, args[1]))))
                return args[0]
        return super().call(eng, st, ins, name, args)

    def describe(self, eng, st, a):
        if isinstance(a, tuple) and a and a[0] == 'l' and a[1] == 64:
            s = single(a)
            b, off = eng.split_addr(a)
            if b is not None:
                return self.content(eng, st, a)
            if s is not None:
                return ('str', a)
        return a

    def canon(self, c):
        """contents copied from elsewhere are named after their origin"""
        if isinstance(c, tuple) and len(c) == 4 and c[0] == 'mem' and isinstance(c[3], str) and \
                c[3].startswith('cp'):
            o = c[2]
            if is_con(o) and scval(o) == 0:
                return self.canon(self.S.names(int(c[3][2:])))
        if isinstance(c, tuple) and len(c) == 4 and c[0] == 'mem':
            # a string nobody writes while it is looked at
            return ('str', c[1], c[2])
        return c

    def loop_done(self, eng, st, header, gs, back, exits):
        if eng.quiet:
            return
        for i in header.instrs:
            if i.op != 'phi' or i.ty != llir.PTR or i not in gs.env:
                continue
            a = single(gs.env[i]) if gs.env[i][0] == 'l' else None
            nx = []
            first = None
            for v, p in zip(i.ops, i.x['blocks']):
                if p in eng.cfg(header.func).loops[header]:
                    for s, bp in back:
                        if bp is p:
                            nx.append((s, s.env.get(i) if not isinstance(v, Instr) else
                                       eng.value(s, v)))
                else:
                    first = eng.value(st, v)
            self.chains.append(Chain(a, first, nx, header, st, self.mod.where(header.term), exits))
        self.loops.append((header, st, gs, back, exits))

    def ret(self, eng, st, ins, val):
        if not eng.quiet:
            self.rets.append((st, val, self.mod.where(ins)))


NEED = {'symbol_t': ('next', 'hash', 'segment', 'name', 'value'),
        'hashchain_t': ('data', 'next'), 'hashtable_t': ('buckets', 'table')}


def structs(di):
    """{struct: {member: (offset, size)}} for the types of the symbol table"""
    out = {}
    for n in NEED:
        for m, raw in di.mod.meta_raw.items():
            if raw.startswith('!DIDerivedType(') and 'name: "%s"' % n in raw and \
                    'DW_TAG_typedef' in raw:
                d, r = di.strip(di.mod.meta(m).get('baseType'))
                if not d or 'elements' not in d:
                    continue
                F = {}
                for x in di.mod.mref(d['elements'])['items']:
                    e = di.mod.mref(x)
                    F[e['name']] = (int(e.get('offset', '0')) // 8, int(e['size']) // 8)
                out[n] = F
        if n not in out:
            raise Anchor('type %s not found' % n)
        for k in NEED[n]:
            if k not in out[n]:
                raise Anchor('%s.%s not found' % (n, k))
    return out


class Symbols:
    def __init__(self, asm):
        self.asm = asm
        m0, E = asm.m0, asm.eff
        for n in (DEFINE, LOOKUP):
            if n not in m0.funcs or not m0.funcs[n].blocks:
                raise Anchor('function %s not found' % n)
        pol = LinePolicy(asm)
        self.hash = None
        for n in sorted(m0.funcs):
            if m0.funcs[n].blocks and pol.is_hash(n):
                self.hash = n
        if self.hash is None:
            raise Anchor('the hash function was not found')
        self.init = [f for f in sorted(m0.funcs) if m0.funcs[f].blocks and
                     ('g', 'opcodesHash') in E.mods[f] and not any(
                         ('g', 'opcodesHash') in E.mods.get(n, ()) for i, n in
                         E.calls.get(f, ()) if n)]
        if len(self.init) != 1:
            raise Anchor('the function that fills opcodesHash was not found')
        keep = {DEFINE, LOOKUP, self.hash, self.init[0]} | asm.errfuncs | {
            f for f in m0.funcs if f in E.noreturn}
        t = build.opt(build.noinline(build.program(SRC), keep),
                      build.INLINE.replace('globaldce,', ''), build.OPTARGS)
        self.mod = llir.Module(t, 'q3asm')
        self.di = DI(self.mod)
        self.F = structs(self.di)
        self.dataoff = self.F['hashchain_t']['data'][0]

    def names(self, k):
        for c, n in self.asm.ids.items():
            if n == k:
                return c
        raise Incomplete('content %d' % k)

    def run(self, name, facts):
        pol = SymPolicy(self)
        eng = TypedEngine(self.mod, pol, self.di)
        st = State()
        f = self.mod.funcs[name]
        for k, p in enumerate(f.args):
            t = sym('SYM' if k == 0 else 'VALUE%d' % k, 64 if p.ty == llir.PTR else 32)
            st.env[p] = t
            if p.ty == llir.PTR:
                eng.ptr_atoms.add(single(t))
        pn = eng.mem_load(st, ('b', 'g', 'passNumber'), con(0, 64), 4, ('int', 32))
        for op, v in facts:
            st.ctx.assume(icmp(op, pn, con(v, 32)))
        pol.st0 = st.fork()
        eng.run_function(f, st)
        return pol, eng
