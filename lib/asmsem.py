"""What one source line does to the state of q3asm (q3asm/q3asm.c): abstract interpretation of
AssembleLine for a given first token and current segment."""
from engine import *
from effects import Effects, libname
from vmpol import Finding, Fields, trace
import build
import re

SRC = ['q3asm/q3asm.c', 'q3asm/cmdlib.c']
OPAQUE = {'Parse', 'ParseExpression', 'LookupSymbol', 'DefineSymbol', 'HashString', 'CodeError',
          'ExtractLine'}
SEGNAMES = ('CODE', 'DATA', 'LIT', 'BSS', 'JTRG')
# functions of the string library whose result depends on the argument strings only
PURE_STR = {'atoi', 'atol', 'atoll', 'strtol', 'strtoul', 'strtoll', 'strtoull', 'strlen', 'strchr',
            'strtod', 'atof'}


class DI:
    """types from the debug info"""

    def __init__(self, mod):
        self.mod = mod
        self.gtype = {}
        for n in mod.meta_raw:
            if 'DIGlobalVariable(' in mod.meta_raw[n]:
                d = mod.meta(n)
                if d and d.get('_kind') == 'DIGlobalVariable':
                    self.gtype.setdefault(d.get('linkageName') or d.get('name'), d.get('type'))

    def strip(self, ref):
        while True:
            d = self.mod.mref(ref)
            if d and d['_kind'] == 'DIDerivedType' and d.get('tag') in (
                    'DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type'):
                ref = d.get('baseType')
                if ref is None:
                    return None, None
                continue
            return d, ref

    def pointee(self, ref):
        d, _ = self.strip(ref)
        if d and d.get('tag') == 'DW_TAG_pointer_type':
            return d.get('baseType') or 'void'
        return None

    def member(self, ref, off):
        """(name of the struct, member, type) at a byte offset of a struct"""
        d, r = self.strip(ref)
        if not d or d.get('tag') != 'DW_TAG_structure_type' or 'elements' not in d:
            return None
        for x in self.mod.mref(d['elements'])['items']:
            m = self.mod.mref(x)
            if m and m.get('tag') == 'DW_TAG_member' and \
                    int(m.get('offset', '0')) == 8 * off:
                return self.tag(ref), m['name'], m.get('baseType')
        return None

    def tag(self, ref):
        d, r = self.strip(ref)
        if d and d.get('name'):
            return d['name']
        # an anonymous struct: the name of its typedef
        for n, raw in self.mod.meta_raw.items():
            if raw.startswith('!DIDerivedType(') and 'DW_TAG_typedef' in raw:
                t = self.mod.meta(n)
                if t.get('baseType') == r:
                    return t.get('name')
        return None


class TypedEngine(Engine):
    """Engine that knows the declared types of the pointers it follows"""

    def __init__(self, mod, pol, di):
        super().__init__(mod, pol)
        self.di = di
        self.ptype = {}        # atom -> (type of the object, global it was reached from)

    def type_at(self, b, off):
        if b[0] == 'b' and b[1] == 'g':
            ref, root = self.di.gtype.get(b[2]), b[2]
        elif b in self.ptype:
            ref, root = self.ptype[b]
        else:
            return None, None, None
        if ref is None or ref == 'void':
            return None, None, root
        d, r = self.di.strip(ref)
        if d and d.get('tag') == 'DW_TAG_structure_type':
            if not is_con(off):
                return None, None, root
            m = self.di.member(ref, scval(off))
            return (m[2], m[:2], root) if m else (None, None, root)
        if d and d.get('tag') == 'DW_TAG_array_type':
            e = d.get('baseType')
            ed, er = self.di.strip(e)
            if ed and ed.get('tag') == 'DW_TAG_structure_type':
                size = int(ed.get('size', '0')) // 8
                if is_con(off) and size:
                    m = self.di.member(e, scval(off) % size)
                    return (m[2], m[:2], root) if m else (None, None, root)
                return None, None, root
            return e, None, root
        return ref, None, root

    def load(self, st, ins):
        super().load(st, ins)
        if ins.ty == llir.PTR:
            a = single(st.env[ins]) if st.env[ins][0] == 'l' else None
            if a is not None and a[0] != 'b' and a not in self.ptype:
                addr = self.value(st, ins.ops[0])
                b, off = self.split_addr(addr)
                if b is not None:
                    t, m, root = self.type_at(b, off)
                    p = self.di.pointee(t) if t else None
                    if p is not None:
                        self.ptype[a] = (p, root)
                    self.ptr_atoms.add(a)
                    self.pol.loaded(self, st, a)

    def follows_links(self, i, body):
        """does this pointer advance by loading its next value (a list), and not by adding to it?"""
        seen, todo, hit = set(), [], False
        for v, p in zip(i.ops, i.x['blocks']):
            if p in body:
                todo.append(v)
        while todo:
            v = todo.pop()
            if not isinstance(v, Instr) or v in seen or v is i:
                continue
            seen.add(v)
            if v.op == 'phi':
                todo += v.ops
            elif v.op == 'select':
                todo += v.ops[1:]
            elif v.op == 'load':
                hit = True
            else:
                return False
        return hit

    def generalise(self, st, header, phis, init, modcells, inv, reuse=None):
        s, vars_ = super().generalise(st, header, phis, init, modcells, [], reuse)
        for i in phis:
            if i.ty != llir.PTR or isinstance(init[i], bool) or isinstance(s.env[i], bool):
                continue
            oa = single(init[i]) if init[i][0] == 'l' else None
            t = self.ptype.get(oa)
            if t is None:
                continue
            body = self.cfg(header.func).loops[header]
            if self.follows_links(i, body):
                a = next((a for a, (x, w) in vars_.items() if w == ('phi', i)), None)
                if a is None:
                    continue
                s.env[i] = atom(a)
                vars_[a] = (None, ('phi', i))
                self.ptr_atoms.add(a)
                self._ptrbase.pop(a, None)
            na = single(s.env[i])
            if na is not None:
                self.ptype[na] = t
        for c in inv:
            s.ctx.assume(c)
        return s, vars_

    def do_loop(self, f, st, header):
        r = self.unroll(f, st, header)
        if r is not None:
            return r
        return super().do_loop(f, st, header)

    UNROLL = 12

    def unroll(self, f, st, header):
        """a loop whose trip count is decided by the facts: iteration by iteration"""
        body = self.cfg(f).loops[header]
        todo = [st.fork()]
        exits = []
        self.quiet += 1
        ok = True
        try:
            for n in range(self.UNROLL + 1):
                nxt = []
                for s in todo:
                    back, ex = self.explore(f, s.fork(), header, None, (header, body))
                    if back and ex:
                        ok = False
                        break
                    nxt += [b[0] for b in back]
                todo = nxt
                if not ok or not todo:
                    break
                if len(todo) > 6:
                    ok = False
                    break
            else:
                ok = False
        finally:
            self.quiet -= 1
        if not ok:
            return None
        todo = [st]
        while todo:
            nxt = []
            for s in todo:
                back, ex = self.explore(f, s, header, None, (header, body))
                exits += ex
                nxt += [b[0] for b in back]
            todo = nxt
        return exits


class Asm:
    """the program: IR, effects, tables"""

    def __init__(self):
        text = build.program(SRC)
        m0 = llir.Module(build.opt(text, build.SSA), 'q3asm')
        self.m0 = m0
        E0 = Effects(m0)
        keep = set()
        for f in m0.funcs.values():
            if not f.blocks or f.name in ('main', 'AssembleLine'):
                continue
            c = CFG(f)
            own = bool(c.loops) or f.name in OPAQUE
            emits = self.emits(E0, f.name)
            # (a loop that searches the operator table is part of the line)
            refs = E0.refs.get(f.name, ())
            search = any(('g', g) in refs for g in ('optable', 'sourceOps', 'opcodesHash')) and \
                ('g', 'token') in refs and f.name not in OPAQUE
            if own and not emits and not search:
                keep.add(f.name)
        self.opaque = keep
        self.ids = {}          # (function, arguments, what it reads) -> number
        self.info = {}         # name of a result -> that
        text2 = build.noinline(text, keep | {'AssembleLine'})
        t = build.opt(text2, build.INLINE_UNROLL.replace('globaldce,', ''), build.OPTARGS)
        self.mod = llir.Module(t, 'q3asm')
        if 'AssembleLine' not in self.mod.funcs:
            raise Anchor('function AssembleLine not found')
        self.eff = E0
        self.di = DI(self.mod)
        self.seg = self.segment_layout()
        self.rows = self.source_ops()
        self.names = {n for n, o in self.rows}
        self.enums = self.mod.enums()
        self.errfuncs = {f for f in m0.funcs if self.always_error(f)}
        if not self.errfuncs:
            raise Anchor('no function reports errors by counting them in errorCount')

    def emits(self, E, f):
        """does it write segments or the counters that lay them out?"""
        mods = E.mods.get(f, ())
        for r in mods:
            if r[0] == 'g' and r[1] in ('segment', 'instructionCount', 'currentSegment'):
                return True
            if r == ('type', 'segment_t'):
                return True
        # through an argument
        fn = self.m0.funcs[f]
        for i in fn.instrs():
            if i.op == 'store':
                p = i.ops[1]
                while isinstance(p, Instr) and p.op == 'getelementptr':
                    if p.x['sty'] == ('named', 'struct.segment_t'):
                        return True
                    p = p.ops[0]
        for n in E.transitive_calls(f):
            if n in self.m0.funcs and self.m0.funcs[n].blocks and n != f:
                for i in self.m0.funcs[n].instrs():
                    if i.op == 'store':
                        p = i.ops[1]
                        while isinstance(p, Instr) and p.op == 'getelementptr':
                            if p.x['sty'] == ('named', 'struct.segment_t'):
                                return True
                            p = p.ops[0]
        return False

    def segment_layout(self):
        g = self.mod.globals.get('segment')
        if g is None:
            raise Anchor('the segment array is not there')
        rt = self.mod.rtype(g.ty)
        ref = self.di.gtype['segment']
        d, _ = self.di.strip(ref)
        F = {}
        e = d.get('baseType')
        ed, _ = self.di.strip(e)
        for x in self.mod.mref(ed['elements'])['items']:
            m = self.mod.mref(x)
            F[m['name']] = (int(m.get('offset', '0')) // 8, int(m['size']) // 8)
        for k in ('image', 'imageUsed', 'segmentBase'):
            if k not in F:
                raise Anchor('segment_t.%s is not there' % k)
        return {'size': self.mod.sizeof(rt[2]), 'n': rt[1], 'F': F}

    def source_ops(self):
        """[(name bytes, opcode)] from the initialiser"""
        g = self.mod.globals.get('sourceOps')
        if g is None or g.init is None:
            raise Anchor('the table sourceOps is not there')
        rt = self.mod.rtype(g.ty)
        out = []
        for e in g.init.val:
            if e.kind == 'zero':
                out.append((b'', 0))
                continue
            out.append((self.mod.cstring(e.val[0]),
                        0 if e.val[1].kind == 'zero' else e.val[1].val))
        for f, mods in self.eff.mods.items():
            if ('g', 'sourceOps') in mods or ('type', 'sourceOps_t') in mods:
                raise Anchor('sourceOps is written by %s' % f)
        self.rowsize = self.mod.sizeof(rt[2])
        return out

    def always_error(self, name):
        """every return of the function is behind errorCount++"""
        f = self.m0.funcs[name]
        if not f.blocks or any(i.op == 'ret' for i in f.instrs()) is False:
            return False
        cfg = CFG(f)
        incs = set()
        for i in f.instrs():
            if i.op == 'store' and isinstance(i.ops[1], GlobalRef) and \
                    i.ops[1].name == 'errorCount':
                v = i.ops[0]
                if isinstance(v, Instr) and v.op == 'add' and isinstance(v.ops[1], Const) and \
                        v.ops[1].val == 1:
                    incs.add(i.block)
                else:
                    return False
        rets = [b for b in f.blocks if b.term.op == 'ret']
        return bool(incs) and all(any(cfg.dominates(x, r) for x in incs) for r in rets)

    def line_input(self):
        """globals that hold the current line: set before each line, not part of the layout"""
        E = self.eff
        callers = [f for f in self.m0.funcs if any(n == 'AssembleLine' for i, n in
                                                   E.calls.get(f, ()))]
        out = set()
        for f in callers:
            for i, n in E.calls[f]:
                m = E.mods.get(n, ())
                if n != 'AssembleLine' and ('g', 'lineBuffer') in m:
                    out |= {r[1] for r in m if r[0] == 'g'}
        out -= {'errorCount'}
        if 'lineBuffer' not in out:
            raise Anchor('the function that extracts a line was not found')
        return out

    def seg_base(self, k):
        return addc(base('g', 'segment'), k * self.seg['size'])


class Exit:
    def __init__(self, st, ev, pol, eng):
        self.st, self.ev, self.eng = st, ev, eng
        self.err = bool(st.aux.get('err'))
        self.asm = pol.asm

    def cell(self, name, off=0, size=4):
        return self.eng.mem_load(self.st, ('b', 'g', name), con(off, 64), size,
                                 ('int', 8 * size))

    def used(self, k):
        return self.cell('segment', k * self.asm.seg['size'] + self.asm.seg['F']['imageUsed'][0])

    def emitted(self, k):
        return [e for e in self.ev if e[0] in ('emit', 'loop') and (
            e[1] == k if e[0] == 'emit' else k in e[1])]

    def calls(self, name=None):
        return [e for e in self.ev if e[0] == 'call' and (name is None or e[1] == name)]


class LinePolicy(Policy):
    def __init__(self, asm, tok=None):
        super().__init__(asm.mod)
        self.asm = asm
        self.M = tok             # bytes of the first token
        self.exits = []
        self.lineno = 0
        self.row = next((k for k, (n, o) in enumerate(asm.rows) if n == tok), 0)
        self.findings = []

    # --- identity of strings
    def content(self, eng, st, t):
        """what the string at this address is, as a hashable description"""
        b, off = eng.split_addr(t)
        if b is None:
            return ('?', t)
        if b[0] == 'b' and b[1] == 'g' and is_con(off):
            g = self.mod.globals.get(b[2])
            if g is not None and g.const and g.init is not None and g.init.kind in ('str', 'zero'):
                s = g.init.val if g.init.kind == 'str' else b'\0'
                return ('lit', s[scval(off):].split(b'\0')[0])
        r = eng.region(st, b)
        if not r.writes and isinstance(r.ver, tuple) and r.ver[0] == 'copy' and is_con(off) and \
                scval(off) == 0:
            return r.ver[1]
        if not r.writes and isinstance(r.ver, str) and r.ver.startswith('tok'):
            return ('tok', r.ver[3:], off if not is_con(off) else scval(off))
        return ('mem', show_atom(b), off, r.ver if not r.writes else version(r.ver, r.writes))

    @staticmethod
    def tok(st, n):
        """version of the token buffer that holds token n of the line"""
        k = st.aux.get('line', 0)
        return 'tok%d%s' % (n, '/%d' % k if k else '')

    def of_line(self, c):
        return c[1].partition('/')[2] == (str(self.lineno) if self.lineno else '')

    def known(self, c):
        """bytes if the content is known"""
        if c[0] == 'lit':
            return c[1]
        if c[0] == 'tok' and c[1].split('/')[0] == '1' and self.of_line(c) and isinstance(c[2], int) and self.M is not None and \
                0 <= c[2] <= len(self.M):
            return self.M[c[2]:]
        return None

    def intern(self, k):
        return self.asm.ids.setdefault(k, len(self.asm.ids))

    def result(self, k, w):
        n = '%s~%d' % (k[0], self.intern(k))
        self.asm.info[n] = k
        return sym(n, w)

    # --- memory
    def initial_version(self, st, b):
        return '0'

    def seg_member(self, b, off):
        """(segment, member, index term) of an address in the segment array"""
        if not (b[0] == 'b' and b[1] == 'g' and b[2] == 'segment'):
            return None
        S = self.asm.seg
        c = sgn(off[2], 64)
        F = S['F']
        for k in range(S['n']):
            if k * S['size'] <= c < (k + 1) * S['size']:
                for n, (o, z) in F.items():
                    if k * S['size'] + o <= c < k * S['size'] + o + z:
                        return k, n, addc(off, -(k * S['size'] + o))
        return None

    def load_hook(self, eng, st, ins, b, off, size):
        if b == ('b', 'g', 'token') and size == 1 and self.M is not None:
            r = eng.region(st, b)
            if r.ver == self.tok(st, 1) and not r.writes and is_con(off) and \
                    0 <= scval(off) <= len(self.M):
                return con((self.M + b'\0')[scval(off)], 8)
        if b == ('b', 'g', 'opcodesHash') and is_con(off) and size == 4:
            k = scval(off) // 4
            if 0 <= k < len(self.asm.rows):
                return sym('hash~%s' % self.asm.rows[k][0].decode('latin-1'), 32)
        if b == ('b', 'g', 'sourceOps') and is_con(off):
            g = self.mod.globals['sourceOps']
            return eng.const_at(g.init, g.ty, scval(off), size)
        t, m, root = eng.type_at(b, off)
        if root == 'optable' and m and m[0] == 'hashchain_s' and m[1] == 'data':
            return addc(base('g', 'sourceOps'), self.asm.rowsize * self.row)
        sm = self.seg_member(b, off)
        if sm and sm[1] == 'image':
            return eng.fresh('image', size * 8)
        return None

    def store_filter(self, eng, st, ins, b, off, size, val):
        sm = self.seg_member(b, off)
        if sm and sm[1] == 'image':
            st.ev += (('emit', sm[0], sm[2], size if isinstance(size, int) else None, val,
                       self.mod.where(ins)),)
            return False
        if b[0] == 'b' and b[1] == 'g' and b[2] == 'segment' and sm is None:
            raise Incomplete('store to the segment array at %s: %s' % (show(off),
                                                                       self.mod.where(ins)))
        if b[0] != 'b':
            t, m, root = eng.type_at(b, off)
            st.ev += (('heap', m, root, val, self.mod.where(ins)),)
        return True

    def event_key(self, st):
        # states that know different values of what was parsed are kept apart, and the passes
        k = []
        for c in st.ctx.facts:
            if isinstance(c, tuple) and c[0] in ('eq', 'ne') and len(c[1][3]) == 1:
                a = c[1][3][0][0]
                if a[0] == 'ld' and a[1] in (('b', 'g', 'passNumber'), ('b', 'g', 'lastSymbol')) \
                        and is_con(a[2]):
                    k.append(c)
                    continue
            if isinstance(c, tuple) and c[0] == 'eq' and len(c[1][3]) == 1:
                a = c[1][3][0][0]
                while a[0] == 'x' and a[1] in ('trunc', 'sext', 'zext') and a[3][0] == 'l' and \
                        single(a[3]):
                    a = single(a[3])
                if a[0] == 's' and a[1] in self.asm.info:
                    k.append(c)
        return st.ev, frozenset(k)

    def loaded(self, eng, st, a):
        """the chain that holds the row of this mnemonic is not empty (InitTables)"""
        ref, root = eng.ptype.get(a, (None, None))
        if root == 'optable' and ref not in (None, 'void') and self.M in self.asm.names and \
                eng.di.tag(ref) in ('hashchain_s', 'hashchain_t'):
            st.ctx.assume(icmp('ne', atom(a), con(0, 64)))

    # --- calls
    def call(self, eng, st, ins, name, args):
        if name is None:
            raise Incomplete('indirect call at ' + self.mod.where(ins))
        n = libname(name)
        if name in self.asm.eff.noreturn or n in NORETURN:
            return 'stop'
        if n in ('strcmp', 'strncmp', 'strcasecmp', 'strncasecmp', 'memcmp'):
            return self.compare(eng, st, n, args)
        if n in PURE_STR:
            k = (n, tuple(self.describe(eng, st, a) for a in args), ())
            return self.result(k, eng.tw(ins.ty) or 64)
        if n in ('strcpy', 'strncpy', 'memcpy', 'memmove', 'sprintf', 'snprintf', 'strcat',
                 'memset') and args:
            b, off = eng.split_addr(args[0])
            if b is None:
                raise Incomplete('write through an unknown pointer at ' + self.mod.where(ins))
            sm = self.seg_member(b, off)
            if sm:
                st.ev += (('emit', sm[0], sm[2], None, None, self.mod.where(ins)),)
                return 'done'
            if n == 'strcpy' and is_con(off) and scval(off) == 0:
                c = self.content(eng, st, args[1])
                st.mem[b] = Region(('copy', c) if c[0] in ('tok', 'lit') else
                                   'cp%d' % self.intern(c))
                return args[0]
            if n in ('memcpy', 'memset'):
                return None
            st.mem[b] = Region('lib%d' % self.intern(
                (n, tuple(self.describe(eng, st, a) for a in args))))
            return args[0]
        f = self.asm.eff.mods.get(name)
        if f is not None:
            return self.opaque(eng, st, ins, name, args)
        return None

    def describe(self, eng, st, a):
        if isinstance(a, tuple) and a and a[0] == 'l' and a[1] == 64:
            b, off = eng.split_addr(a)
            if b is not None:
                return self.content(eng, st, a)
        return a

    def compare(self, eng, st, n, args):
        c1, c2 = self.content(eng, st, args[0]), self.content(eng, st, args[1])
        k1, k2 = self.known(c1), self.known(c2)
        cnt = None
        if self.M is None and n == 'strcmp':
            for c, k in ((c1, k2), (c2, k1)):
                if c == ('tok', self.tok(st, 1)[3:], 0) and k in self.asm.names:
                    return con(1, 32)        # this token is no mnemonic of the table
        if n in ('strncmp', 'strncasecmp', 'memcmp'):
            cnt = scval(args[2]) if is_con(args[2]) else None
        if k1 is not None and k2 is not None and (len(args) == 2 or cnt is not None):
            a, b = k1 + b'\0', k2 + b'\0'
            if 'case' in n:
                a, b = a.lower(), b.lower()
            if cnt is not None:
                a, b = a[:cnt], b[:cnt]
            # up to the first NUL
            r = (a > b) - (a < b)
            return con(r, 32)
        return self.result((n, (c1, c2, cnt), ()), 32)

    def opaque(self, eng, st, ins, name, args):
        E = self.asm.eff
        mods, refs = E.mods[name], E.refs[name]
        desc = tuple(self.describe(eng, st, a) for a in args)
        rv = []
        for r in sorted(refs | mods):
            if r[0] == 'g':
                g = self.mod.globals.get(r[1])
                if g is None or g.const or r[1] == 'segment':
                    continue
                x = eng.region(st, ('b', 'g', r[1]))
                rv.append((r[1], x.ver if not x.writes else version(x.ver, x.writes)))
            elif r[0] in ('heap', 'type'):
                rv.append(('*heap', st.aux.get('heapver', 0)))
        k = (name, desc, tuple(rv))
        cid = self.intern(k)
        if name in self.asm.errfuncs:
            st.aux['err'] = True
        if any(r == ('g', 'segment') or r == ('type', 'segment_t') for r in mods):
            raise Incomplete('%s changes segments out of line' % name)
        strs = [('tok', eng.region(st, ('b', 'g', 'token')).ver)] \
            if ('g', 'token') in refs else []
        for r in mods:
            if r[0] == 'g':
                b = ('b', 'g', r[1])
                if r[1] == 'token':
                    if ('g', 'lineParseOffset') in mods:
                        st.aux['ntok'] = st.aux.get('ntok', 0) + 1
                        st.mem[b] = Region(self.tok(st, st.aux['ntok']))
                    else:
                        st.mem[b] = Region('x%d' % cid)
                else:
                    st.mem[b] = Region('c%d.%s' % (cid, r[1]))
            elif r[0] in ('heap', 'type'):
                st.aux['heapver'] = ('c', cid)
            elif r[0] == 'arg' and r[1] < len(args):
                b, off = eng.split_addr(args[r[1]])
                if b is None:
                    raise Incomplete('%s at %s' % (name, self.mod.where(ins)))
                if b == ('b', 'g', 'token'):
                    if name == 'DefineSymbol':
                        continue
                st.mem[b] = Region('c%d.arg' % cid)
        if mods and not (mods <= {('g', 'token'), ('g', 'lineParseOffset')}):
            cur = eng.mem_load(st, ('b', 'g', 'currentSegment'), con(0, 64), 8, llir.PTR) \
                if name == 'DefineSymbol' else None
            st.ev += (('call', name, desc, tuple(strs), cur, self.mod.where(ins)),)
        if ins.ty == llir.VOID:
            return 'done'
        w = eng.tw(ins.ty)
        if not mods and len(desc) == 1 and desc[0][0] in ('tok', 'lit') and w == 32:
            kn = self.known(desc[0])
            if kn is not None and self.is_hash(name):
                return sym('hash~%s' % kn.decode('latin-1'), 32)
        t = self.result(k, w or 64)
        if ins.ty == llir.PTR:
            eng.ptr_atoms.add(t[3][0][0])
        return t

    def is_hash(self, name):
        """is this the function InitTables fills opcodesHash with?"""
        if not hasattr(self.asm, '_hash'):
            self.asm._hash = None
            for f in self.asm.m0.funcs.values():
                for i in f.instrs():
                    if i.op == 'store' and isinstance(i.ops[0], Instr) and i.ops[0].op == 'call' \
                            and ('g', 'opcodesHash') in self.asm.eff.roots(i.ops[1]):
                        c = i.ops[0].x['callee']
                        if isinstance(c, GlobalRef):
                            self.asm._hash = c.name
        return name == self.asm._hash

    def loop_done(self, eng, st, header, gs, back, exits):
        segs = set()
        n0 = len(st.ev)
        for s in [x[0] for x in back] + [x[0] for x in exits]:
            for e in s.ev[n0:]:
                if e[0] == 'emit':
                    segs.add(e[1])
                elif e[0] == 'loop':
                    segs |= set(e[1])
        for x in exits:
            s = x[0]
            if back and any(b[0].ev != st.ev for b in back):
                s.ev = st.ev + (('loop', frozenset(segs), self.mod.where(header.term)),) + \
                    tuple(e for e in s.ev[n0:] if e[0] == 'call')

    def ret(self, eng, st, ins, val):
        if not eng.quiet:
            self.exits.append(Exit(st, st.ev, self, eng))


def line(asm, tok, seg, st=None):
    """all ways AssembleLine treats a line that starts with this token; with a state, the line
    that follows the lines of that state"""
    pol = LinePolicy(asm, tok)
    eng = TypedEngine(asm.mod, pol, asm.di)
    f = asm.mod.funcs['AssembleLine']
    if st is None:
        st = State()
        eng.mem_store(st, ('b', 'g', 'currentSegment'), con(0, 64), 8, asm.seg_base(seg))
    else:
        st = st.fork()
        n = st.aux.get('line', 0) + 1
        st.aux = dict(st.aux)
        st.aux['line'] = pol.lineno = n
        for g in asm.line_input():
            st.mem[('b', 'g', g)] = Region('L%d' % n)
    st.aux = {k: v for k, v in st.aux.items() if k != 'ntok'}
    st.env = {}
    st.ev = ()
    st.path = ()
    eng.run_function(f, st)
    return pol.exits, eng
