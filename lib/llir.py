"""Reader for textual LLVM 18 IR: a small, complete-enough object model.

Only what clang -O0 (plus mem2reg/inline/unroll/simplify passes) prints for the
C code of this repository is supported; anything else raises IRError, it is
never skipped silently.
"""
import re


class IRError(Exception):
    pass


TOK = re.compile(r'''
    \s+
  | (?P<local>%(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<global>@(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<cstr>c"(?:[^"])*")
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<meta>![-a-zA-Z$._0-9]*)
  | (?P<attr>\#[0-9]+)
  | (?P<hexf>0x[KMLHR]?[0-9A-Fa-f]+)
  | (?P<num>-?[0-9]+(?:\.[0-9]+(?:[eE][-+]?[0-9]+)?)?)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_][-a-zA-Z0-9_.]*)
  | (?P<punct>[()\[\]{}<>,=*|:])
''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos] == ';':
                break
            raise IRError('cannot tokenize: %r' % s[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


def unq(name):
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


# ---------------------------------------------------------------- types
VOID = ('void',)
PTR = ('ptr',)
FLOAT = ('float',)
DOUBLE = ('double',)
FP80 = ('x86_fp80',)
LABEL = ('label',)
META = ('metadata',)


def I(n):
    return ('int', n)


def tystr(t):
    k = t[0]
    if k == 'int':
        return 'i%d' % t[1]
    if k == 'arr':
        return '[%d x %s]' % (t[1], tystr(t[2]))
    if k == 'named':
        return '%' + t[1]
    return k


class Const:
    """kind: int, null, undef, zero, float, str, agg, expr, blockaddress"""
    __slots__ = ('kind', 'ty', 'val')

    def __init__(self, kind, ty, val=None):
        self.kind = kind
        self.ty = ty
        self.val = val

    def __repr__(self):
        return 'C(%s %r)' % (self.kind, self.val)


class GlobalRef:
    __slots__ = ('name', 'ty')

    def __init__(self, name):
        self.name = name
        self.ty = PTR

    def __repr__(self):
        return '@' + self.name


class LocalRef:
    __slots__ = ('name', 'ty')

    def __init__(self, name, ty):
        self.name = name
        self.ty = ty


class Arg:
    __slots__ = ('name', 'ty', 'index', 'func', 'attrs')

    def __init__(self, name, ty, index, func):
        self.name, self.ty, self.index, self.func = name, ty, index, func

    def __repr__(self):
        return '%' + self.name


class Instr:
    __slots__ = ('op', 'ty', 'ops', 'name', 'block', 'dbg', 'x', 'uid')
    _uid = 0

    def __init__(self, op, ty, ops, name=None, **x):
        self.op, self.ty, self.ops, self.name = op, ty, ops, name
        self.block = None
        self.dbg = None
        self.x = x
        Instr._uid += 1
        self.uid = Instr._uid

    def __repr__(self):
        return '<%s%s %s>' % ('%' + self.name + ' = ' if self.name else '', self.op,
                              ', '.join(opname(o) for o in self.ops))

    @property
    def func(self):
        return self.block.func

    @property
    def is_term(self):
        return self.op in TERMS


TERMS = ('br', 'switch', 'indirectbr', 'ret', 'unreachable')


def opname(o):
    if isinstance(o, Instr):
        return '%' + (o.name or '?')
    return repr(o)


class Block:
    __slots__ = ('name', 'func', 'instrs', 'preds', 'succs', 'idx')

    def __init__(self, name, func):
        self.name, self.func = name, func
        self.instrs = []
        self.preds = []
        self.succs = []
        self.idx = -1

    @property
    def term(self):
        return self.instrs[-1]

    def __repr__(self):
        return '<bb %s>' % self.name

    def phis(self):
        return [i for i in self.instrs if i.op == 'phi']


class Function:
    def __init__(self, name, ret, args, vararg):
        self.name, self.ret, self.vararg = name, ret, vararg
        self.args = [Arg(n, t, i, self) for i, (t, n) in enumerate(args)]
        self.blocks = []
        self.bmap = {}
        self.dbg = None
        self.internal = False
        self.attrs = None

    @property
    def entry(self):
        return self.blocks[0]

    def instrs(self):
        for b in self.blocks:
            for i in b.instrs:
                yield i

    def __repr__(self):
        return '<func %s>' % self.name


class GlobalVar:
    def __init__(self, name, ty, init, const, internal, external):
        self.name, self.ty, self.init = name, ty, init
        self.const, self.internal, self.external = const, internal, external
        self.dbg = None
        self.tls = False

    def __repr__(self):
        return '<global %s>' % self.name


PARAM_ATTRS = set('''noundef nonnull signext zeroext inreg noalias nocapture readonly writeonly
 readnone returned immarg nofree nest swiftself swifterror allocptr dead_on_unwind writable
 noreturn nounwind'''.split())
FLAGS = set('''nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc disjoint nneg
 volatile samesign'''.split())
CCONV = set('fastcc ccc coldcc'.split())
BINOPS = set('''add sub mul udiv sdiv urem srem shl lshr ashr and or xor fadd fsub fmul fdiv
 frem'''.split())
CASTS = set('''trunc zext sext fptrunc fpext fptoui fptosi uitofp sitofp ptrtoint inttoptr
 bitcast addrspacecast'''.split())


class P:
    """token stream parser"""

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else (None, None)

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def isv(self, v, k=0):
        return self.peek(k)[1] == v

    def accept(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        if self.peek()[1] != v:
            raise IRError('expected %r, got %r in %r' % (v, self.t[self.i:self.i + 5],
                                                          ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    def type(self):
        k, v = self.next()
        if k == 'word':
            if v == 'ptr':
                t = PTR
            elif v == 'void':
                t = VOID
            elif v in ('float', 'double', 'x86_fp80', 'label', 'metadata', 'half', 'fp128'):
                t = (v,)
            elif v == 'opaque':
                t = ('opaque',)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('int', int(v[1:]))
            else:
                raise IRError('type? %r in %r' % (v, ' '.join(x[1] for x in self.t)[:300]))
        elif k == 'local':
            t = ('named', unq(v))
        elif v == '[':
            n = int(self.next()[1])
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '<':
            if self.isv('{'):
                self.next()
                es = self.types_until('}')
                self.expect('>')
                t = ('struct', tuple(es), True)
            else:
                n = int(self.next()[1])
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v == '{':
            es = self.types_until('}')
            t = ('struct', tuple(es), False)
        else:
            raise IRError('type? %r' % v)
        while self.isv('('):       # function type
            self.next()
            args = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    args.append(self.type())
                    self.skip_pattrs()
                self.accept(',')
            t = ('func', t, tuple(args), va)
        return t

    def types_until(self, end):
        es = []
        while not self.accept(end):
            es.append(self.type())
            self.accept(',')
        return es

    def skip_pattrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in PARAM_ATTRS:
                self.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null',
                                       'byval', 'sret', 'captures', 'range', 'memory',
                                       'elementtype', 'allocalign'):
                self.next()
                if self.isv('('):
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                            if d == 0:
                                break
                elif v == 'align':
                    self.next()
            elif k == 'str':
                self.next()
                if self.accept('='):
                    self.next()
            else:
                return

    def value(self, ty):
        k, v = self.next()
        if k == 'local':
            return LocalRef(unq(v), ty)
        if k == 'global':
            return GlobalRef(unq(v))
        if k == 'num':
            if ty[0] == 'int':
                return Const('int', ty, int(v))
            return Const('float', ty, v)
        if k == 'hexf':
            return Const('float', ty, v)
        if k == 'cstr':
            return Const('str', ty, unescape(v[2:-1]))
        if k == 'word':
            if v == 'true':
                return Const('int', ty, 1)
            if v == 'false':
                return Const('int', ty, 0)
            if v == 'null':
                return Const('null', ty)
            if v in ('undef', 'poison'):
                return Const('undef', ty)
            if v == 'zeroinitializer':
                return Const('zero', ty)
            if v == 'none':
                return Const('undef', ty)
            if v == 'blockaddress':
                self.expect('(')
                f = unq(self.next()[1])
                self.expect(',')
                b = unq(self.next()[1])
                self.expect(')')
                return Const('blockaddress', PTR, (f, b))
            if v in CASTS:
                self.expect('(')
                t = self.type()
                x = self.value(t)
                self.expect('to')
                t2 = self.type()
                self.expect(')')
                return Const('expr', t2, (v, [x]))
            if v == 'getelementptr':
                while self.peek()[1] in ('inbounds', 'inrange', 'nuw'):
                    self.next()
                self.expect('(')
                st = self.type()
                ops = []
                while self.accept(','):
                    self.accept('inrange')
                    t = self.type()
                    ops.append(self.value(t))
                self.expect(')')
                return Const('expr', PTR, ('getelementptr', ops, st))
            if v in BINOPS:
                while self.peek()[1] in FLAGS:
                    self.next()
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t = self.type()
                b = self.value(t)
                self.expect(')')
                return Const('expr', t, (v, [a, b]))
            if v in ('icmp', 'fcmp'):
                pred = self.next()[1]
                self.expect('(')
                t = self.type()
                a = self.value(t)
                self.expect(',')
                t = self.type()
                b = self.value(t)
                self.expect(')')
                return Const('expr', ('int', 1), (v, [a, b], pred))
            if v == 'select':
                self.expect('(')
                xs = []
                while not self.accept(')'):
                    t = self.type()
                    xs.append(self.value(t))
                    self.accept(',')
                return Const('expr', xs[1].ty, ('select', xs))
            raise IRError('value? %r in %r' % (v, ' '.join(x[1] for x in self.t)[:300]))
        if v == '[' or v == '{' or v == '<':
            end = {'[': ']', '{': '}', '<': '>'}[v]
            packed = v == '<' and self.accept('{')
            es = []
            if packed:
                end = '}'
            while not self.accept(end):
                t = self.type()
                es.append(self.value(t))
                self.accept(',')
            if packed:
                self.expect('>')
            return Const('agg', ty, es)
        raise IRError('value? %r' % (v,))

    def tv(self):
        t = self.type()
        self.skip_pattrs()
        if t == META:
            # metadata operand: skip balanced
            d = 0
            while True:
                k, v = self.peek()
                if k is None:
                    break
                if d == 0 and v in (',', ')'):
                    break
                if v in ('(', '[', '{'):
                    d += 1
                if v in (')', ']', '}'):
                    d -= 1
                self.next()
            return Const('undef', META)
        return self.value(t)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]) & 0xff)
            i += 1
    return bytes(out)


META_RE = re.compile(r'^!(\d+) = (?:distinct )?(.*)$')


class Module:
    def __init__(self, text, name='module'):
        self.name = name
        self.types = {}
        self.globals = {}
        self.funcs = {}      # defined
        self.decls = {}
        self.meta_raw = {}
        self._meta = {}
        self._layout = {}
        self.parse(text)

    # ---------------------------------------------------------- parsing
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            i += 1
            if not l or l[0] == ';':
                continue
            if l.startswith('%'):
                nm, rest = l.split(' = type ', 1)
                p = P(tokenize(rest), self)
                self.types[unq(nm)] = p.type()
            elif l[0] == '@':
                self.parse_global(l)
            elif l.startswith('declare'):
                self.parse_proto(l[len('declare'):], None)
            elif l.startswith('define'):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                f = self.parse_proto(l[len('define'):], body)
                self.parse_body(f, body)
            elif l[0] == '!':
                m = META_RE.match(l)
                if m:
                    self.meta_raw[int(m.group(1))] = m.group(2)
            elif l.startswith(('source_filename', 'target', 'attributes', 'module asm', '$',
                               'uselistorder')):
                pass
            else:
                raise IRError('top level? %r' % l[:100])

    def parse_global(self, l):
        dbg = re.search(r', !dbg !(\d+)', l)
        l2 = re.sub(r', !dbg !\d+', '', l)
        p = P(tokenize(l2), self)
        name = unq(p.next()[1])
        p.expect('=')
        internal = external = const = tls = False
        while True:
            v = p.peek()[1]
            if v in ('private', 'internal'):
                internal = True
                p.next()
            elif v in ('external', 'extern_weak'):
                external = True
                p.next()
            elif v in ('dso_local', 'unnamed_addr', 'local_unnamed_addr', 'common', 'weak',
                       'hidden', 'linkonce_odr'):
                p.next()
            elif v == 'thread_local':
                tls = True
                p.next()
            elif v == 'global':
                p.next()
                break
            elif v == 'constant':
                const = True
                p.next()
                break
            elif v == 'alias':
                raise IRError('alias')
            else:
                raise IRError('global? %r' % l[:200])
        ty = p.type()
        init = None
        if not external:
            init = p.value(ty)
        g = GlobalVar(name, ty, init, const, internal, external)
        g.tls = tls
        if dbg:
            g.dbg = int(dbg.group(1))
        self.globals[name] = g

    def parse_proto(self, l, body):
        dbg = re.search(r' !dbg !(\d+)', l)
        l = re.sub(r' !dbg !\d+', '', l)
        l = l.rstrip('{ ')
        p = P(tokenize(l), self)
        internal = False
        while True:
            k, v = p.peek()
            if v in ('internal', 'private'):
                internal = True
                p.next()
            elif v in ('dso_local', 'hidden', 'weak', 'linkonce_odr', 'available_externally',
                       'local_unnamed_addr') or v in CCONV:
                p.next()
            elif v in PARAM_ATTRS or v == 'align' or v in ('dereferenceable', 'range'):
                p.skip_pattrs()
            else:
                break
        # the return type; "type()" would eat "(" only for function types after a type word,
        # but here the next token is a global
        ret = p.type()
        name = unq(p.next()[1])
        p.expect('(')
        args = []
        va = False
        cnt = 0
        while not p.accept(')'):
            if p.accept('...'):
                va = True
            else:
                t = p.type()
                p.skip_pattrs()
                if p.peek()[0] == 'local':
                    nm = unq(p.next()[1])
                else:
                    nm = str(cnt)
                cnt += 1
                if t == META:
                    nm = '_m%d' % cnt
                args.append((t, nm))
            p.accept(',')
        f = Function(name, ret, args, va)
        f.internal = internal
        rest = ' '.join(x[1] for x in p.t[p.i:])
        f.attrs = rest
        if dbg:
            f.dbg = int(dbg.group(1))
        if body is None:
            self.decls[name] = f
        else:
            self.funcs[name] = f
        return f

    def parse_body(self, f, body):
        # implicit entry label numbering
        cur = None
        pend = []
        nargs = len(f.args)
        i = 0
        lines = body
        n = len(lines)
        locals_ = {a.name: a for a in f.args}
        label_re = re.compile(r'^(?:"((?:[^"\\]|\\.)*)"|([-a-zA-Z$._0-9]+)):')
        while i < n:
            l = lines[i]
            i += 1
            if not l.strip() or l.lstrip().startswith(';'):
                continue
            m = label_re.match(l)
            if m:
                nm = m.group(1) if m.group(1) is not None else m.group(2)
                cur = Block(nm, f)
                f.blocks.append(cur)
                f.bmap[nm] = cur
                continue
            if cur is None:
                # an unnamed entry block takes the next number after the arguments
                k = 0
                for a in f.args:
                    if a.name.isdigit():
                        k = max(k, int(a.name) + 1)
                cur = Block(str(k), f)
                f.blocks.append(cur)
                f.bmap[cur.name] = cur
            s = l.strip()
            if s.startswith('switch') and s.endswith('['):
                parts = [s]
                while True:
                    s2 = lines[i].strip()
                    i += 1
                    parts.append(s2)
                    if s2.startswith(']'):
                        break
                s = ' '.join(parts)
            ins = self.parse_instr(s)
            if ins is None:
                continue
            ins.block = cur
            cur.instrs.append(ins)
            if ins.name is not None:
                locals_[ins.name] = ins
        # resolve
        for k, b in enumerate(f.blocks):
            b.idx = k
            for ins in b.instrs:
                ins.ops = [self.resolve(o, locals_, f) for o in ins.ops]
                if 'targets' in ins.x:
                    ins.x['targets'] = [f.bmap[t] for t in ins.x['targets']]
                if 'cases' in ins.x:
                    ins.x['cases'] = [(v, f.bmap[t]) for v, t in ins.x['cases']]
                if 'blocks' in ins.x:
                    ins.x['blocks'] = [f.bmap[t] for t in ins.x['blocks']]
                if 'callee' in ins.x:
                    ins.x['callee'] = self.resolve(ins.x['callee'], locals_, f)
        for b in f.blocks:
            seen = []
            for s in b.term.x.get('targets', []):
                if s not in seen:
                    seen.append(s)
            b.succs = seen
            for s in seen:
                s.preds.append(b)

    def resolve(self, o, locals_, f):
        if isinstance(o, LocalRef):
            try:
                return locals_[o.name]
            except KeyError:
                raise IRError('unresolved %%%s in %s' % (o.name, f.name))
        return o

    DBG_SUFFIX = re.compile(r',? !(?:dbg|llvm\.loop|srcloc|prof|tbaa|noundef|range|nonnull|align|heapallocsite|annotation|unpredictable) !\d+')

    def parse_instr(self, s):
        dm = re.search(r'!dbg !(\d+)', s)
        s = self.DBG_SUFFIX.sub('', s)
        if 'call void @llvm.dbg.' in s or 'call void @llvm.lifetime' in s:
            return None
        name = None
        toks = tokenize(s)
        p = P(toks, self)
        if p.peek()[0] == 'local' and p.isv('=', 1):
            name = unq(p.next()[1])
            p.next()
        k, op = p.next()
        if op in ('tail', 'musttail', 'notail'):
            k, op = p.next()
        flags = []

        def eatflags():
            while p.peek()[0] == 'word' and p.peek()[1] in FLAGS:
                flags.append(p.next()[1])
        ins = None
        if op in BINOPS:
            eatflags()
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins = Instr(op, t, [a, b], name, flags=flags)
        elif op in ('icmp', 'fcmp'):
            eatflags()
            pred = p.next()[1]
            t = p.type()
            a = p.value(t)
            p.expect(',')
            b = p.value(t)
            ins = Instr(op, ('int', 1), [a, b], name, pred=pred)
        elif op == 'fneg':
            eatflags()
            a = p.tv()
            ins = Instr(op, a.ty, [a], name)
        elif op in CASTS:
            eatflags()
            a = p.tv()
            p.expect('to')
            t = p.type()
            ins = Instr(op, t, [a], name, flags=flags)
        elif op == 'freeze':
            a = p.tv()
            ins = Instr(op, a.ty, [a], name)
        elif op == 'select':
            eatflags()
            a = p.tv()
            p.expect(',')
            b = p.tv()
            p.expect(',')
            c = p.tv()
            ins = Instr(op, b.ty, [a, b, c], name)
        elif op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            cnt = Const('int', ('int', 32), 1)
            align = None
            while p.accept(','):
                if p.accept('align'):
                    align = int(p.next()[1])
                else:
                    cnt = p.tv()
            ins = Instr(op, PTR, [cnt], name, aty=t, align=align)
        elif op == 'load':
            vol = p.accept('volatile')
            t = p.type()
            p.expect(',')
            a = p.tv()
            ins = Instr(op, t, [a], name, volatile=vol)
        elif op == 'store':
            vol = p.accept('volatile')
            v = p.tv()
            p.expect(',')
            a = p.tv()
            ins = Instr(op, VOID, [v, a], name, volatile=vol)
        elif op == 'getelementptr':
            eatflags()
            st = p.type()
            ops = []
            while p.accept(','):
                ops.append(p.tv())
            ins = Instr(op, PTR, ops, name, sty=st, flags=flags)
        elif op == 'phi':
            eatflags()
            t = p.type()
            vals, bl = [], []
            while True:
                p.expect('[')
                vals.append(p.value(t))
                p.expect(',')
                bl.append(unq(p.next()[1]))
                p.expect(']')
                if not p.accept(','):
                    break
            ins = Instr(op, t, vals, name, blocks=bl)
        elif op == 'br':
            if p.isv('label'):
                p.next()
                ins = Instr(op, VOID, [], None, targets=[unq(p.next()[1])])
            else:
                c = p.tv()
                p.expect(',')
                p.expect('label')
                a = unq(p.next()[1])
                p.expect(',')
                p.expect('label')
                b = unq(p.next()[1])
                ins = Instr(op, VOID, [c], None, targets=[a, b])
        elif op == 'switch':
            v = p.tv()
            p.expect(',')
            p.expect('label')
            d = unq(p.next()[1])
            p.expect('[')
            cases = []
            while not p.accept(']'):
                c = p.tv()
                p.expect(',')
                p.expect('label')
                cases.append((c.val, unq(p.next()[1])))
            ins = Instr(op, VOID, [v], None, cases=cases, targets=[d] + [t for _, t in cases])
        elif op == 'indirectbr':
            v = p.tv()
            p.expect(',')
            p.expect('[')
            ts = []
            while not p.accept(']'):
                p.expect('label')
                ts.append(unq(p.next()[1]))
                p.accept(',')
            ins = Instr(op, VOID, [v], None, targets=ts)
        elif op == 'ret':
            if p.accept('void'):
                ins = Instr(op, VOID, [])
            else:
                ins = Instr(op, VOID, [p.tv()])
        elif op == 'unreachable':
            ins = Instr(op, VOID, [])
        elif op == 'call':
            while True:
                k, v = p.peek()
                if v in CCONV or v in FLAGS:
                    p.next()
                elif v in PARAM_ATTRS or v in ('align', 'dereferenceable', 'range',
                                               'dereferenceable_or_null'):
                    p.skip_pattrs()
                else:
                    break
            t = p.type()
            fty = None
            if t[0] == 'func':
                fty = t
                t = t[1]
            if p.peek()[1] == 'asm':
                raise IRError('inline asm')
            callee = p.value(PTR)
            p.expect('(')
            args = []
            while not p.accept(')'):
                args.append(p.tv())
                p.accept(',')
            ins = Instr(op, t, args, name, callee=callee, fty=fty)
        elif op == 'extractvalue':
            a = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            t = a.ty
            ins = Instr(op, None, [a], name, idx=idx)
        elif op == 'insertvalue':
            a = p.tv()
            p.expect(',')
            b = p.tv()
            idx = []
            while p.accept(','):
                idx.append(int(p.next()[1]))
            ins = Instr(op, a.ty, [a, b], name, idx=idx)
        elif op == 'va_arg':
            a = p.tv()
            p.expect(',')
            t = p.type()
            ins = Instr(op, t, [a], name)
        else:
            raise IRError('instruction? %r' % s[:200])
        if dm:
            ins.dbg = int(dm.group(1))
        return ins

    # ---------------------------------------------------------- layout
    def rtype(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        if t in self._layout:
            return self._layout[t]
        r = self._size_align(t)
        self._layout[t] = r
        return r

    def _size_align(self, t):
        k = t[0]
        if k == 'int':
            b = max(1, (t[1] + 7) // 8)
            p = 1
            while p < b:
                p *= 2
            return p, min(p, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return 4, 4
        if k == 'double':
            return 8, 8
        if k == 'x86_fp80':
            return 16, 16
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'struct':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                al = max(al, a)
            off = (off + al - 1) // al * al
            return off, al
        if k == 'opaque':
            return 0, 1
        raise IRError('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_offset(self, t, i):
        t = self.rtype(t)
        off = 0
        for k, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if k == i:
                return off
            off += s
        raise IRError('field index')

    # ---------------------------------------------------------- debug info
    def meta(self, n):
        if n in self._meta:
            return self._meta[n]
        raw = self.meta_raw.get(n)
        if raw is None:
            return None
        m = re.match(r'^!(\w+)\((.*)\)$', raw)
        if m:
            d = {'_kind': m.group(1)}
            for fm in re.finditer(r'(\w+): ("(?:[^"\\]|\\.)*"|![0-9]+|[^,()]+(?:\([^)]*\))?)', m.group(2)):
                v = fm.group(2)
                if v.startswith('"'):
                    v = v[1:-1]
                elif v.startswith('!') and v[1:].isdigit():
                    v = ('ref', int(v[1:]))
                d[fm.group(1)] = v
        else:
            m = re.match(r'^!\{(.*)\}$', raw)
            items = []
            if m:
                for x in m.group(1).split(','):
                    x = x.strip()
                    if re.match(r'^!\d+$', x):
                        items.append(('ref', int(x[1:])))
                    else:
                        items.append(x)
            d = {'_kind': 'tuple', 'items': items}
        self._meta[n] = d
        return d

    def mref(self, v):
        if isinstance(v, tuple) and v[0] == 'ref':
            return self.meta(v[1])
        return None

    def loc(self, ins):
        """(file, line, function) of an instruction; innermost inlined location"""
        if ins is None or ins.dbg is None:
            return None
        d = self.meta(ins.dbg)
        if not d or d['_kind'] != 'DILocation':
            return None
        line = int(d.get('line', '0'))
        sc = self.mref(d.get('scope'))
        fn = fl = None
        while sc:
            if fl is None and 'file' in sc:
                ff = self.mref(sc['file'])
                if ff:
                    fl = ff.get('filename')
            if sc['_kind'] == 'DISubprogram':
                fn = sc.get('name')
                break
            sc = self.mref(sc.get('scope'))
        return fl, line, fn

    def where(self, ins):
        l = self.loc(ins)
        if not l:
            try:
                return ins.func.name
            except AttributeError:
                return '?'
        f = l[0] or '?'
        if f.startswith('/repo/'):
            f = f[6:]
        return '%s:%d (%s)' % (f, l[1], l[2])

    def enums(self):
        """name -> value of all enumerators in the debug info"""
        out = {}
        for n in self.meta_raw:
            if 'DIEnumerator' in self.meta_raw[n]:
                d = self.meta(n)
                out[d['name']] = int(d['value'])
        return out

    def struct_fields(self, name):
        """list of (field name, bit offset, bit size) of a struct tag or typedef name"""
        for n, raw in self.meta_raw.items():
            if raw.startswith('!DICompositeType(') and 'DW_TAG_structure_type' in raw:
                d = self.meta(n)
                if d.get('name') == name and 'elements' in d:
                    return self._fields(d)
        for n, raw in self.meta_raw.items():
            if raw.startswith('!DIDerivedType(') and 'DW_TAG_typedef' in raw:
                d = self.meta(n)
                if d.get('name') == name:
                    b = self.mref(d.get('baseType'))
                    if b and 'elements' in b:
                        return self._fields(b)
        return None

    def _fields(self, d):
        res = []
        for r in self.mref(d['elements'])['items']:
            m = self.mref(r)
            if m and m.get('tag') == 'DW_TAG_member':
                res.append((m.get('name'), int(m.get('offset', '0')), int(m.get('size', '0'))))
        return res

    # constants
    def gep_const_offset(self, sty, ops):
        off = 0
        t = sty
        for k, o in enumerate(ops):
            if not (isinstance(o, Const) and o.kind == 'int'):
                return None
            v = o.val
            if k == 0:
                off += v * self.sizeof(t)
            else:
                rt = self.rtype(t)
                if rt[0] == 'arr':
                    t = rt[2]
                    off += v * self.sizeof(t)
                elif rt[0] == 'struct':
                    off += self.field_offset(rt, v)
                    t = rt[1][v]
                else:
                    return None
        return off

    def cstring(self, v):
        """python bytes of a constant C string operand, or None"""
        off = 0
        while isinstance(v, Const) and v.kind == 'expr' and v.val[0] == 'getelementptr':
            o = self.gep_const_offset(v.val[2], v.val[1][1:])
            if o is None:
                return None
            off += o
            v = v.val[1][0]
        if isinstance(v, GlobalRef):
            g = self.globals.get(v.name)
            if g and g.const and g.init is not None:
                if g.init.kind == 'str':
                    b = g.init.val[off:]
                    return b.split(b'\0')[0]
                if g.init.kind == 'zero':
                    return b''
        return None

    def readonly_globals(self):
        """internal globals that are only ever read in this module"""
        if getattr(self, '_ro', None) is not None:
            return self._ro
        cand = {n for n, g in self.globals.items()
                if g.const or (g.internal and not g.external)}
        derived = {}

        def root(o):
            if isinstance(o, GlobalRef):
                return {o.name}
            if isinstance(o, Instr):
                return derived.get(o, set())
            if isinstance(o, Const) and o.kind == 'expr':
                r = set()
                for x in o.val[1]:
                    if not isinstance(x, (int, tuple, str)):
                        r |= root(x)
                return r
            if isinstance(o, Const) and o.kind in ('arr', 'struct') and isinstance(o.val, list):
                r = set()
                for x in o.val:
                    r |= root(x)
                return r
            return set()
        bad = set()
        for f in self.funcs.values():
            changed = True
            while changed:
                changed = False
                for i in f.instrs():
                    if i.op in ('getelementptr', 'phi', 'select', 'bitcast'):
                        r = set()
                        for o in i.ops:
                            r |= root(o)
                        if r - derived.get(i, set()):
                            derived[i] = derived.get(i, set()) | r
                            changed = True
            for i in f.instrs():
                if i.op in ('getelementptr', 'phi', 'select', 'bitcast', 'load', 'icmp'):
                    continue
                for o in i.ops:
                    bad |= root(o)
        for g in self.globals.values():
            if g.init is not None:
                bad |= root(g.init)
        self._ro = {n for n in cand if n not in bad or self.globals[n].const}
        return self._ro
