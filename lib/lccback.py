"""The bytecode back end of rcc (lcc/src/bytecode.c, gen.c): what its functions print, as text over
the values they are given, by abstract interpretation."""
import os
import re
import build
import llir
from engine import *
from terms import *
from lccfold import consts

SRC = 'lcc/src/bytecode.c'
METHODS = ('address', 'blockbeg', 'blockend', 'defaddress', 'defconst', 'defstring', 'defsymbol',
           'emit', 'export', 'function', 'gen', 'global', 'import', 'local', 'progbeg', 'progend',
           'segment', 'space', 'stabblock', 'stabend', 'stabfend', 'stabinit', 'stabline',
           'stabsym', 'stabtype')


def unrecurse(text, entries=()):
    """calls of recursive functions from within their own cycle go to an undefined @name.rec"""
    body = {}
    for m in re.finditer(r'(?ms)^define [^@\n]*@([-\w.$]+)\([^\n]*\{\n(.*?)^\}', text):
        body[m.group(1)] = m.span(), set(re.findall(r'@([-\w.$]+)\(', m.group(2)))
    calls = {f: c & set(body) for f, (s, c) in body.items()}

    def reach(f):
        seen, todo = set(), list(calls[f])
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += calls[x]
        return seen
    r = {f: reach(f) for f in body}
    rec = {f for f in body if f in r[f]}
    scc = {f: {g for g in rec if g in r[f] and f in r[g]} for f in rec}
    heads = set()
    for f in rec:
        # called from outside its cycle
        out = any(f in calls[g] for g in body if g not in scc[f])
        if out or f in entries or not scc[f] & set(entries) and not any(
                h in calls[g] for h in scc[f] for g in body if g not in scc[f]):
            heads.add(f)
    out, pos = [], 0
    for f, (span, c) in sorted(body.items(), key=lambda x: x[1][0]):
        out.append(text[pos:span[0]])
        t = text[span[0]:span[1]]
        hs = heads & scc.get(f, set())
        if hs:
            h, b = t.split('\n', 1)
            b = re.sub(r'@([-\w.$]+)\(', lambda m: '@%s.rec(' % m.group(1)
                       if m.group(1) in hs else m.group(0), b)
            t = h + '\n' + b
        out.append(t)
        pos = span[1]
    out.append(text[pos:])
    text = ''.join(out)
    for f in sorted(heads):
        m = re.search(r'(?m)^define (?:internal |dso_local )*([^@\n]*)@%s\(([^\n]*?)\)[^()\n]*\{$'
                      % re.escape(f), text)
        args = re.sub(r' %[-\w.]+', '', m.group(2))
        text += '\ndeclare %s@%s.rec(%s)\n' % (m.group(1), f, args)
    return text, heads


class Unit:
    """one source file, its recursion cut, everything inlined"""

    def __init__(self, src, opaque=(), entries=(), extra=()):
        t = build.compile_ir(src)
        names = set(re.findall(r'(?m)^define [^@\n]*@([-\w.$]+)\(', t))
        t = re.sub(r'(?m)^define internal ', 'define ', t)
        t, self.heads = unrecurse(t, entries)
        t = build.noinline(t, names & set(opaque))
        self.src, self.names = src, names
        self.mod = llir.Module(build.opt(t, build.INLINE.replace('globaldce,', ''),
                                         build.OPTARGS), src)


class Rec(Policy):
    """calls are recorded and return fresh values; fields hold what `types` says"""

    def __init__(self, mod, types=None, returns=None, globals_=None):
        super().__init__(mod)
        self.rets, self.stops = [], []
        self.types = dict(types or {})
        self.returns = dict(returns or {})
        self.globals_ = dict(globals_ or {})
        self.n = 0

    def event_key(self, st):
        return st.path

    def store_filter(self, eng, st, ins, b, off, size, val):
        if not (b[0] == 'b' and b[1] == 'alloca'):
            st.ev += (('store', b, off, size, val, self.mod.where(ins)),)
        return True

    def load_hook(self, eng, st, ins, b, off, size):
        if not is_con(off):
            return None
        o = scval(off)
        if b[0] == 's':
            if any(w[0] == off for w in self.written(st, b)):
                return None
            v = self.types.get((b[1], o))
            if v is not None and v[0] == 'l' and v[1] < 8 * size and is_con(v):
                # several constant members at once
                n, k = cval(v), v[1] // 8
                while k < size:
                    x = self.types.get((b[1], o + k))
                    if x is None or x[0] != 'l' or not is_con(x) or k + x[1] // 8 > size:
                        break
                    n |= cval(x) << 8 * k
                    k += x[1] // 8
                v = con(n, 8 * size) if k == size else v
        elif b[0] == 'b' and b[1] == 'g':
            if self.written(st, b):
                return None
            v = self.globals_.get((b[2], o), self.globals_.get(b[2]) if o == 0 else None)
        else:
            return None
        if v is not None and v[0] == 'l':
            if v[1] > 8 * size:
                v = trunc(v, 8 * size)
            if v[1] == 64 and single(v):
                eng.ptr_atoms.add(single(v))
        return v

    def written(self, st, b):
        return [(e[2],) for e in st.ev if e[0] == 'store' and e[1] == b]

    def call(self, eng, st, ins, name, args):
        n = name
        if n in ('__assert_fail', 'abort', 'exit'):
            self.stops.append((st, self.mod.where(ins)))
            return 'stop'
        if n and (n.startswith('llvm.') or n in ('va_start',)):
            return None
        if n in ('memset', 'memcpy', 'memmove'):
            return None
        if n is None:
            a = single(eng.value(st, ins.x['callee']))
            if a is None or a[0] != 's':
                raise Incomplete('indirect call at ' + self.mod.where(ins))
            n = a[1]
        v = self.returns.get(n)
        if callable(v):
            v = v(self, eng, st, args)
        if v is None:
            self.n += 1
            key = '%s@%d' % (n, self.n)
            w = 64 if ins.ty == llir.PTR else ins.ty[1] if ins.ty != llir.VOID and \
                ins.ty[0] == 'i' else None
            v = sym(key, w) if w else 'done'
        if v != 'done' and v[0] == 'l' and v[1] == 64 and single(v):
            eng.ptr_atoms.add(single(v))
        st.ev += (('call', n, tuple(args), v, self.mod.where(ins)),)
        return v

    def ret(self, eng, st, ins, val):
        self.rets.append((st, val, self.mod.where(ins)))


class Unroll(Engine):
    """follows loops around (their operands are given)"""
    MAXSTATES = 4000

    def is_cut(self, b):
        return True


def literal(mod, t):
    """the constant string t points to"""
    if t is None or t[0] != 'l':
        return None
    bs = [a for a, k in t[3] if k == 1]
    if len(t[3]) != 1 or len(bs) != 1 or bs[0][:2] != ('b', 'g'):
        return None
    g = mod.globals.get(bs[0][2])
    if g is None or not g.const or g.init is None or g.init.kind not in ('str', 'zero'):
        return None
    if g.init.kind == 'zero':
        return ''
    return g.init.val[t[2]:].split(b'\0')[0].decode('latin-1')


class Bad(Exception):
    pass


def render(mod, fmt, args, names=()):
    """text printed: literal strings and ('s', term), ('d' or 'u', term of 32 or 64 bits),
    ('c', term)"""
    f = literal(mod, fmt)
    if f is None:
        raise Bad('a format that is not constant')
    out = []
    args = list(args)
    i = 0
    while i < len(f):
        c = f[i]
        i += 1
        if c != '%':
            out.append(c)
            continue
        if i == len(f):
            raise Bad('a format that ends in %')
        c = f[i]
        i += 1
        if c == '%':
            out.append(c)
            continue
        if not args:
            raise Bad('too few arguments for the format %r' % f)
        a = args.pop(0)
        if a is None or a[0] != 'l':
            raise Bad('%%%s of %s' % (c, a))
        if c == 's':
            s = literal(mod, a)
            if a[1] != 64:
                raise Bad('%s of an integer')
            out.append(s if s is not None else ('s', a))
        elif c in 'dDuUc':
            w = 64 if c in 'DU' else 32
            if a[1] == 64 and w == 32:
                a = trunc(a, 32)           # what is read
            if c == 'U' and a[1] == 32:
                a = zext(a, 64)            # on this machine
            if a[1] != w:
                raise Bad('%%%s of %d bits' % (c, a[1]))
            if c == 'c':
                out.append(chr(cval(a) & 255) if is_con(a) else ('c', a))
            elif is_con(a):
                out.append(str(scval(a) if c in 'dD' else cval(a)))
            else:
                out.append((c.lower(), a))
        else:
            raise Bad('the format %%%s' % c)
    return join(out)


def join(items):
    out = []
    for x in items:
        if isinstance(x, str) and out and isinstance(out[-1], str):
            out[-1] += x
        elif x != '':
            out.append(x)
    return out


PRINT = {'print': 0, 'printf': 0, 'fprint': 1, 'fprintf': 1}


def printed(pol, st, stdout=None):
    """the events of a path: ('text', items), ('call', name, args, result), ('store', ...)"""
    out = []
    for e in st.ev:
        if e[0] == 'call' and e[1] in PRINT:
            k = PRINT[e[1]]
            out.append(('text', render(pol.mod, e[2][k], e[2][k + 1:]), e[4]))
        elif e[0] == 'call' and e[1] in ('fputs', 'puts'):
            s = literal(pol.mod, e[2][0])
            t = [s if s is not None else ('s', e[2][0])]
            out.append(('text', t + (['\n'] if e[1] == 'puts' else []), e[4]))
        elif e[0] == 'call' and e[1] in ('putchar', 'putc', 'fputc'):
            a = e[2][0]
            out.append(('text', [chr(cval(a) & 255) if is_con(a) else ('c', a)], e[4]))
        else:
            out.append(e)
    # one text for consecutive ones
    res = []
    for e in out:
        if e[0] == 'text' and res and res[-1][0] == 'text':
            res[-1] = ('text', join(list(res[-1][1]) + list(e[1])), res[-1][2])
        else:
            res.append(e)
    return res


def textshow(items):
    return ''.join(x if isinstance(x, str) else '<%s>' % show(x[1]) for x in items) \
        .replace('\n', '\\n')
