"""C38: layout of objects and initialisers in rcc (decl.c, init.c, types.c)."""
import lccdag
from checks_dag import base_types, expect, rd, glob, allocate, tree
from lccdag import *
from report import Result

_U = {}
O = con(0, 32)
TOK = ('ID', 'SCON', 'ICON', 'CHAR', 'BSS', 'DATA', 'EOI', 'TYPEDEF', 'CONSTANTS', 'PARAM', 'LOCAL',
       'PERM')
GLOB = {'inttype': 'inttype', 'unsignedtype': 'unsignedtype', 'voidptype': 'voidptype',
        'IR': 'IR', 'chartype': 'chartype', 'unsignedchar': 'unsignedchar',
        'widechar': 'widechar', 'tsym': 'tsym'}


def unit(src, opaque=(), entries=()):
    if (src, opaque) not in _U:
        lccdag.NAMES[:] = lccdag.NAMES + [n for n in TOK if n not in lccdag.NAMES]
        _U[src, opaque] = Dag('lcc/src/' + src, opaque, entries)
    return _U[src, opaque]


def types_(C):
    o = C.o
    t = base_types(C)
    for n, k, s in (('chartype', 'INT', 1), ('unsignedchar', 'UNSIGNED', 1),
                    ('widechar', 'UNSIGNED', 2)):
        t[n, o['type', 'op']] = con(C.c[k], 32)
        t[n, o['type', 'size']] = con(s, 32)
        t[n, o['type', 'align']] = con(s, 32)
    t['inttype', o['type', 'u.sym']] = N('intsym')
    t['intsym', o['symbol', 'u.limits.max.i']] = con((1 << 31) - 1, 64)
    for m in METHODS:
        t['IR', o['interface', m]] = N(m)
    return t


def running(r, C, fn, args, what, types=None, globals_=None, facts=(), live=(), returns=None,
            rule='data', **kw):
    t = types_(C)
    t.update(types or {})
    g = {n: N(x) for n, x in GLOB.items()}
    g.update(globals_ or {})
    ret = {'allocate': allocate}
    ret.update(returns or {})
    return DRun(r, C, fn, args, what, types=t, globals_=g, facts=facts, live=live, returns=ret,
                rule=rule, changing=(), **kw)


# ---------------------------------------------------------------- bits of a value
def bitvec(t, leaf=()):
    """the bits of an integer term: 0, 1 or (leaf, bit); None if they are not known apart"""
    w = t[1]
    if is_con(t):
        return [cval(t) >> i & 1 for i in range(w)]
    out = [t[2] >> i & 1 for i in range(w)]
    for a, k in t[3]:
        k &= mask(w)
        if k & (k - 1):
            return None
        x = bitsatom(a, leaf)
        if x is None or len(x) != w:
            return None
        s = k.bit_length() - 1
        x = [0] * s + x[:w - s]
        if any(p != 0 and q != 0 for p, q in zip(out, x)):
            return None
        out = [p if p != 0 else q for p, q in zip(out, x)]
    return out


def bitsatom(a, leaf):
    if a[0] != 'x':
        return [(a, i) for i in range(awidth(a))]
    op, w = a[1], a[2]
    if not (isinstance(a[3], tuple) and a[3] and a[3][0] == 'l'):
        return None
    x = bitvec(a[3], leaf)
    if x is None:
        return None
    if op == 'zext':
        return x + [0] * (w - len(x))
    if op == 'sext':
        return x + [x[-1]] * (w - len(x))
    if op == 'trunc':
        return x[:w]
    if op in ('lshr', 'ashr') and is_con(a[4]):
        k = cval(a[4])
        return x[k:] + [x[-1] if op == 'ashr' else 0] * k
    if op in ('and', 'or', 'xor'):
        y = bitvec(a[4], leaf)
        if y is None:
            return None
        out = []
        for p, q in zip(x, y):
            if p == q:
                v = 0 if op == 'xor' else p
            elif p in (0, 1) or q in (0, 1):
                if p in (0, 1):
                    p, q = q, p
                v = {'and': p if q else 0, 'or': 1 if q else p,
                     'xor': None if q else p}[op]
            else:
                v = None
            if v is None:
                return None
            out.append(v)
        return out
    return None


# ---------------------------------------------------------------- layout
NODECL = {'t': con(ord('}'), 32), ('kind', ord('}')): con(0, 8)}


def layouts(r):
    """members of structs and unions"""
    C = unit('decl.c', ('dclr', 'specifier'))
    C.fn('fields')
    n = 0
    for op in ('STRUCT', 'UNION'):
        for a in (0, 1, 2, 4):
            for sz in (0, 1, 2, 3):
                for j in (0, 1, 2, 3):
                    # a type has a size that is a multiple of its alignment
                    if j % max(a, 1) == 0:
                        n += layout(r, C, op, [('m', 1, None, sz), ('m', a, 'n', j)])
        for w in range(0, 33):
            for sz in (0, 1, 3):
                n += layout(r, C, op, [('m', 1, None, sz), ('b', w)])
            for a in (1, 2, 4):
                n += layout(r, C, op, [('m', 1, None, 1), ('b', w), ('m', a, 'n', 0)])
            for v in range(0, 33) if op == 'STRUCT' else (0, 1, 7, 32):
                n += layout(r, C, op, [('m', 1, None, 0), ('b', w), ('b', v)])
        for w in (0, 1, 3, 8, 9, 12, 17, 31, 32):
            n += layout(r, C, op, [('m', 1, None, 1), ('b0', w), ('b', 4)])
            n += layout(r, C, op, [('m', 1, None, 1), ('b0', w), ('m', 1, 'n', 0)])
            n += layout(r, C, op, [('b0', w)])
    for a in (1, 2, 4):
        overflows(r, C, a)
    return n


def layout(r, C, op, ms, big=False):
    o = C.o
    k = sym('k', 32)
    t = {('ty', o['type', 'op']): con(C.c[op], 32), ('ty', o['type', 'size']): O,
         ('ty', o['type', 'align']): O, ('ty', o['type', 'u.sym']): N('tysym'),
         ('tysym', o['symbol', 'u.s.flist']): N('f0'),
         ('IR', o['interface', 'structmetric'] + 1): con(4, 8)}
    facts = [icmp('sge', k, O), icmp('sle', k, con(1 << 20, 32))]
    what = []
    sizes, aligns = [], []
    for i, m in enumerate(ms):
        f = 'f%d' % i
        T = 'F%d' % i
        t[f, o['field', 'type']] = N(T)
        t[f, o['field', 'link']] = N('f%d' % (i + 1)) if i + 1 < len(ms) else Z
        t[f, o['field', 'name']] = N('name%d' % i)
        t['name%d' % i, 0] = con(ord('1' if m[0] == 'b0' else 'a'), 8)
        if m[0] == 'm':
            s = addc(scale(k if m[2] is None else sym('n', 32), 4), m[3])
            if m[2]:
                facts += [icmp('sge', sym('n', 32), con(1, 32)),
                          icmp('sle', sym('n', 32), con(1 << 20, 32))]
            t[T, o['type', 'align']] = con(m[1], 32)
            t[T, o['type', 'size']] = s
            t[f, o['field', 'lsb']] = con(0, 16)
            t[f, o['field', 'bitsize']] = con(0, 16)
            sizes.append(s)
            aligns.append(max(m[1], 1))
            what.append('a member aligned %d' % m[1])
        else:
            t[T, o['type', 'align']] = con(4, 32)
            t[T, o['type', 'size']] = con(4, 32)
            t[f, o['field', 'lsb']] = con(1, 16)
            t[f, o['field', 'bitsize']] = con(m[1], 16)
            sizes.append(None)
            aligns.append(4)
            what.append('%d bits' % m[1])
    R = running(r, C, 'fields', [N('ty')], '%s of %s' % (op.lower(), ', '.join(what)), types=t,
                facts=facts, globals_=NODECL, rule='layout')
    for ctx, ev, val, where, st in R.paths():
        try:
            if any(e[0] == 'error' for e in ev):
                raise No('is not accepted')
            size = rd(R, st, N('ty'), o['type', 'size'], 32)
            align = rd(R, st, N('ty'), o['type', 'align'], 32)
            if not is_con(align) or any(cval(align) % a for a in aligns) or cval(align) > 4:
                raise No('aligned %s' % show(align))
            if not eq(ctx, and_(size, con(cval(align) - 1, 32)), O):
                raise No('the size %s is no multiple of the alignment' % show(size))
            end = O                       # the first bit not used, as byte and bits
            bits = 0
            for i, m in enumerate(ms):
                off = rd(R, st, N('f%d' % i), o['field', 'offset'], 32)
                if not eq(ctx, and_(off, con(aligns[i] - 1, 32)), O):
                    raise No('member %d at %s is not aligned' % (i + 1, show(off)))
                if m[0] == 'm':
                    if op == 'UNION':
                        if off != O:
                            raise No('member %d is at %s' % (i + 1, show(off)))
                    elif not known(ctx, icmp('sge', off, addc(end, (bits + 7) // 8))):
                        raise No('member %d at %s shares memory' % (i + 1, show(off)))
                    elif not known(ctx, icmp('slt', off, addc(end, (bits + 7) // 8 + aligns[i]))):
                        raise No('member %d at %s leaves a gap' % (i + 1, show(off)))
                    end, bits = add(off, sizes[i]), 0
                    if not known(ctx, icmp('sle', end, size)):
                        raise No('member %d is larger than all' % (i + 1))
                    continue
                lsb = rd(R, st, N('f%d' % i), o['field', 'lsb'], 16)
                if not is_con(lsb):
                    raise No('bit field at %s' % show(lsb))
                b = cval(lsb) - 1
                w = m[1]
                if b < 0 or b + w > 32:
                    raise No('bit field %d from bit %d' % (i + 1, b))
                if op == 'UNION' and (off != O or b):
                    raise No('bit field %d is at %s' % (i + 1, show(off)))
                d = sub(off, end)
                if op == 'STRUCT' and not (is_con(d) and 8 * scval(d) + b >= bits) and \
                        not known(ctx, icmp('sge', off, addc(end, (bits + 7) // 8))):
                    raise No('bit field %d at byte %s, bit %d shares bits' % (i + 1, show(off), b))
                if op == 'STRUCT' and w == 0 and i and ms[i - 1][0][0] == 'b' and \
                        (is_con(d) and 8 * scval(d) < bits):
                    raise No('a field of no bits does not close the unit')
                end, bits = off, b + w
                if not known(ctx, icmp('sle', addc(end, (bits + 7) // 8), size)):
                    raise No('bit field %d is outside' % (i + 1))
            # the list
            want = [i for i, m in enumerate(ms) if m[0] != 'b0']
            x, got = rd(R, st, N('tysym'), o['symbol', 'u.s.flist']), []
            while x != Z and single(x) and len(got) < 5:
                got.append(single(x)[1])
                x = rd(R, st, x, o['field', 'link'])
            if got != ['f%d' % i for i in want]:
                raise No('the members are %s' % ', '.join(got))
            # no padding but for alignment
            if op == 'STRUCT':
                last = addc(end, (bits + 7) // 8)
                if not known(ctx, icmp('slt', size, addc(last, cval(align)))):
                    raise No('the size %s is too large' % show(size))
        except No as e:
            R.bad(where, str(e))
    return 1


def overflows(r, C, a2):
    """sizes above INT_MAX are diagnosed"""
    o = C.o
    k1, k2 = sym('k1', 32), sym('k2', 32)
    s1, s2 = addc(scale(k1, 4), 3), addc(scale(k2, 4), 2 if a2 < 4 else 0)
    for op in ('STRUCT', 'UNION'):
        t = {('ty', o['type', 'op']): con(C.c[op], 32), ('ty', o['type', 'size']): O,
             ('ty', o['type', 'align']): O, ('ty', o['type', 'u.sym']): N('tysym'),
             ('tysym', o['symbol', 'u.s.flist']): N('f0'),
             ('IR', o['interface', 'structmetric'] + 1): con(4, 8)}
        for i, s in ((0, s1), (1, s2)):
            f = 'f%d' % i
            t[f, o['field', 'type']] = N('F%d' % i)
            t[f, o['field', 'link']] = N('f1') if i == 0 else Z
            t[f, o['field', 'name']] = N('name%d' % i)
            t['name%d' % i, 0] = con(ord('a'), 8)
            t['F%d' % i, o['type', 'align']] = con(a2 if i else 1, 32)
            t['F%d' % i, o['type', 'size']] = s
            t[f, o['field', 'lsb']] = con(0, 16)
            t[f, o['field', 'bitsize']] = con(0, 16)
        R = running(r, C, 'fields', [N('ty')], 'a large %s, second member aligned %d' % (op.lower(), a2), types=t,
                    facts=[icmp(p, k, c) for k in (k1, k2)
                           for p, c in (('sge', O), ('slt', con(1 << 29, 32)))],
                    globals_=NODECL, rule='layout')
        for ctx, ev, val, where, st in R.paths():
            if any(e[0] == 'error' for e in ev):
                continue
            size = rd(R, st, N('ty'), o['type', 'size'], 32)
            if not known(ctx, icmp('sge', size, s2)) or not known(ctx, icmp('sge', size, s1)) or \
                    op == 'STRUCT' and not known(ctx, icmp('sge', sext(size, 64), add(
                        sext(s1, 64), sext(s2, 64)))):
                R.bad(where, 'the size %s has overflowed' % show(size))


# ---------------------------------------------------------------- initialisers
ITEMS = ('initvalue', 'initializer', 'initializer.rec', 'expr1')
INIT_OPAQUE = ('initvalue', 'initfields', 'initstruct', 'initarray', 'initchar', 'genconst')


class Toks:
    """the tokens ahead: a call that reads an item or gettok() leads to the next one"""

    def __init__(self, C, toks):
        self.C, self.toks = C, toks

    def code(self, x):
        return con(self.C.c[x] if len(x) > 1 else ord(x), 32)

    def at(self, st):
        return len([e for e in st.ev if e[0] == 'step'])

    def step(self, pol, eng, st, k=1):
        for _ in range(k):
            st.ev += (('step',),)
        i = self.at(st)
        v = self.code(self.toks[i]) if i < len(self.toks) else self.code('EOI')
        eng.mem_store(st, ('b', 'g', 't'), Z, 4, v)
        st.ev += (('store', ('b', 'g', 't'), Z, 4, v, ''),)
        return v

    def gettok(self, pol, eng, st, args):
        i = self.at(st) + 1
        st.ev += (('step',),)
        return self.code(self.toks[i]) if i < len(self.toks) else self.code('EOI')

    def item(self, result, k=1):
        """a call that reads up to a separator and returns result(number, ...)"""
        def f(pol, eng, st, args):
            n = len([e for e in st.ev if e[0] == 'item'])
            st.ev += (('item', tuple(args)),)
            self.step(pol, eng, st, k)
            return result(pol, eng, st, args, n)
        return f

    def globals(self):
        return {'t': self.code(self.toks[0])}


def items(n, trailing=False):
    """x , x , x }"""
    out = []
    for i in range(n):
        out += ['ICON', ',']
    if not trailing:
        out.pop()
    return out + ['}']


def consumed(st):
    return len([e for e in st.ev if e[0] == 'step'])


def initvalues(C, toks):
    o = C.o

    def f(pol, eng, st, args, n):
        x = 'value%d' % n
        pol.types[x, o['tree', 'u.v']] = sym('v%d' % n, 64)
        st.ctx.assume(icmp('ne', N(x), Z))
        return N(x)
    return toks.item(f)


def output(st, pol):
    """what a path writes: (bytes given by number, symbol) in order"""
    return [e for e in st.ev if e[0] == 'call' and e[1] in (
        'defconst', 'defstring', 'defaddress', 'space')]


def chars(r, C):
    """arrays of characters given one by one"""
    o = C.o

    def defstring(pol, eng, st, args):
        n, p = args
        b, off = eng.split_addr(p)
        if not is_con(n) or b is None:
            st.ev += (('bytes', None),)
        else:
            bs = tuple(eng.mem_load(st, b, addc(off, i), 1, ('i', 8)) for i in range(scval(n)))
            st.ev += (('bytes', bs),)
        return 'done'
    for n in list(range(1, 10)) + [12, 13, 17]:
        for ln in sorted({0, 1, 3, 4, 5, n}):
            for trailing in (0, 1):
                T = Toks(C, items(n, trailing))
                R = running(r, C, 'initchar', [con(ln, 32), N('ty')],
                            '%d characters for %s' % (n, ln or 'any number'),
                            types={('ty', o['type', 'size']): con(1, 32)}, globals_=T.globals(),
                            returns={'gettok': T.gettok, 'initvalue': initvalues(C, T),
                                     'defstring': defstring}, rule='initialiser')
                k = min(n, ln) if ln else n
                for ctx, ev, val, where, st in R.paths():
                    bs = []
                    for e in st.ev:
                        if e[0] == 'bytes':
                            bs += e[1] or (None,)
                    args = [e[1][0] for e in st.ev if e[0] == 'item']
                    want = [trunc(sym('v%d' % i, 64), 8) for i in range(k)]
                    if bs != want:
                        R.bad(where, 'writes %s' % ' '.join(show(b) if b else '?' for b in bs))
                    elif not eq(ctx, val, con(k, 32)):
                        R.bad(where, 'returns %s' % show(val))
                    elif any(a != N('ty') for a in args):
                        R.bad(where, 'of another type')
                    elif [e for e in st.ev if e[0] == 'call' and e[1] in ('defconst', 'space')]:
                        R.bad(where, 'writes something else')
                    else:
                        position(R, where, st, T, k, ln, n, trailing)


def position(R, where, st, T, k, ln, n, trailing):
    """where reading goes on after k of n items"""
    want = 2 * k - 1
    if k == n and trailing and not (ln and k >= ln):
        want += 1
    if consumed(st) != want:
        R.bad(where, 'goes on reading at the wrong place')


def arrays(r, C):
    o = C.o
    for size in (1, 2, 4, 12):
        for n in range(1, 5):
            for ln in (0, size, 2 * size, 4 * size):
                for trailing in (0, 1):
                    T = Toks(C, items(n, trailing))
                    f = T.item(lambda pol, eng, st, a, i: N('ty'))
                    R = running(r, C, 'initarray', [con(ln, 32), N('ty'), sym('lev', 32)],
                                '%d elements of %d bytes for %s' % (n, size, ln or 'any number'),
                                types={('ty', o['type', 'size']): con(size, 32)},
                                facts=[icmp('sgt', sym('lev', 32), O)],
                                globals_=T.globals(), returns={
                                    'gettok': T.gettok, 'initializer': f, 'initializer.rec': f},
                                rule='initialiser')
                    k = min(n, ln // size) if ln else n
                    for ctx, ev, val, where, st in R.paths():
                        it = [e[1] for e in st.ev if e[0] == 'item']
                        if len(it) != k or any(a[0] != N('ty') or not known(
                                ctx, icmp('sgt', a[1], O)) for a in it):
                            R.bad(where, 'initialises %d' % len(it))
                        elif not eq(ctx, val, con(k * size, 32)):
                            R.bad(where, 'returns %s' % show(val))
                        elif output(st, R.pol):
                            R.bad(where, 'writes something else')
                        else:
                            position(R, where, st, T, k, ln // size, n, trailing)


def initfieldss(r, C):
    """bit fields of a unit: the bytes up to the last bit"""
    cases = []
    for w in range(1, 33):
        for right in sorted({0, 1, (32 - w) // 2, 32 - w}):
            if right + w <= 32:
                cases.append([(w, right)])
    for a, b, c in ((3, 5, 8), (1, 31, None), (8, 8, 16), (4, 12, 1), (16, 16, None), (7, 9, 16),
                    (5, 20, 7), (1, 1, 1), (31, 1, None)):
        fs = [(a, 0), (b, a)] + ([(c, a + b)] if c else [])
        cases.append(fs)
    cases += [[(3, 0), (4, 10), (2, 30)], [(1, 31)], [(2, 5), (3, 9)]]
    n = 0
    for fs in cases:
        for uns in (0, 1):
            for given in range(1, len(fs) + 1):
                for last in (0, 1):
                    initfield(r, C, fs, uns, given, last)
                    n += 1
    return n


def initfield(r, C, fs, uns, given, last):
    o = C.o
    ty = 'unsignedtype' if uns else 'inttype'
    t = {}
    for i, (w, right) in enumerate(fs):
        f = 'f%d' % i
        t[f, o['field', 'type']] = N(ty)
        t[f, o['field', 'bitsize']] = con(w, 16)
        t[f, o['field', 'lsb']] = con(right + 1, 16)
        t[f, o['field', 'link']] = N('f%d' % (i + 1)) if i + 1 < len(fs) else (
            Z if last else N('q'))
    # more items than fields if all are given
    T = Toks(C, items(given if given < len(fs) else given + 1))
    R = running(r, C, 'initfields', [N('f0'), Z if last else N('q')], 'bit fields %s' % ', '.join(
        '%d at %d' % f for f in fs[:given]), types=t, globals_=T.globals(), live=('q',),
        facts=[icmp('ne', N('q'), N('f%d' % i)) for i in range(len(fs))],
        returns={'gettok': T.gettok, 'initvalue': initvalues(C, T)}, rule='initialiser')
    want = [0] * 32
    top = 0
    for i, (w, right) in enumerate(fs[:given]):
        for j in range(w):
            want[right + j] = (('s', 'v%d' % i, 64), j)
        top = max(top, right + w)
    nb = (top + 7) // 8
    for ctx, ev, val, where, st in R.paths():
        out = output(st, R.pol)
        got = []
        for e in out:
            s, size, v = e[2][:3] if len(e[2]) >= 3 else (None, None, None)
            if e[1] != 'defconst' or not is_con(s) or cval(s) != R.C.c['U'] or not is_con(size):
                R.bad(where, 'is written with ' + e[1])
                break
            got += (bitvec(v) or [None] * 64)[:8 * cval(size)]
        else:
            if got != want[:8 * nb]:
                R.bad(where, 'the bits written are %s' % ' '.join(
                    str(b) if b in (0, 1, None) else '%s.%d' % (b[0][1], b[1]) for b in got))
            elif not eq(ctx, val, con(nb, 32)):
                R.bad(where, 'returns %s' % show(val))
            elif consumed(st) != 2 * given - 1:
                R.bad(where, 'goes on reading at the wrong place')


def structs(r, C):
    """each member is initialised where it is"""
    o = C.o
    # members (size, align, offset) or bit fields ('b', offset); size and alignment of the struct
    S = [([(4, 4, 0), (4, 4, 4)], 8, 4), ([(1, 1, 0), (4, 4, 4), (2, 2, 8)], 12, 4),
         ([(1, 1, 0), (1, 1, 1), (2, 2, 2), (1, 1, 4)], 8, 4), ([(3, 1, 0), (2, 2, 4)], 8, 4),
         ([('b', 0), ('b', 0), (4, 4, 4)], 8, 4), ([('b', 0), (1, 1, 1), ('b', 4)], 8, 4),
         ([(1, 1, 0), ('b', 4), ('b', 4), ('b', 8), (2, 2, 12)], 16, 4),
         ([('b', 4), (1, 1, 8)], 12, 4), ([(6, 2, 0), (1, 1, 6)], 8, 4), ([(5, 1, 0)], 8, 4),
         ([('b', 0)], 4, 4), ([(1, 1, 0), (8, 4, 4), (8, 4, 12)], 20, 4),
         ([(12, 4, 0), ('b', 12), ('b', 12)], 16, 4), ([(0, 1, 0), (4, 4, 0)], 4, 4)]
    n = 0
    for ms, size, align in S:
        groups = grouped(ms)
        if any(m[0] == 0 for m in ms):
            continue
        for k in range(1, len(groups) + 1):
            for ln in (0, size):
                for trailing in (0, 1):
                    struct(r, C, ms, groups, size, align, k, ln, trailing)
                    n += 1
        struct(r, C, ms, groups, size, align, len(groups), size, 0, more=True)
    # unions: the first member only
    for ms in ([(4, 4, 0), (1, 1, 0)], [('b', 0), (1, 1, 0)], [('b', 0), ('b', 0)],
               [(1, 1, 0), (4, 4, 0)], [(2, 2, 0), (8, 4, 0)], [('b', 0), (8, 4, 0)]):
        size = max(4 if m[0] == 'b' else m[0] for m in ms)
        for more in (False, True):
            struct(r, C, ms, [[0]], size, 4, 1, 4 if ms[0][0] == 'b' else ms[0][0], 0, more,
                   'UNION')
            n += 1
    return n


def grouped(ms):
    out = []
    for i, m in enumerate(ms):
        if out and m[0] == 'b' and ms[i - 1] == m:
            out[-1].append(i)
        else:
            out.append([i])
    return out


def struct(r, C, ms, groups, size, align, k, ln, trailing, more=False, op='STRUCT'):
    o = C.o
    t = {('ty', o['type', 'u.sym']): N('tysym'), ('tysym', o['symbol', 'u.s.flist']): N('f0'),
         ('ty', o['type', 'op']): con(C.c[op], 32), ('ty', o['type', 'size']): con(size, 32),
         ('ty', o['type', 'align']): con(align, 32)}
    for i, m in enumerate(ms):
        f = 'f%d' % i
        bit = m[0] == 'b'
        t[f, o['field', 'type']] = N('T%d' % i)
        t['T%d' % i, o['type', 'size']] = con(4 if bit else m[0], 32)
        t['T%d' % i, o['type', 'align']] = con(4 if bit else m[1], 32)
        t[f, o['field', 'bitsize']] = con(3 if bit else 0, 16)
        t[f, o['field', 'lsb']] = con(1 + 3 * i if bit else 0, 16)
        t[f, o['field', 'offset']] = con(m[1] if bit else m[2], 32)
        t[f, o['field', 'link']] = N('f%d' % (i + 1)) if i + 1 < len(ms) else Z
    # a group of bit fields reads one item here
    full = k == len(groups)
    T = Toks(C, items(k + 1 if more else k, trailing))
    pos = {}

    def member(pol, eng, st, args, n):
        pos.setdefault(n, len(st.ev))
        return N('T%d' % groups[n][0]) if n < len(groups) else N('?')

    def some(pol, eng, st, args, n):
        if n < len(groups):
            return con(bytes_of(n), 32)
        return con(1, 32)

    def bytes_of(n):
        # bits used so far
        return len(groups[n])
    R = running(r, C, 'initstruct', [con(ln, 32), N('ty'), sym('lev', 32)],
                '%s of %s, %d given, %s' % (op.lower(), ms, k + more, ln or 'any number'),
                types=t, globals_=T.globals(), facts=[icmp('sgt', sym('lev', 32), O)],
                returns={'gettok': T.gettok, 'initfields': T.item(some),
                         'initializer': T.item(member), 'initializer.rec': T.item(member)},
                rule='initialiser')
    for ctx, ev, val, where, st in R.paths():
        try:
            at, i = 0, 0
            for e in st.ev:
                if e[0] != 'call':
                    continue
                if e[1] == 'space':
                    if not is_con(e[2][0]) or scval(e[2][0]) < 0:
                        raise No('skips %s' % show(e[2][0]))
                    at += scval(e[2][0])
                elif e[1] in ('initializer', 'initializer.rec', 'initfields'):
                    if i >= k:
                        raise No('initialises more members than there are values')
                    g = groups[i]
                    m = ms[g[0]]
                    if at != (m[1] if m[0] == 'b' else m[2]):
                        raise No('member %d is written at %d' % (g[0] + 1, at))
                    if m[0] == 'b':
                        q = 'f%d' % (g[-1] + 1)
                        if e[1] != 'initfields' or e[2][0] != N('f%d' % g[0]) or \
                                e[2][1] != (N(q) if g[-1] + 1 < len(ms) else Z):
                            raise No('bit fields %s' % ', '.join(show(x) for x in e[2]))
                        at += bytes_of(i)
                    else:
                        if e[1] == 'initfields' or e[2][0] != N('T%d' % g[0]) or \
                                not known(ctx, icmp('sgt', e[2][1], O)):
                            raise No('member %d is initialised as %s' % (
                                g[0] + 1, show(e[2][0])))
                        at += m[0]
                    i += 1
                elif e[1] in ('defconst', 'defstring', 'defaddress'):
                    raise No('writes something else')
            if i != k:
                raise No('%d members are initialised' % i)
            if not eq(ctx, val, con(at, 32)):
                raise No('returns %s after %d bytes' % (show(val), at))
            if at > size:
                raise No('%d bytes are written' % at)
            want = 2 * k - 1
            done = op == 'UNION' or ln and full
            if not done and trailing:
                want += 1
            if consumed(st) != want and not (done and trailing and consumed(st) == want + 1
                                             and False):
                raise No('goes on reading at the wrong place')
        except No as e:
            R.bad(where, str(e))


def constants(r, C):
    """what is written for a constant expression"""
    o = C.o
    K = C.c
    v, s = sym('v', 64), sym('tsize', 32)
    for op, suf, top in (('ADDRG', 'P', 'POINTER'), ('CNST', 'I', 'INT'), ('CNST', 'U', 'UNSIGNED'),
                         ('CNST', 'F', 'FLOAT'), ('CNST', 'P', 'POINTER'), ('CNST', 'P', 'ARRAY'),
                         ('ADD', 'I', 'INT'), ('INDIR', 'I', 'INT'), ('ADDRL', 'P', 'POINTER'),
                         ('CALL', 'I', 'INT'), ('SUB', 'P', 'POINTER')):
        for wrap in ((), ('CVI',), ('CVU',), ('CVF',), ('CVP', 'arith'), ('CVP', 'ptr'),
                     ('RIGHT', 0), ('RIGHT', 1), ('RIGHT', 2)):
            for d in (0, 1):
                t = {}
                names = ['e'] + (['w'] if wrap else [])
                tree(C, t, 'e', op, suf, s, 2)
                t['Te', o['type', 'op']] = con(K[top], 32)
                t['e', o['tree', 'u.sym']] = N('sym') if op[:4] == 'ADDR' else v
                if op == 'CNST':
                    t['e', o['tree', 'u.v']] = v
                # the one made of a constant with an address
                tree(C, t, 'cv', 'ADDRG', 'P', 4, 0)
                t['cv', o['tree', 'u.sym']] = N('cvsym')
                # in place of what is no constant
                if wrap:
                    tree(C, t, 'w', wrap[0] if wrap[0] != 'RIGHT' else 'RIGHT', 'I', 4, 0)
                    t['Tw', o['type', 'op']] = con(K['POINTER' if wrap[-1] == 'ptr' else 'INT'], 32)
                    k = wrap[1] if wrap[0] == 'RIGHT' else 0
                    t['w', o['tree', 'kids']] = N('e') if k in (0, 2) else Z
                    t['w', o['tree', 'kids'] + 8] = N('e') if k == 1 else N('e2') if k == 2 else Z
                    if k == 2:
                        tree(C, t, 'e2', op, suf, s, 2, ty='Te')
                        t['e2', o['tree', 'u.sym']] = t['e', o['tree', 'u.sym']]
                R = running(r, C, 'genconst', [N(names[-1]), con(d, 32)],
                            'the constant %s%s of type %s%s' % (
                                op, suf, top, ' in %s' % wrap[0] if wrap else ''), types=t,
                            facts=[icmp('sgt', s, O)], rule='initialiser',
                            returns={'cvtconst': lambda pol, eng, st, a: N('cv'),
                                     'consttree': zero, 'genconst.rec': None})
                ok = op == 'ADDRG' or op == 'CNST'
                fault = not ok or wrap[:2] == ('RIGHT', 2) or wrap == ('CVP', 'arith')
                for ctx, ev, val, where, st in R.paths():
                    err = any(e[0] == 'error' for e in ev)
                    out = [e for e in ev if e[0] in (
                        'defconst', 'defaddress', 'defstring', 'space')]
                    rec = [e for e in ev if e[0] == 'genconst']
                    if err != fault:
                        R.bad(where, 'is %sdiagnosed' % ('' if err else 'not '))
                    elif not ok:
                        # an int's worth of anything
                        if not rec and len(out) != d:
                            R.bad(where, 'nothing is written for it')
                    elif not d:
                        if out:
                            R.bad(where, 'is written where it is only looked at')
                    elif op == 'ADDRG' or top == 'ARRAY':
                        x = N('cvsym') if top == 'ARRAY' else N('sym')
                        if [(e[0], e[1]) for e in out] != [('defaddress', (x,))]:
                            R.bad(where, 'is not written as address')
                    elif [(e[0], e[1][:3]) for e in out] != [
                            ('defconst', (con(K[top], 32), s, v))]:
                        R.bad(where, 'is written as %s' % (out[0][1],) if out else 'is missing')
                    want = con(4, 32) if top == 'ARRAY' else s
                    if ok and not eq(ctx, val, want):
                        R.bad(where, 'returns %s' % show(val))


def zero(pol, eng, st, args):
    return N('zero')


def calls_(st, names):
    return [(e[1].replace('.rec', ''),) + tuple(e[2]) for e in st.ev if e[0] == 'call' and
            e[1].replace('.rec', '') in names]


OUT = ('initializer', 'initarray', 'initchar', 'initstruct', 'genconst', 'space', 'defstring',
       'defconst', 'defaddress')


def ival(C, toks, t, ty, lev, what, r, types, want, n=None, returns=None, error=None, facts=(),
         result=None, left=None, live=()):
    """a run of initializer(): the calls that write must be `want`"""
    o = C.o
    T = Toks(C, toks)
    ret = {'gettok': T.gettok, 'expr1': T.item(lambda p, e, s, a, i: N('e')),
           'pointer': lambda p, e, s, a: N('pe') if a[0] == N('e') else N('??'),
           'assign': lambda p, e, s, a: N('aty') if a == [N(ty), N('pe')] or
           tuple(a) == (N(ty), N('pe')) else Z,
           'cast': lambda p, e, s, a: N('ce') if tuple(a) == (N('pe'), N('aty')) else N('?c'),
           'array': lambda p, e, s, a: N('array(%s,%s)' % (show(a[0]), show(a[1])))}

    def reads(v, k=1):
        return T.item(lambda p, e, s, a, i: v, k)
    for f in ('initarray', 'initchar', 'initstruct'):
        ret[f] = reads(sym('n', 32))
    ret['genconst'] = lambda p, e, s, a: sym('n', 32)
    ret['initializer.rec'] = reads(N('inner'))
    ret.update(returns or {})
    ret.update({k + '.rec': v for k, v in list(ret.items()) if not k.endswith('.rec')})
    facts = list(facts) + [icmp('slt', sym('lev', 32), con(100, 32))]
    R = running(r, C, 'initializer', [N(ty), lev], what, types=dict(types), globals_=T.globals(),
                returns=ret, facts=facts, rule='initialiser', live=live)
    for ctx, ev, val, where, st in R.paths():
        try:
            errs = [literal(C.mod, e[2][0]) or '' for e in st.ev
                    if e[0] == 'call' and e[1] == 'error']
            many = [x for x in errs if 'too many' in x]
            other = [x for x in errs if x not in many]
            if bool(other) != bool(error):
                raise No('is %sdiagnosed' % ('' if other else 'not '))
            got = calls_(st, OUT)
            w = list(want)
            if n is not None:
                size = types[ty, o['type', 'size']]
                fill = [c for c in got if c[0] == 'space']
                got = [c for c in got if c[0] != 'space']
                if size != O:
                    rest = sub(size, n)
                    if many:
                        if not known(ctx, icmp('sgt', n, size)):
                            raise No('as many values as fit are called too many')
                    elif not known(ctx, icmp('sle', n, size)):
                        raise No('too many values are not diagnosed')
                    if known(ctx, icmp('slt', n, size)):
                        if len(fill) != 1 or not eq(ctx, fill[0][1], rest):
                            raise No('the rest is not filled with zeros')
                    elif fill and not eq(ctx, n, size) and not many:
                        raise No('too much is filled')
                    elif fill and not eq(ctx, fill[0][1], O):
                        raise No('more than the object is filled')
                elif fill:
                    raise No('an object without size is filled')
            if len(got) != len(w) or any(
                    a[0] != b[0] or any(not same(ctx, x, y) for x, y in zip(a[1:], b[1:]))
                    for a, b in zip(w, got)):
                raise No('writes %s' % (', '.join('%s(%s)' % (c[0], ', '.join(
                    show(x) if x else '?' for x in c[1:])) for c in got) or 'nothing'))
            if result is not None:
                result(ctx, R, st, val)
            elif not eq(ctx, val, N(ty)):
                raise No('the type is %s' % show(val))
            want_left = len(toks) if left is None else left
            if consumed(st) != want_left:
                raise No('goes on reading at the wrong place')
            closed = [e for e in st.ev if e[0] == 'call' and e[1] in ('test', 'expect')]
            if len(closed) != (toks[0] == '{' and want_left > 0) or any(
                    e[2][0] != con(ord('}'), 32) for e in closed):
                raise No('%s the closing brace' % ('reads' if closed else 'does not read'))
        except No as e:
            R.bad(where, str(e))


def same(ctx, w, g):
    if w is None:
        return True
    if callable(w):
        return w(ctx, g)
    return eq(ctx, g, w)


def positive(ctx, g):
    return known(ctx, icmp('sgt', g, O))


def initializers(r, C):
    o = C.o
    K = C.c
    lev = sym('lev', 32)
    inner = [icmp('sgt', lev, O)]
    # the routine that closes braces is part of it: test() is a call
    for top in ('INT', 'UNSIGNED', 'FLOAT', 'POINTER', 'ENUM'):
        for brace in (0, 1):
            t = {('ty', o['type', 'op']): con(K[top], 32), ('ty', o['type', 'size']): con(4, 32)}
            for L, f in ((O, []), (lev, inner)):
                # genconst writes as much as the type is large: the cast has the type
                ival(C, (['{'] if brace else []) + ['ICON', '}'], 'ICON', 'ty', L,
                     'a value for %s%s' % (top, ' in braces' if brace else ''), r, t,
                     [('genconst', N('ce'), con(1, 32))], n=sym('n', 32), left=1 + brace,
                     facts=f + [icmp('eq', sym('n', 32), con(4, 32))],
                     live=('aty', 'e', 'pe', 'ce'))
    n = 0
    for size in (0, 1, 2, 4, 8, 12):
        S = con(size, 32)
        for L, f in ((O, []), (lev, inner)):
            nested = bool(f)
            w = 'inside' if nested else 'outside'
            # arrays
            for et, es, ischar in (('INT', 4, 0), ('INT', 1, 1), ('UNSIGNED', 1, 1),
                                   ('POINTER', 4, 0), ('STRUCT', 12, 0), ('INT', 2, 0),
                                   ('ARRAY', 4, 0)):
                if size % es:
                    continue
                t = {('ty', o['type', 'op']): con(K['ARRAY'], 32), ('ty', o['type', 'size']): S,
                     ('ty', o['type', 'type']): N('el'), ('el', o['type', 'op']): con(K[et], 32),
                     ('el', o['type', 'size']): con(es, 32),
                     ('ty', o['type', 'align']): con(es, 32)}
                fn = 'initchar' if ischar else 'initarray'
                nn = scale(sym('m', 32), es)
                ff = f + [icmp('sge', sym('m', 32), con(1, 32)),
                          icmp('sle', sym('m', 32), con(1 << 20, 32)),
                          icmp('ne', N('el'), N('widechar'))]
                low = [] if ischar else [positive]
                ret = lambda T: {fn: T}
                back = arrayof(size, 'el', sym('m', 32)) if not size else None

                def run(toks, want, error=False, ty=t, left=None):
                    ival(C, toks, None, 'ty', L, 'an array of %s%d of %d bytes %s, %s' % (
                        et, es, size, w, ' '.join(toks)), r, ty, want, n=nn, facts=ff,
                        error=error, result=back, left=left,
                        returns={fn: Toks.item(TT(C, toks), lambda p, e, s, a, i: nn)},
                        live=('el',))
                run(['{', 'ICON', '}'], [(fn, O, N('el'))  + tuple(low)], left=2)
                if nested and size:
                    run(['ICON', '}'], [(fn, S, N('el')) + tuple(low)], left=1)
                else:
                    run(['ICON', '}'], [(fn, None, N('el')) + tuple(low)], error=True, left=1)
                n += 2
            n += records(r, C, size, L, f)
    n += strings(r, C, lev, inner)
    return n


def TT(C, toks):
    return Toks(C, toks)


def arrayof(size, el, m):
    def f(ctx, R, st, val):
        a = [e for e in st.ev if e[0] == 'call' and e[1] == 'array']
        if len(a) != 1 or a[0][2][0] != N(el) or not eq(ctx, a[0][2][1], m) or a[0][3] != val:
            raise No('its number of elements is %s' % (show(a[0][2][1]) if a else 'not set'))
    return f


def records(r, C, size, L, f):
    """structs and unions"""
    o = C.o
    K = C.c
    n = 0
    for op in ('STRUCT', 'UNION'):
        t = {('ty', o['type', 'op']): con(K[op], 32), ('ty', o['type', 'size']): con(size, 32),
             ('ty', o['type', 'u.sym']): N('tysym'), ('tysym', o['symbol', 'u.s.flist']): N('f0'),
             ('f0', o['field', 'type']): N('T0'), ('T0', o['type', 'size']): con(2, 32),
             ('ty', o['type', 'align']): con(4, 32)}
        what = 'a %s of %d bytes, ' % (op.lower(), size)
        nn = sym('n', 32)
        ff = f + [icmp('sge', nn, con(1, 32)), icmp('sle', nn, con(1 << 20, 32))]
        if not size:
            ival(C, ['{', 'ICON', '}'], None, 'ty', L, what + 'incomplete', r, t, [],
                 facts=ff, error=True, left=0)
            continue
        first = con(2, 32)
        ival(C, ['{', 'ICON', '}'], None, 'ty', L, what + 'in braces', r, t,
             [('initstruct', first if op == 'UNION' else O, N('ty'), positive)], n=nn, facts=ff,
             left=2)
        ival(C, ['ICON', '}'], None, 'ty', L, what + 'without braces', r, t,
             [('initstruct', (first if op == 'UNION' else con(size, 32)) if f else None, N('ty'),
               positive)], n=nn, facts=ff, error=not f, left=1)
        n += 2
    return n


def strings(r, C, lev, inner):
    """arrays of characters initialised with strings"""
    o = C.o
    K = C.c
    n = 0
    for slen in (1, 2, 4, 8):                # with the 0 at the end
        for size in (0, 1, 2, 3, 4, 7, 8, 9, 12):
            for brace in (0, 1):
                for L, f in ((O, []), (lev, inner)):
                    t = {('ty', o['type', 'op']): con(K['ARRAY'], 32),
                         ('ty', o['type', 'size']): con(size, 32),
                         ('ty', o['type', 'type']): N('el'),
                         ('el', o['type', 'op']): con(K['INT'], 32),
                         ('el', o['type', 'size']): con(1, 32),
                         ('tsym', o['symbol', 'type']): N('stype'),
                         ('stype', o['type', 'size']): con(slen, 32),
                         ('tsym', o['symbol', 'u.c.v']): N('text')}
                    what = 'an array of %d characters with a string of %d%s' % (
                        size, slen, ' in braces' if brace else '')
                    if brace:
                        ival(C, ['{', 'SCON', '}'], None, 'ty', L, what, r, t,
                             [('initializer', N('ty'), positive)], left=2, facts=f,
                             result=lambda ctx, R, st, val: expectno(ctx, val, N('inner')))
                        continue
                    cut = size == slen - 1 and size
                    k = size if cut else slen

                    def arr(p, e, s, a, k=k):
                        x = 'array(%s)' % show(a[1])
                        p.types[x, o['type', 'size']] = a[1]
                        s.ctx.assume(icmp('ne', N(x), Z))
                        return N(x)
                    res = arrayof(0, 'el', con(slen, 32)) if not size else None
                    # too many are diagnosed
                    ival(C, ['SCON', '}'], None, 'ty', L, what, r, t,
                         [('defstring', con(k, 32), N('text'))], n=con(k, 32), left=1, facts=f,
                         returns={'array': arr}, result=res)
                    n += 2
    # strings of wide characters: every character by itself
    for slen in (1, 2, 4):
        for size in (0, 1, 2, 3, 4, 5):
            for brace in (0, 1):
                for L, f in ((O, []), (lev, inner)):
                    t = {('ty', o['type', 'op']): con(K['ARRAY'], 32),
                         ('ty', o['type', 'size']): con(2 * size, 32),
                         ('ty', o['type', 'type']): N('widechar'),
                         ('tsym', o['symbol', 'type']): N('stype'),
                         ('stype', o['type', 'size']): con(2 * slen, 32),
                         ('tsym', o['symbol', 'u.c.v']): N('text')}
                    t.update({('text', 4 * i): sym('c%d' % i, 32) for i in range(slen)})
                    what = 'an array of %d wide characters with a string of %d%s' % (
                        size, slen, ' in braces' if brace else '')
                    if brace:
                        ival(C, ['{', 'SCON', '}'], None, 'ty', L, what, r, t,
                             [('initializer', N('ty'), positive)], left=2, facts=f,
                             result=lambda ctx, R, st, val: expectno(ctx, val, N('inner')))
                        continue
                    k = size if size == slen - 1 and size else slen

                    def arr(p, e, s, a):
                        x = 'array(%s)' % show(a[1])
                        p.types[x, o['type', 'size']] = scale(a[1], 2)
                        s.ctx.assume(icmp('ne', N(x), Z))
                        return N(x)
                    # (the upper half of the value is not written)
                    ival(C, ['SCON', '}'], None, 'ty', L, what, r, t,
                         [('defconst', con(K['UNSIGNED'], 32), con(2, 32),
                           lambda ctx, g, i=i: eq(ctx, trunc(g, 32), sym('c%d' % i, 32)))
                          for i in range(k)], n=con(2 * k, 32), left=1, facts=f,
                         returns={'array': arr},
                         result=arrayof(0, 'widechar', con(slen, 32)) if not size else None)
                    n += 1
    return n


def expectno(ctx, got, want):
    if not eq(ctx, got, want):
        raise No('returns %s' % show(got))


def initvals(r, C):
    """a constant of the type"""
    o = C.o
    for okay in (0, 1):
        for cn in (0, 1):
            t = {('ce', o['tree', 'op']): con(C.c['CNST' if cn else 'ADDRG'] + C.c['I'] + (
                4 << 10), 32), ('nul', o['tree', 'op']): con(C.c['CNST'] + C.c['I'] + (4 << 10), 32)}
            zeros = lambda p, e, s, a: N('nul') if tuple(a[:2]) == (N('zero'), N('ty')) else None
            R = running(r, C, 'initvalue', [N('ty')], 'the value of a character or bit field',
                        types=t, rule='initialiser', globals_={'needconst': sym('needconst', 32)},
                        live=('aty', 'e'), returns={
                            'expr1': lambda p, e, s, a: N('e'),
                            'assign': lambda p, e, s, a: N('aty') if okay and tuple(a) == (
                                N('ty'), N('e')) else Z,
                            'cast': lambda p, e, s, a: N('ce') if tuple(a) == (
                                N('e'), N('aty')) else None,
                            'consttree': zero, 'retype': zeros})
            good = okay and cn
            for ctx, ev, val, where, st in R.paths():
                err = any(e[0] == 'error' for e in ev)
                if err == bool(good):
                    R.bad(where, 'is %sdiagnosed' % ('' if err else 'not '))
                elif good and val != N('ce') or not good and val != N('nul'):
                    R.bad(where, 'is %s' % show(val))
                elif glob(R, st, 'needconst', 32) != sym('needconst', 32):
                    R.bad(where, 'needconst is left changed')
    for null in (0, 1):
        t = {('p', o['symbol', 'ref']): sym('ref', 32), ('voidptype', o['type', 'size']): con(4, 32)}
        R = running(r, C, 'defpointer', [Z if null else N('p')], 'a pointer',
                    types=None if null else t, rule='initialiser')
        for ctx, ev, val, where, st in R.paths():
            got = [(e[0],) + tuple(e[1]) for e in ev]
            if null:
                if len(got) != 1 or got[0][:3] != ('defconst', con(C.c['P'], 32), con(4, 32)):
                    R.bad(where, 'a null pointer is written as %s' % str(got))
            elif got != [('defaddress', N('p'))]:
                R.bad(where, 'is not written as address')



def inits(r):
    C = unit('init.c', INIT_OPAQUE)
    chars(r, C)
    arrays(r, C)
    n = initfieldss(r, C)
    n += structs(r, C)
    constants(r, C)
    n += initializers(r, C)
    initvals(r, C)
    return n


# ---------------------------------------------------------------- types
METRICS = [('charmetric', 1, 1), ('shortmetric', 2, 2), ('intmetric', 4, 4), ('longmetric', 4, 4),
           ('longlongmetric', 4, 4), ('floatmetric', 4, 4), ('doublemetric', 4, 4),
           ('longdoublemetric', 4, 4), ('ptrmetric', 4, 4), ('structmetric', 0, 4)]
BASIC = [('chartype', 'INT', 'charmetric'), ('doubletype', 'FLOAT', 'doublemetric'),
         ('floattype', 'FLOAT', 'floatmetric'), ('inttype', 'INT', 'intmetric'),
         ('longdouble', 'FLOAT', 'longdoublemetric'), ('longtype', 'INT', 'longmetric'),
         ('longlong', 'INT', 'longlongmetric'), ('shorttype', 'INT', 'shortmetric'),
         ('signedchar', 'INT', 'charmetric'), ('unsignedchar', 'UNSIGNED', 'charmetric'),
         ('unsignedlong', 'UNSIGNED', 'longmetric'), ('unsignedshort', 'UNSIGNED', 'shortmetric'),
         ('unsignedtype', 'UNSIGNED', 'intmetric'),
         ('unsignedlonglong', 'UNSIGNED', 'longlongmetric')]


def basics(r):
    """sizes and alignments are those of the machine, and types have them"""
    C = unit('types.c', TYPE_OPAQUE)
    o, K = C.o, C.c
    import checks_back
    B = checks_back.back()
    f = 'lcc/src/bytecode.c:1'
    for (name, size, align), got in zip(METRICS, B.metrics):
        r.obligations += 1
        if got[:2] != [size, align]:
            r.add([Finding('types', f, '%s: size and alignment %s, the machine has %s' % (
                name, got[:2], [size, align]), ())], 'bytecodeIR')
    r.obligations += 2
    bit = B.flags if isinstance(B.flags, int) else 0
    off = C.bits['interface', 'little_endian'] % 8
    if not bit >> off & 1:
        r.add([Finding('types', f, 'bit fields are laid out for a big endian machine: values of '
                       'initialisers and members behind a bit field share its bits', ())],
              'bytecodeIR')
    if len(B.metrics) != len(METRICS):
        r.add([Finding('types', f, 'metrics of %d kinds of types' % len(B.metrics), ())],
              'bytecodeIR')
    t = {}
    for name, size, align in METRICS:
        for k, v in ((0, size), (1, align), (2, 0)):
            t['IR', o['interface', name] + k] = con(v, 8)
    t['IR', C.bits['interface', 'little_endian'] // 8] = con(bit, 8)

    def maketype(pol, eng, st, a):
        x = 'type(%s,%s,%s,%s,%s)' % tuple(show(v) for v in a)
        for k, v in zip(('op', 'type', 'size', 'align', 'u.sym'), a):
            pol.types[x, o['type', k]] = v
        st.ctx.assume(icmp('ne', N(x), Z))
        return N(x)

    def install(pol, eng, st, a):
        v = pol.fresh(eng, 'sym')
        st.ctx.assume(icmp('ne', v, Z))
        return v
    R = running(r, C, 'type_init', [O, N('argv')], 'the basic types', types=t, returns={
        'type': maketype, 'install': install}, globals_={'type_init.inited': O, **{
            n: Z for n in ('unsignedptr', 'signedptr')}}, rule='types')
    m = {n: (s, a) for n, s, a in METRICS}
    for ctx, ev, val, where, st in R.paths():
        try:
            for name, op, metric in BASIC:
                T = glob(R, st, name)
                size, align = m[metric]
                for k, v in (('op', K[op]), ('size', size), ('align', align)):
                    x = rd(R, st, T, o['type', k], 32)
                    if not eq(ctx, x, con(v, 32)):
                        raise No('%s: %s is %s instead of %d' % (name, k, show(x), v))
                S = rd(R, st, T, o['type', 'u.sym'])
                if rd(R, st, S, o['symbol', 'type']) != T:
                    raise No('%s: its symbol has another type' % name)
                hi, lo = {'INT': ((1 << 8 * size - 1) - 1, -(1 << 8 * size - 1)),
                          'UNSIGNED': ((1 << 8 * size) - 1, 0)}.get(op, (None, None))
                if hi is not None:
                    for k, v in (('max', hi), ('min', lo)):
                        x = rd(R, st, S, o['symbol', 'u.limits.%s.i' % k])
                        if not eq(ctx, x, con(v, 64)):
                            raise No('%s: limit %s' % (name, show(x)))
            v = glob(R, st, 'voidtype')
            if not eq(ctx, rd(R, st, v, o['type', 'op'], 32), con(K['VOID'], 32)) or \
                    not eq(ctx, rd(R, st, v, o['type', 'size'], 32), O):
                raise No('void has a size')
            calls = {e[3]: (e[1],) + tuple(e[2]) for e in st.ev if e[0] == 'call'}
            for n, of in (('voidptype', 'voidtype'), ('charptype', 'chartype')):
                if calls.get(glob(R, st, n)) != ('ptr', glob(R, st, of)):
                    raise No(n)
            if glob(R, st, 'widechar') != glob(R, st, 'unsignedshort'):
                raise No('wchar_t')
        except No as e:
            R.bad(where, str(e))
    return len(BASIC)


TYPE_OPAQUE = ('type', 'ptr', 'func', 'array', 'qual', 'promote', 'variadic', 'compose')
SIMPLE = ('INT', 'UNSIGNED', 'FLOAT', 'ENUM', 'STRUCT', 'UNION', 'VOID')
DERIVED = ('POINTER', 'CONST', 'VOLATILE', 'CONST+VOLATILE', 'ARRAY', 'FUNCTION')


def topcode(C, n):
    return con(sum(C.c[x] for x in n.split('+')), 32)


def typetree(C, t, name, op, to=None, size=None):
    o = C.o
    t[name, o['type', 'op']] = topcode(C, op)
    t[name, o['type', 'type']] = N(to) if to else Z
    if size is not None:
        t[name, o['type', 'size']] = con(size, 32)
    t[name, o['type', 'align']] = sym(name + '.align', 32)
    return t


def intern(r):
    """types that are equal are the same object"""
    C = unit('types.c', TYPE_OPAQUE)
    o = C.o
    ents = C.mod.struct_fields('entry') or ()
    link = [b // 8 for n, b, w in ents if n == 'link']
    if not link:
        raise Anchor('struct entry')
    link = link[0]
    args = [sym('op', 32), N('of'), sym('size', 32), sym('align', 32), N('usym')]
    F = [('op', 32), ('type', 64), ('size', 32), ('align', 32), ('u.sym', 64)]
    for n in range(0, 4):
        t = {}
        for i in range(n):
            e = 'e%d' % i
            for k, w in F:
                t[e, o['type', k]] = sym('%s.%s' % (e, k), w)
            t[e, link] = N('e%d' % (i + 1)) if i + 1 < n else Z
        C2 = con(C.c['FUNCTION'], 32)
        R = running(r, C, 'type', args, 'a type in a chain of %d' % n, types=t, rule='types',
                    tables={'typetable': N('e0') if n else Z},
                    facts=[icmp('ne', N('e%d' % i), N('e%d' % j))
                           for i in range(n) for j in range(i)])
        for ctx, ev, val, where, st in R.paths():
            try:
                fun = icmp('eq', args[0], C2)
                unsized = (icmp('eq', args[0], con(C.c['ARRAY'], 32)), icmp('sle', args[2], O))
                one = known(ctx, fun) or all(known(ctx, x) for x in unsized)
                new = single(val) and single(val)[1].startswith('mem')
                for (k, w), a in zip(F, args):
                    if not eq(ctx, rd(R, st, val, o['type', k], w), a):
                        raise No('%s is %s' % (k, show(rd(R, st, val, o['type', k], w))))
                if not new:
                    if not known(ctx, neg(fun)):
                        raise No('a type of functions is shared')
                    if not any(val == N('e%d' % i) for i in range(n)):
                        raise No('returns ' + show(val))
                    continue
                if not one:
                    for i in range(n):
                        e = 'e%d' % i
                        if not any(known(ctx, icmp('ne', sym('%s.%s' % (e, k), w), a))
                                   for (k, w), a in zip(F, args)):
                            raise No('a second type is made though there is one')
                if rd(R, st, val, link) != (N('e0') if n else Z):
                    raise No('the types made before are lost')
                w = [e for e in st.ev if e[0] == 'store' and e[1] == ('b', 'g', 'typetable')]
                if len(w) != 1 or w[0][4] != val:
                    raise No('is not entered in the table')
            except No as x:
                R.bad(where, str(x))


def equal(r):
    """compatible types, by induction over their structure"""
    C = unit('types.c', TYPE_OPAQUE)
    o, K = C.o, C.c
    n = 0
    ret = sym('ret', 32)
    for a in SIMPLE + DERIVED:
        for b in SIMPLE + DERIVED:
            if a in ('VOID',) and b == a:
                continue
            for rec in (0, 1):
                sizes = [(4, 4)] if a != 'ARRAY' or b != a else [
                    (4, 4), (8, 4), (0, 4), (4, 0), (0, 0)]
                if a in SIMPLE and rec or a == b == 'FUNCTION':
                    continue
                for s1, s2 in sizes:
                    t = {}
                    typetree(C, t, 'a', a, 'a1', s1)
                    typetree(C, t, 'b', b, 'b1', s2)
                    R = running(r, C, 'eqtype', [N('a'), N('b'), ret],
                                'are %s and %s compatible' % (a, b), types=t, rule='types',
                                facts=[icmp('ne', N('a'), N('b'))], returns={
                                    'eqtype.rec': lambda p, e, s, x, rec=rec: con(rec, 32)})
                    if a != b or a in SIMPLE:
                        want = O
                    elif a == 'ARRAY' and s1 != s2:
                        want = (ret if not s1 or not s2 else O) if rec else O
                    else:
                        want = con(rec, 32)
                    for ctx, ev, val, where, st in R.paths():
                        c = [e[1] for e in ev if e[0] == 'eqtype']
                        if not (eq(ctx, val, want)):
                            R.bad(where, 'answers %s instead of %s' % (show(val), show(want)))
                        elif any(x[:2] not in ((N('a1'), N('b1')), (N('b1'), N('a1'))) or
                                 not known(ctx, icmp('ne', x[2], O)) for x in c) or \
                                a == b and a in DERIVED and not c:
                            R.bad(where, 'compares other types')
                    n += 1
    t = typetree(C, {}, 'a', 'POINTER', 'a1', 4)
    R = running(r, C, 'eqtype', [N('a'), N('a'), ret], 'is a type compatible with itself',
                types=t, rule='types')
    for ctx, ev, val, where, st in R.paths():
        if not known(ctx, icmp('ne', val, O)):
            R.bad(where, 'answers ' + show(val))
    # functions: parameters pairwise
    for p1 in (None, 0, 1, 2):
        for p2 in (None, 0, 1, 2):
            for res in (0, 1):
                for differ in (None, 0, 1):
                    for var in ((0, 1) if (p1 is None) != (p2 is None) else (0,)):
                        for narrow in ((None, 0, 1) if (p1 is None) != (p2 is None) else (None,)):
                            n += function(r, C, p1, p2, res, differ, var, narrow)
    return n


def function(r, C, p1, p2, res, differ, var, narrow):
    o = C.o
    t = {}
    ret = sym('ret', 32)
    proto = o['type', 'u.f.proto']
    for x, p in (('a', p1), ('b', p2)):
        typetree(C, t, x, 'FUNCTION', x + '1')
        t[x, proto] = Z if p is None else N(x + 'P')
        for i in range(p or 0):
            t[x + 'P', 8 * i] = N('%sp%d' % (x, i))
            typetree(C, t, '%sp%d' % (x, i), 'INT', None, 4)
        if p is not None:
            t[x + 'P', 8 * p] = Z

    def rec(pol, eng, st, a):
        if a[0] == N('a1') or a[0] == N('b1'):
            return con(res, 32)
        m = single(a[0])[1], single(a[1])[1]
        if m[0][1:] != m[1][1:] or {m[0][0], m[1][0]} != {'a', 'b'}:
            return sym('other', 32)
        return con(0 if m[0] in ('ap%s' % differ, 'bp%s' % differ) else 1, 32)

    def promote(pol, eng, st, a):
        return N('wide') if narrow is not None and single(a[0])[1][2:] == str(narrow) else a[0]
    R = running(r, C, 'eqtype', [N('a'), N('b'), ret], 'functions of %s and %s parameters' % (
        p1, p2), types=t, rule='types', live=('aP', 'bP'),
        facts=[icmp('ne', N('a'), N('b')), icmp('ne', N('aP'), N('bP'))] + [
            icmp('ne', N('wide'), N('%sp%d' % (x, i))) for x, p in (('a', p1), ('b', p2))
            for i in range(p or 0)],
        returns={'eqtype.rec': rec, 'promote': promote,
                 'variadic': lambda p, e, s, a: con(var, 32)})
    if p1 is None and p2 is None:
        want = res
    elif p1 is not None and p2 is not None:
        want = res and p1 == p2 and not (differ is not None and differ < p1)
    else:
        k = p1 if p1 is not None else p2
        want = res and not var and not (narrow is not None and narrow < k)
    for ctx, ev, val, where, st in R.paths():
        if not eq(ctx, val, con(1 if want else 0, 32)):
            R.bad(where, 'answers %s' % show(val))
        v = [e[1][0] for e in ev if e[0] == 'variadic']
        if v and any(x != (N('a') if p1 is not None else N('b')) for x in v):
            R.bad(where, 'looks at the wrong parameters')
    return 1


def making(r):
    """pointers, arrays, qualified types, composite types"""
    C = unit('types.c', TYPE_OPAQUE)
    o, K = C.o, C.c
    ret = {k: named(k) for k in ('type', 'ptr', 'func', 'array', 'qual', 'compose',
                                 'compose.rec', 'qual.rec', 'array.rec')}
    t = {('IR', o['interface', 'ptrmetric']): con(4, 8),
         ('IR', o['interface', 'ptrmetric'] + 1): con(4, 8)}
    R = running(r, C, 'ptr', [N('a')], 'a pointer', types=t, rule='types', returns=ret,
                globals_={'pointersym': N('pointersym')})
    for ctx, ev, val, where, st in R.paths():
        if val != N('type(%s,a,4,4,pointersym)' % show(con(K['POINTER'], 32))):
            R.bad(where, 'is %s' % show(val))
    cnt, al = sym('n', 32), sym('align', 32)
    for op in SIMPLE + DERIVED:
        for size in (0, 1, 4, 12):
            t = typetree(C, {}, 'a', op, 'a1', size)
            typetree(C, t, 'a1', 'INT', None, 4)
            R = running(r, C, 'array', [N('a'), cnt, al], 'an array of %s of %d bytes' % (op, size),
                        types=t, rule='types', returns=ret, globals_={'voidtype': N('a')
                                                                      if op == 'VOID' else N('v')},
                        facts=[icmp('sge', cnt, O)] + (
                            [icmp('ne', N(x), N('v')) for x in ('a', 'a1')] if op != 'VOID' else []))
            bad = op == 'FUNCTION' or op == 'ARRAY' and not size or op == 'VOID' and not size or \
                op in ('CONST', 'VOLATILE', 'CONST+VOLATILE') and False
            for ctx, ev, val, where, st in R.paths():
                err = any(e[0] == 'error' for e in ev)
                if bad:
                    if not err:
                        R.bad(where, 'is not diagnosed')
                    continue
                x = R.pol.terms.get(single(val)) if single(val) else None
                over = con(((1 << 31) - 1) // size + 1 if size else 0, 32)
                if err:
                    if not size or not known(ctx, icmp('sge', cnt, over)):
                        R.bad(where, 'is diagnosed')
                    continue
                if not x or x[0] != 'type' or x[1][0] != con(K['ARRAY'], 32) or \
                        x[1][1] != N('a') or not eq(ctx, x[1][2], scale(cnt, size)) or \
                        x[1][4] != Z:
                    R.bad(where, 'is %s' % show(val))
                elif size > 1 and not known(ctx, icmp('slt', cnt, over)):
                    R.bad(where, 'a size above INT_MAX is not diagnosed')
                elif not eq(ctx, x[1][3], al if known(ctx, icmp('ne', al, O)) else
                            sym('a.align', 32)):
                    R.bad(where, 'is aligned %s' % show(x[1][3]))
    for op in SIMPLE + DERIVED:
        for q in ('CONST', 'VOLATILE'):
            t = typetree(C, {}, 'a', op, 'a1', 8)
            typetree(C, t, 'a1', 'INT', None, 8)
            t['a1', o['type', 'align']] = sym('a.align', 32)
            R = running(r, C, 'qual', [con(K[q], 32), N('a')], '%s %s' % (q.lower(), op), types=t,
                        rule='types', returns=ret)
            bad = q in op.split('+')
            for ctx, ev, val, where, st in R.paths():
                err = any(e[0] in ('error', 'warning') for e in ev)
                both = topcode(C, 'CONST+VOLATILE')
                want = {'ARRAY': 'type(%s,qual(%s,a1),8,a.align,0)' % (
                            show(con(K['ARRAY'], 32)), show(con(K[q], 32))),
                        'FUNCTION': 'a',
                        'CONST': 'type(%s,a1,8,a.align,0)' % show(both),
                        'VOLATILE': 'type(%s,a1,8,a.align,0)' % show(both)}.get(
                            op, 'type(%s,a,8,a.align,0)' % show(con(K[q], 32)))
                if bad:
                    want = 'a'
                if val != N(want) or err != (bad or op == 'FUNCTION'):
                    R.bad(where, 'is %s' % show(val))
    composite(r, C, ret)
    # what nodes and trees are typed with
    for op in SIMPLE + DERIVED:
        t = typetree(C, {}, 'a', op, 'a1', 2)
        t['funcptype', o['type', 'size']] = con(4, 32)
        R = running(r, C, 'ttob', [N('a')], 'the operator type of %s' % op, types=t, rule='types',
                    globals_={'funcptype': N('funcptype')},
                    returns={'ttob.rec': lambda p, e, s, a: sym('ttob(%s)' % show(a[0]), 32)})
        want = {'ENUM': con(K['I'] + (4 << 10), 32), 'POINTER': con(K['P'] + (4 << 10), 32),
                'FUNCTION': con(K['P'] + (4 << 10), 32), 'STRUCT': con(K['B'], 32),
                'UNION': con(K['B'], 32), 'ARRAY': con(K['B'], 32)}.get(op)
        if want is None:
            want = sym('ttob(a1)', 32) if op in DERIVED else con(
                K[{'VOID': 'V', 'INT': 'I', 'UNSIGNED': 'U', 'FLOAT': 'F'}[op]] + (2 << 10), 32)
        for ctx, ev, val, where, st in R.paths():
            if not eq(ctx, val, want):
                R.bad(where, 'is %s' % show(val))


def named(n):
    """a result that stands for the call"""
    def f(pol, eng, st, args):
        a = tuple(args)
        x = sym('%s(%s)' % (n.replace('.rec', ''), ','.join(show(v) for v in a)), 64)
        pol.terms[single(x)] = (n.replace('.rec', ''), a)
        st.ctx.assume(icmp('ne', x, Z))
        return x
    return f


def composite(r, C, ret):
    o, K = C.o, C.c
    for op in DERIVED:
        if op == 'FUNCTION':
            continue
        for s1, s2 in ((8, 8), (0, 8), (8, 0), (0, 0)) if op == 'ARRAY' else ((4, 4),):
            t = {}
            typetree(C, t, 'a', op, 'a1', s1)
            typetree(C, t, 'b', op, 'b1', s2)
            for x in ('a1', 'b1'):
                t[x, o['type', 'size']] = con(4, 32)
            R = running(r, C, 'compose', [N('a'), N('b')], 'composite type of %s, %s' % (
                (op,) * 2) + (' of %d and %d bytes' % (s1, s2) if op == 'ARRAY' else ''),
                types=t, rule='types', returns=ret, facts=[icmp('ne', N('a'), N('b'))])
            c = 'compose(a1,b1)'
            want = {'POINTER': 'ptr(%s)' % c,
                    'CONST+VOLATILE': 'qual(%s,qual(%s,%s))' % (
                        show(con(K['CONST'], 32)), show(con(K['VOLATILE'], 32)), c)}.get(
                op, 'qual(%s,%s)' % (show(topcode(C, op)), c))
            for ctx, ev, val, where, st in R.paths():
                if op == 'ARRAY':
                    f = R.pol.terms.get(single(val))
                    n = 2 if s1 or s2 else 0
                    if not f or f[0] != 'array' or f[1][0] != N(c) or \
                            not eq(ctx, f[1][1], con(n, 32)):
                        R.bad(where, 'is %s' % show(val))
                elif val != N(want):
                    R.bad(where, 'is %s' % show(val))
    # functions: a prototype is kept
    proto = o['type', 'u.f.proto']
    for p1 in (0, 1):
        for p2 in (0, 1):
            if p1 and p2:
                continue
            t = {}
            for x, p in (('a', p1), ('b', p2)):
                typetree(C, t, x, 'FUNCTION', x + '1')
                t[x, proto] = N(x + 'P') if p else Z
            R = running(r, C, 'compose', [N('a'), N('b')], 'composite type of functions', types=t,
                        rule='types', returns=ret, facts=[icmp('ne', N('a'), N('b'))],
                        live=('aP', 'bP'))
            for ctx, ev, val, where, st in R.paths():
                f = R.pol.terms.get(single(val))
                if not f or f[0] != 'func' or f[1][0] != N('compose(a1,b1)') or \
                        f[1][1] != (N('aP') if p1 else N('bP') if p2 else Z):
                    R.bad(where, 'is %s' % show(val))


# ---------------------------------------------------------------- definitions
DECL_OPAQUE = ('dclr', 'specifier', 'fields', 'structdcl', 'parameters', 'dclparam', 'oldparam',
               'exitparams', 'compound', 'funcdefn')
WRITES = ('segment', 'swtoseg', 'export', 'import', 'global', 'space', 'initializer', 'defconst',
          'defstring', 'defaddress', 'defsymbol', 'append', 'walk', 'foreach')


def definitions(r):
    """what is written for every object that is declared, and where"""
    C = unit('decl.c', DECL_OPAQUE)
    o, K = C.o, C.c
    S = o['symbol', 'sclass']
    db, on = C.flag('symbol', 'defined', True)
    n = 0

    def obj(top, size, el=None, const=None, sclass='STATIC', defined=0, sc='GLOBAL'):
        """types of a symbol p of that type: arrays of el, const or not"""
        t = {('p', o['symbol', 'type']): N('T'), ('p', o['symbol', 'sclass']): con(K[sclass], 32),
             ('p', o['symbol', 'scope']): con(K[sc], 32),
             ('p', o['symbol', 'name']): N('pname'),
             ('p', db): con(on if defined else 0, 8)}
        chain = [top] + (list(el) if el else [])
        for i, x in enumerate(chain):
            nm = 'T' + '1' * i
            typetree(C, t, nm, x, nm + '1', size if not i else 4)
        if chain[-1] in ('CONST', 'VOLATILE', 'CONST+VOLATILE'):
            nm = 'T' + '1' * len(chain)
            typetree(C, t, nm, 'INT', None, 4)
        return t

    def wrote(R, st, names=WRITES):
        return [(e[1],) + tuple(e[2]) for e in st.ev if e[0] == 'call' and e[1] in names]

    def defn(seg, sclass):
        out = [('swtoseg', con(K[seg], 32))]
        if sclass != 'STATIC':
            out.append(('export', N('p')))
        return out + [('global', N('p'))]

    def flagged(R, st):
        """is the symbol marked defined, by the last store to its flags"""
        v = R.final(st, N('p'), db)
        return v is not None and known(st.ctx, icmp('ne', and_(v, con(on, v[1])), con(0, v[1])))

    def judge(R, want, seg=None, defined=None, extra=None, order=True, error=False):
        for ctx, ev, val, where, st in R.paths():
            try:
                got = wrote(R, st)
                err = any(e[0] == 'error' for e in ev)
                if err != error:
                    raise No('is %sdiagnosed' % ('' if err else 'not '))
                if want is not None and not same_calls(ctx, want, got, order):
                    raise No('does %s' % (', '.join('%s(%s)' % (
                        g[0], ', '.join(show(x) for x in g[1:])) for g in got) or 'nothing'))
                if seg and not eq(ctx, R.final(st, N('p'), o['symbol', 'u.seg']) or O,
                                  con(K[seg], 32)):
                    raise No('is noted in another segment')
                if defined is not None and flagged(R, st) != defined:
                    raise No('is %s as defined' % ('marked' if not defined else 'not marked'))
                if extra:
                    extra(ctx, ev, val, st, R)
            except No as e:
                R.bad(where, str(e))

    # the segment changes when another is current
    I = unit('init.c', INIT_OPAQUE)
    for now, seg in (('CODE', 'CODE'), ('CODE', 'LIT'), ('LIT', 'DATA'), ('DATA', 'DATA'),
                     ('BSS', 'CODE')):
        R = running(r, I, 'swtoseg', [con(K[seg], 32)], 'to %s from %s' % (seg, now),
                    globals_={'curseg': con(K[now], 32)}, rule='objects')
        for ctx, ev, val, where, st in R.paths():
            got = wrote(R, st)
            if got != ([] if now == seg else [('segment', con(K[seg], 32))]) or \
                    not eq(ctx, glob(R, st, 'curseg', 32), con(K[seg], 32)):
                R.bad(where, 'leaves another segment')
    for sclass in ('STATIC', 'EXTERN', 'AUTO'):
        for seg in ('CODE', 'LIT', 'DATA', 'BSS'):
            R = running(r, C, 'defglobal', [N('p'), con(K[seg], 32)], 'a %s object in %s' % (
                sclass.lower(), seg), types=obj('INT', 4, sclass=sclass), rule='objects')
            judge(R, defn(seg, sclass), seg, True)
            n += 1
    # initialised objects
    for sclass in ('STATIC', 'EXTERN', 'AUTO'):
        for chain, const in ((('INT',), 0), (('CONST',), 1), (('CONST+VOLATILE',), 1),
                             (('VOLATILE',), 0), (('POINTER', 'CONST'), 0), (('STRUCT',), 0),
                             (('ARRAY', 'INT'), 0), (('ARRAY', 'CONST'), 1),
                             (('ARRAY', 'ARRAY', 'CONST'), 1), (('ARRAY', 'POINTER', 'CONST'), 0),
                             (('ARRAY', 'ARRAY', 'INT'), 0)):
            for size in ((4, 0) if chain[0] == 'ARRAY' else (4,)):
                for flag in (0, 1):
                    for tok in ('=', ';'):
                        T = Toks(C, [tok, 'ICON'])
                        R = running(r, C, 'initglobal', [N('p'), con(flag, 32)],
                                    '%s object of type %s%s%s' % (
                                        sclass.lower(), ' of '.join(chain).lower(),
                                        ' of unknown size' if not size else '',
                                        ', initialised' if tok == '=' else
                                        ', initialised by the compiler' if flag else ''),
                                    types=obj(chain[0], size, chain[1:], const, sclass),
                                    globals_=T.globals(), rule='objects', live=('newty',),
                                    returns={'gettok': T.gettok,
                                             'initializer': lambda p, e, s, a: N('newty')})
                        seg = 'LIT' if const and sclass == 'STATIC' else 'DATA'
                        want = defn(seg, sclass) + [('initializer', N('T'), O)] \
                            if tok == '=' or flag else []

                        def extra(ctx, ev, val, st, R, want=want, size=size, chain=chain, tok=tok):
                            if consumed(st) != (1 if tok == '=' else 0):
                                raise No('reads the wrong tokens')
                            ty = R.final(st, N('p'), o['symbol', 'type'])
                            if want and chain[0] == 'ARRAY' and not size:
                                if ty != N('newty'):
                                    raise No('keeps an unknown size')
                            elif ty not in (None, N('T')):
                                raise No('gets another type')
                            sc = R.final(st, N('p'), S)
                            if want and sclass == 'EXTERN':
                                if sc is None or not eq(ctx, sc, con(K['AUTO'], 32)):
                                    raise No('stays extern')
                            elif sc is not None and not eq(ctx, sc, con(K[sclass], 32)):
                                raise No('gets another storage class')
                        judge(R, want, seg if want else None, bool(want) or None, extra)
                        n += 1
    # at the end of the file
    for sclass in ('STATIC', 'EXTERN', 'AUTO', 'TYPEDEF', 'ENUM'):
        for top, size, elsize in (('INT', 4, 0), ('STRUCT', 12, 0), ('ARRAY', 8, 4),
                                  ('ARRAY', 0, 4), ('ARRAY', 0, 0), ('STRUCT', 0, 0),
                                  ('FUNCTION', 0, 0), ('POINTER', 4, 0)):
            for d in (0, 1):
                t = obj(top, size, ('INT',), 0, sclass, d)
                t['T1', o['type', 'size']] = con(elsize, 32)
                t['one', o['type', 'size']] = con(elsize, 32)
                t['one', o['type', 'op']] = con(K['ARRAY'], 32)
                t['one', o['type', 'type']] = N('T1')
                R = running(r, C, 'doglobal', [N('p'), Z], '%s%s %s of %d bytes at the end' % (
                    'defined ' if d else '', sclass.lower(), top.lower(), size), types=t,
                    rule='objects', globals_={'Pflag': O, 'glevel': O},
                    returns={'array': lambda p, e, s, a: N('one') if a[0] == N('T1') and
                             tuple(a[1:]) == (con(1, 32), O) else N('other'),
                             'printdecl': None})
                want, seg, err = [], None, False
                isf = top == 'FUNCTION'
                if not d and (sclass == 'EXTERN' or isf and sclass == 'AUTO'):
                    want = [('import', N('p'))]
                elif not d and not isf and sclass in ('AUTO', 'STATIC'):
                    whole = elsize if top == 'ARRAY' and not size else size
                    if whole:
                        want = defn('BSS', sclass) + [('space', con(whole, 32))]
                        seg = 'BSS'
                    else:
                        err = True
                judge(R, want, seg, True if seg else None, None, error=err)
                n += 1
    R = running(r, C, 'doextern', [N('p'), Z], 'an extern object of a block', rule='objects')
    judge(R, [('import', N('p'))])
    names = ('externals', 'identifiers', 'constants')
    R = running(r, C, 'finalize', [], 'the end of a file', rule='objects',
                globals_={x: N(x) for x in names})
    for ctx, ev, val, where, st in R.paths():
        got = [(e[2][0], e[2][1], e[2][2]) for e in st.ev if e[0] == 'call' and e[1] == 'foreach']
        got = [(show(a), show(b), show(c).lstrip('&')) for a, b, c in got]
        for a, b, c in (('externals', 'GLOBAL', 'doextern'), ('identifiers', 'GLOBAL', 'doglobal'),
                        ('constants', 'CONSTANTS', 'doconst')):
            if (a, show(con(K[b], 32)), c) not in got:
                R.bad(where, 'no %s of %s: %s' % (c, a, got))
    # constants that have got a place
    for top, el, size in (('INT', None, 4), ('FLOAT', None, 4), ('POINTER', None, 4),
                          ('UNSIGNED', None, 2), ('ARRAY', 'chartype', 6), ('ARRAY', 'widechar', 6),
                          ('ARRAY', 'widechar', 2)):
        for loc in (0, 1):
            t = {('p', o['symbol', 'type']): N('T'), ('p', o['symbol', 'u.c.loc']):
                 N('loc') if loc else Z, ('p', o['symbol', 'u.c.v']): N('bytes') if el else
                 sym('v', 64), ('loc', o['symbol', 'u.seg']): O,
                 ('loc', S): con(K['STATIC'], 32)}
            typetree(C, t, 'T', top, el, size)
            for i in range(size // 2 if el == 'widechar' else 0):
                t['bytes', 4 * i] = sym('c%d' % i, 32)
            R = running(r, C, 'doconst', [N('p'), Z], 'a constant %s%s of %d bytes' % (
                top.lower(), ' of ' + el if el else '', size), types=t, rule='objects',
                facts=[icmp('ne', N('chartype'), N('widechar'))])
            want = [('swtoseg', con(K['LIT'], 32)), ('global', N('loc'))]
            if el == 'chartype':
                want += [('defstring', con(size, 32), N('bytes'))]
            elif el:
                want += [('defconst', con(K['UNSIGNED'], 32), con(2, 32), wide('c%d' % i))
                         for i in range(size // 2)]
            else:
                want += [('defconst', con(K[top], 32), con(size, 32), sym('v', 64))]

            def extra(ctx, ev, val, st, R, loc=loc):
                v = R.final(st, N('p'), o['symbol', 'u.c.loc'])
                if loc and v != Z:
                    raise No('would be written twice')
            judge(R, want if loc else [], None, None, extra)
            n += 1
    n += blocks(r, C, obj, defn, judge, flagged)
    n += globals_(r, C, obj, defn, judge)
    return n


def wide(n):
    return lambda x: x == zext(sym(n, 32), 64) or x == sym(n, 64) or \
        (x[1] == 64 and trunc(x, 32) == sym(n, 32))


def same_calls(ctx, want, got, order=True):
    if len(want) != len(got):
        return False
    for w, g in zip(want, got):
        if w[0] != g[0]:
            return False
        for a, b in zip(w[1:], g[1:]):
            if a is None:
                continue
            if callable(a):
                if not a(b):
                    return False
            elif not (a == b or a[0] == 'l' and b[0] == 'l' and a[1] == b[1] and eq(ctx, a, b)):
                return False
    return True


def blocks(r, C, obj, defn, judge, flagged):
    """declarations within a function, and of globals"""
    o, K = C.o, C.c
    S = o['symbol', 'sclass']
    n = 0
    CH = {'INT': ('INT',), 'POINTER': ('POINTER', 'INT'), 'STRUCT': ('STRUCT',),
          'ARRAY': ('ARRAY', 'INT'), 'FUNCTION': ('FUNCTION', 'INT'), 'CONST': ('CONST',),
          'const array': ('ARRAY', 'CONST'), 'VOLATILE': ('VOLATILE',)}

    def fresh(t):
        """what install() makes"""
        for k in ('sclass', 'scope'):
            t['p', o['symbol', k]] = O
        t['p', o['symbol', 'name']] = N('id')
        return t

    def install(pol, eng, st, a):
        return N('q') if eq(st.ctx, a[2], con(K['GLOBAL'], 32)) else N('p')

    def qual(pol, eng, st, a):
        # const T
        x = 'const'
        if pol.types.get((single(a[1])[1], o['type', 'op'])) == con(K['ARRAY'], 32):
            typetree(C, pol.types, x, 'ARRAY', 'const1', 4)
            typetree(C, pol.types, x + '1', 'CONST', 'const11', 4)
            typetree(C, pol.types, x + '11', 'INT', None, 4)
            v = pol.types[single(a[1])[1], o['type', 'size']]
        else:
            typetree(C, pol.types, x, 'CONST', single(a[1])[1], 4)
            v = pol.types[single(a[1])[1], o['type', 'size']]
        pol.types[x, o['type', 'size']] = v
        st.ctx.assume(icmp('ne', N(x), Z))
        return N(x)

    def genident(pol, eng, st, a):
        pol.types['t1', S] = a[0]
        pol.types['t1', o['symbol', 'type']] = a[1]
        pol.types['t1', C.flag('symbol', 'defined', True)[0]] = con(0, 8)
        st.ctx.assume(icmp('ne', N('t1'), Z))
        return N('t1')
    pure = PURE + ('root', 'idtree', 'asgn')
    append = lambda p, e, s, a: N('append(%s,%s)' % (show(a[0]), show(a[1])))
    toks = {'': [';'], '=': ['=', 'ICON', ';'], '= {': ['=', '{', 'ICON', '}', ';']}
    for sclass in (None, 'AUTO', 'STATIC', 'REGISTER', 'EXTERN'):
        for kind in CH:
            for init in toks:
                for size, m in (((4, 12), (0, 12), (0, 4)) if kind in ('ARRAY', 'STRUCT') else
                                ((4, 12),)):
                    if m == 4 and not init:
                        continue
                    if kind == 'FUNCTION' and init or sclass == 'EXTERN' and init:
                        continue
                    chain = CH[kind]
                    t = fresh(obj(chain[0], size, chain[1:]))
                    if kind == 'FUNCTION':
                        t['T', o['type', 'size']] = O
                    if chain[0] in ('CONST', 'VOLATILE'):
                        t['T1', o['type', 'size']] = con(size, 32)
                    t['array', o['type', 'size']] = con(m, 32)
                    T = Toks(C, toks[init])
                    g = {'level': con(K['LOCAL'], 32), 'autos': N('autos'),
                         'registers': N('registers'), 'externals': N('externals'),
                         'identifiers': N('identifiers'), 'globals': N('globals')}
                    g.update(T.globals())
                    typetree(C, t, 'newty', 'ARRAY', 'const1', m)
                    typetree(C, t, 'const1', 'CONST', 'const11', 4)
                    typetree(C, t, 'array', 'ARRAY', 'T1', m)
                    for i in (0, 8):
                        t['pos', i] = sym('at%d' % i, 64)
                    R = running(r, C, 'dcllocal', [con(K[sclass] if sclass else 0, 32), N('id'),
                                                   N('T'), N('pos')],
                                '%s %s%s%s in a block' % (sclass.lower() if sclass else 'plain',
                                                          kind.lower(), ' of unknown size'
                                                          if not size else '', ' ' + init),
                                types=t, globals_=g, rule='objects', pure=pure,
                                live=('p', 'q', 'newty', 'array', 'e', 'id'), returns={
                                    'lookup': lambda p, e, s, a: Z, 'install': install,
                                    'qual': qual, 'genident': genident, 'gettok': T.gettok,
                                    'append': append, 'eqtype': lambda p, e, s, a: con(1, 32),
                                    'initializer': T.item(lambda p, e, s, a, i: N('newty'),
                                                          1 if init == '=' else 3),
                                    'array': lambda p, e, s, a, m=m: N('array') if
                                    tuple(a[:2]) == (N('T1'), con(m // 4, 32)) else
                                    N('other'),
                                    'expect': closing(T),
                                    'expr1': T.item(lambda p, e, s, a, i: N('e'))})
                    cls = sclass or ('EXTERN' if kind == 'FUNCTION' else 'AUTO')
                    err = kind == 'FUNCTION' and cls != 'EXTERN'
                    if err:
                        cls = 'EXTERN'
                    if cls == 'REGISTER' and kind in ('STRUCT', 'ARRAY', 'const array',
                                                      'VOLATILE'):
                        cls = 'AUTO'
                    isconst = kind in ('CONST', 'const array')
                    want = []
                    if cls == 'STATIC':
                        want = [('defsymbol', N('p'))]
                        if init:
                            want += defn('LIT' if isconst else 'DATA', 'STATIC') + [
                                ('initializer', N('T'), O)]
                        elif size:
                            want += defn('BSS', 'STATIC') + [('space', con(size, 32))]
                        else:
                            err = True
                    elif cls == 'EXTERN':
                        want = [('defsymbol', N('q'))]
                    else:
                        want = [('append', N('p'), N('autos' if cls == 'AUTO' else 'registers'))]
                    whole = cls == 'AUTO' and init and (kind in ('ARRAY', 'const array') or
                                                        kind == 'STRUCT' and init != '=')
                    if whole:
                        want += [('swtoseg', con(K['LIT'], 32)), ('global', N('t1')),
                                 ('initializer', None, O)]
                    if cls in ('AUTO', 'REGISTER') and init:
                        want.append(('walk', N('root(asgn(p,%s))' % (
                            'idtree(t1)' if whole else 'e')), O, O))
                    if cls in ('AUTO', 'REGISTER') and not size and not (
                            whole and kind == 'ARRAY'):
                        err = True
                    if cls == 'STATIC' and not size and init and kind == 'STRUCT':
                        err = True

                    def extra(ctx, ev, val, st, R, cls=cls, whole=whole, kind=kind, size=size,
                              init=init):
                        sc = R.final(st, N('p'), S)
                        if val != N('p') or not eq(ctx, sc or O, con(K[cls], 32)):
                            raise No('has another storage class')
                        ty = R.final(st, N('p'), o['symbol', 'type'])
                        grow = kind == 'ARRAY' and not size and init
                        w = N('array') if grow and whole else N('newty') if grow else N('T')
                        if ty != w:
                            raise No('has another type: ' + show(ty))
                        if cls == 'AUTO' and glob(R, st, 'autos') != N('append(p,autos)') or \
                                cls == 'REGISTER' and glob(R, st, 'registers') != \
                                N('append(p,registers)'):
                            raise No('is not in the list of variables')
                        if cls == 'EXTERN':
                            if R.final(st, N('p'), o['symbol', 'u.alias']) != N('q'):
                                raise No('is no name of the global')
                            if not eq(ctx, R.final(st, N('q'), S) or O, con(K['EXTERN'], 32)) or \
                                    R.final(st, N('q'), o['symbol', 'type']) != N('T'):
                                raise No('is no extern object of the type')
                        if consumed(st) != len(toks[init]) - 1:
                            raise No('reads the wrong tokens')
                        a = [e for e in st.ev if e[0] == 'call' and e[1] == 'install']
                        # what has a place in memory of its own is kept beyond the function
                        if cls in ('STATIC', 'EXTERN') and any(
                                not eq(ctx, e[2][3], con(K['PERM'], 32)) for e in a):
                            raise No('does not outlive the function')
                    judge(R, want, 'DATA' if cls == 'STATIC' and init and not isconst else None,
                          True if cls == 'STATIC' and not err or cls in ('AUTO', 'REGISTER')
                          else None, None if err else extra, error=err)
                    n += 1
    # a name declared extern stands for the object declared before
    for where_ in ('globals', 'externals'):
        for cls0 in ('EXTERN', 'STATIC', 'AUTO'):
            for agree in (0, 1):
                t = fresh(obj('INT', 4))
                t['q0', S] = con(K[cls0], 32)
                for i in (0, 8):
                    t['pos', i] = sym('at%d' % i, 64)
                T = Toks(C, [';'])
                g = {'level': con(K['LOCAL'], 32), 'externals': N('externals'),
                     'identifiers': N('identifiers'), 'globals': N('globals'), **T.globals()}
                R = running(r, C, 'dcllocal', [con(K['EXTERN'], 32), N('id'), N('T'), N('pos')],
                            'extern in a block, %s before, of %s type' % (
                                cls0.lower(), 'the same' if agree else 'another'), types=t,
                            globals_=g, rule='objects', live=('p', 'q', 'q0', 'id'), returns={
                                'lookup': lambda p, e, s, a, x=where_: N('q0')
                                if a[1] == N(x) else Z,
                                'install': install, 'gettok': T.gettok,
                                'eqtype': lambda p, e, s, a, x=agree: con(x, 32)})
                for ctx, ev, val, where, st in R.paths():
                    if R.final(st, N('p'), o['symbol', 'u.alias']) != N('q0') or val != N('p'):
                        R.bad(where, 'is no name of the object declared before')
                    elif any(e[0] == 'defsymbol' for e in ev) or len(
                            [e for e in ev if e[0] == 'install']) != 1:
                        R.bad(where, 'declares another object')
                n += 1
    return n


def closing(T):
    """expect(): passes a token that is there"""
    def f(pol, eng, st, a):
        i = T.at(st)
        if i < len(T.toks) and a[0] == T.code(T.toks[i]):
            T.step(pol, eng, st)
        return 'done'
    return f


def globals_(r, C, obj, defn, judge):
    """declarations of globals"""
    o, K = C.o, C.c
    S = o['symbol', 'sclass']
    db, on = C.flag('symbol', 'defined', True)
    n = 0
    pos = {('pos', i): sym('at%d' % i, 64) for i in (0, 8)}
    for sclass in (None, 'STATIC', 'EXTERN', 'REGISTER'):
        for chain in (('INT',), ('ARRAY', 'INT'), ('CONST',), ('FUNCTION', 'INT')):
            for size in (4, 0) if chain[0] == 'ARRAY' else (4,):
                for init in (0, 1):
                    for old in (None, 'block', 'AUTO', 'STATIC', 'EXTERN', 'TYPEDEF', 'other',
                                'defined'):
                        if chain[0] == 'FUNCTION' and (init or old == 'defined'):
                            continue
                        cls = sclass if sclass in ('STATIC', 'EXTERN') else 'AUTO'
                        was = {'other': 'AUTO', 'defined': 'AUTO'}.get(old, old)
                        t = obj(chain[0], size, chain[1:])
                        if chain[0] == 'FUNCTION':
                            t['T', o['type', 'size']] = O
                        t.update(pos)
                        t['p', S] = con(K[was], 32) if was and was != 'block' else \
                            con(K['EXTERN'], 32) if was else O
                        if old == 'defined':
                            t['p', db] = con(on, 8)
                        t['p', o['symbol', 'type']] = N('oldT')
                        typetree(C, t, 'oldT', chain[0], 'T1', 4)
                        typetree(C, t, 'comp', chain[0], 'T1', size)
                        if chain[0] == 'CONST':
                            t['T1', o['type', 'op']] = con(K['INT'], 32)
                        typetree(C, t, 'newty', 'ARRAY', 'T1', 12)
                        T = Toks(C, ['=', 'ICON', ';'] if init else [';'])
                        g = {'externals': N('externals'), 'glevel': O, 'Aflag': O,
                             'identifiers': N('identifiers'), 'globals': N('globals')}
                        g.update(T.globals())
                        known_ = old not in (None, 'block')
                        R = running(
                            r, C, 'dclglobal', [con(K[sclass] if sclass else 0, 32), N('id'),
                                                N('T'), N('pos')],
                            '%s %s%s%s%s' % (sclass.lower() if sclass else 'plain',
                                             ' of '.join(chain).lower(),
                                             ' of unknown size' if not size else '',
                                             ' with a value' if init else '',
                                             {None: '', 'block': ', known from a block',
                                              'other': ', declared with another type',
                                              'defined': ', with a value before'}.get(
                                                 old, ', declared %s before' % str(old).lower())),
                            types=t, globals_=g, rule='objects', live=('p', 'id', 'newty', 'comp'),
                            returns={
                                'lookup': lambda p, e, s, a, old=old, known_=known_:
                                (N('p') if known_ else Z) if a[1] == N('identifiers') else
                                N('p') if old == 'block' else Z,
                                'install': lambda p, e, s, a: N('p'),
                                'relocate': lambda p, e, s, a: N('p'),
                                'eqtype': lambda p, e, s, a, old=old: con(old != 'other', 32),
                                'compose': lambda p, e, s, a: N('comp') if
                                {a[0], a[1]} == {N('T'), N('oldT')} else N('??'),
                                'gettok': T.gettok,
                                'initializer': T.item(lambda p, e, s, a, i: N('newty'))})
                        err = sclass == 'REGISTER' or old in ('TYPEDEF', 'other') or \
                            init and old == 'defined' or \
                            not size and not init and \
                            (cls if not known_ or was == 'EXTERN' else was) == 'STATIC'
                        if err:
                            judge(R, None, error=True)
                            n += 1
                            continue
                        final = cls if not known_ or was == 'EXTERN' else was
                        ty = 'comp' if known_ else 'T'
                        want = [] if known_ or old == 'block' else [('defsymbol', N('p'))]
                        if init:
                            want += defn('LIT' if chain[0] == 'CONST' and final == 'STATIC' else
                                         'DATA', final) + [('initializer', N(ty), O)]
                            if final == 'EXTERN':
                                final = 'AUTO'

                        def extra(ctx, ev, val, st, R, ty=ty, final=final, init=init, size=size,
                                  t=t, chain=chain):
                            sc = R.final(st, N('p'), S)
                            if val != N('p') or not eq(ctx, sc or t['p', S], con(K[final], 32)):
                                raise No('has storage class %s' % show(sc or t['p', S]))
                            got = R.final(st, N('p'), o['symbol', 'type'])
                            if got != N('newty' if init and not size else ty):
                                raise No('has another type')
                            for e in st.ev:
                                if e[0] == 'call' and e[1] == 'install' and (
                                        not eq(ctx, e[2][2], con(K['GLOBAL'], 32)) or
                                        not eq(ctx, e[2][3], con(K['PERM'], 32))):
                                    raise No('is installed as something else')
                        judge(R, want, None, None, extra)
                        n += 1
    return n


def members(r):
    """declarations of members"""
    C = unit('decl.c', ('dclr', 'specifier'))
    o, K = C.o, C.c
    v = sym('v', 32)
    n = 0

    def one(what, toks, ids, tops, width=None, facts=(), want=None, error=False, name0=None):
        T = Toks(C, toks)
        t = {('ty', o['type', 'op']): con(K['STRUCT'], 32), ('ty', o['type', 'size']): O,
             ('ty', o['type', 'align']): O, ('ty', o['type', 'u.sym']): N('tysym'),
             ('tysym', o['symbol', 'u.s.flist']): Z, ('tysym', cb): con(0, 8),
             ('tysym', vb): con(0, 8)}
        for i, top in enumerate(tops):
            if top == 'int':
                t['f%d' % i, o['field', 'type']] = N('inttype')
                continue
            typetree(C, t, 'F%d' % i, top, 'unsignedtype' if top in QUALS else 'F%d1' % i,
                     0 if top == 'FUNCTION' else 4)
            typetree(C, t, 'F%d1' % i, 'INT', None, 4)
            t['f%d' % i, o['field', 'type']] = N('F%d' % i)

        def dclr(pol, eng, st, a):
            i = len([e for e in st.ev if e[0] == 'member'])
            b, off = eng.split_addr(a[1])
            eng.mem_store(st, b, off, 8, ids[min(i, len(ids) - 1)])
            if i >= len(ids):
                return N('other')
            return N('inttype') if tops[i] == 'int' else N('F%d' % i)

        def newfield(pol, eng, st, a):
            i = len([e for e in st.ev if e[0] == 'member'])
            st.ev += (('member', tuple(a)),)
            st.ctx.assume(icmp('ne', N('f%d' % i), Z))
            return N('f%d' % i)
        spec = T.item(lambda p, e, s, a, i: N('base'))
        g = dict(T.globals())
        kinds = {x: con(0, 8) for x in toks}
        kinds['CHAR'] = con(K['CHAR'], 8)
        R = running(r, C, 'fields', [N('ty')], what, types=t, rule='members', facts=facts,
                    live=[show(i) for i in ids if i != Z] + ['F%d' % i for i in range(len(tops))],
                    globals_={**g, **{('kind', cval(T.code(x))): y for x, y in kinds.items()},
                              'Aflag': O},
                    returns={'specifier': spec, 'specifier.rec': spec, 'dclr': dclr,
                             'dclr.rec': dclr, 'newfield': newfield, 'gettok': T.gettok,
                             'intexpr': T.item(lambda p, e, s, a, i: v),
                             'test': closing(T), 'stringd': lambda p, e, s, a: N('digits'),
                             'genlabel': lambda p, e, s, a: sym('lab', 32)})
        for ctx, ev, val, where, st in R.paths():
            try:
                err = any(e[0] == 'error' for e in ev)
                bad = error(ctx) if callable(error) else error
                if err != bad:
                    raise No('is %sdiagnosed' % ('' if err else 'not '))
                got = [e[1] for e in st.ev if e[0] == 'member']
                if len(got) != len(ids) or any(
                        g[0] != x or g[1] != N('ty') or g[2] != (
                            N('inttype') if top == 'int' else N('F%d' % i))
                        for i, (g, x, top) in enumerate(zip(got, ids, tops))):
                    raise No('declares other members')
                if consumed(st) != len(toks) - 1:
                    raise No('reads the wrong tokens')
                for q, off, on in (('CONST', cb, con_), ('VOLATILE', vb, von)):
                    has = any(q in x.split('+') for x in tops)
                    w = R.final(st, N('tysym'), off)
                    is_ = w is not None and known(ctx, icmp('ne', and_(w, con(on, w[1])),
                                                            con(0, w[1])))
                    if is_ != has:
                        raise No('is %snoted to have %s members' % ('not ' if has else '',
                                                                    q.lower()))
                if want and not err:
                    want(ctx, R, st)
            except No as e:
                R.bad(where, str(e))
    QUALS = ('CONST', 'VOLATILE', 'CONST+VOLATILE')
    cb, con_ = sflag(C, 'cfields')
    vb, von = sflag(C, 'vfields')
    for top in SIMPLE[:1] + ('POINTER', 'ARRAY', 'STRUCT', 'FUNCTION') + QUALS:
        for name in (N('n0'), Z):
            one('a member of type %s%s' % (top.lower(), '' if name != Z else ' without name'),
                ['CHAR', ';', '}'], [name], [top], error=name == Z or top == 'FUNCTION')
            n += 1
    for top in ('int', 'INT', 'FLOAT', 'POINTER', 'ENUM') + QUALS:
        for name in (N('n0'), Z):
            ok = top == 'int' or top in QUALS

            def want(ctx, R, st, name=name):
                w = R.final(st, N('f0'), o['field', 'bitsize'])
                l = R.final(st, N('f0'), o['field', 'lsb'])
                if w is None or not eq(ctx, sext(w, 32), v):
                    raise No('has %s bits' % (show(w) if w else 'no'))
                if l is None or not known(ctx, icmp('ne', l, con(0, 16))):
                    raise No('is no bit field')
                zero = known(ctx, icmp('eq', v, O))
                renamed = R.final(st, N('f0'), o['field', 'name'])
                if (renamed is not None) != (zero and name != Z) or \
                        renamed not in (None, N('digits')):
                    raise No('is named otherwise')

            def bad(ctx, ok=ok):
                return not ok or not (known(ctx, icmp('sge', v, O)) and
                                      known(ctx, icmp('sle', v, con(32, 32))))
            one('a bit field of type %s%s' % (top.lower(), '' if name != Z else ' without name'),
                ['CHAR', ':', 'ICON', ';', '}'], [name], [top], error=bad, want=want,
                facts=[icmp('ne', N('F0'), N(x)) for x in ('inttype', 'unsignedtype')])
            n += 1
    one('two members', ['CHAR', ',', ';', '}'], [N('n0'), N('n1')], ['INT', 'POINTER'])
    one('two declarations of members', ['CHAR', ';', 'CHAR', ';', '}'], [N('n0'), N('n1')],
        ['INT', 'CONST'])
    # the list of members
    C = unit('types.c', TYPE_OPAQUE)
    for k in (0, 1, 2, 3):
        for same in [None] + list(range(k)):
            t = {('ty', o['type', 'u.sym']): N('tysym'),
                 ('tysym', o['symbol', 'u.s.flist']): N('f0') if k else Z}
            for i in range(k):
                t['f%d' % i, o['field', 'link']] = N('f%d' % (i + 1)) if i + 1 < k else Z
                t['f%d' % i, o['field', 'name']] = N('id') if i == same else N('n%d' % i)
            for id_ in (N('id'), Z):
                if id_ == Z and same is not None:
                    continue
                R = running(r, C, 'newfield', [id_, N('ty'), N('fty')], 'member %d%s' % (
                    k + 1, ' named as member %d' % (same + 1) if same is not None else ''),
                    types=t, live=('id', 'digits') if id_ != Z else ('digits',), rule='members',
                    facts=[icmp('ne', N(x), N('n%d' % i)) for i in range(k)
                           for x in ('id', 'digits')], globals_={'xref': O},
                    returns={'stringd': lambda p, e, s, a: N('digits'),
                             'genlabel': lambda p, e, s, a: sym('lab', 32)})
                for ctx, ev, val, where, st in R.paths():
                    try:
                        err = any(e[0] == 'error' for e in ev)
                        if err != (same is not None):
                            raise No('is %sdiagnosed' % ('' if err else 'not '))
                        for f, w in (('name', id_ if id_ != Z else N('digits')),
                                     ('type', N('fty')), ('link', Z)):
                            if rd(R, st, val, o['field', f]) != w:
                                raise No('its %s is %s' % (f, show(rd(R, st, val,
                                                                      o['field', f]))))
                        x, got = rd(R, st, N('tysym'), o['symbol', 'u.s.flist']), []
                        while x != Z and len(got) < 6:
                            got.append(x)
                            x = rd(R, st, x, o['field', 'link'])
                        if got != [N('f%d' % i) for i in range(k)] + [val]:
                            raise No('is not at the end of the list')
                    except No as e:
                        R.bad(where, str(e))
                n += 1
    return n


def sflag(C, name):
    """byte and bit of a flag in the part of struct symbol that is for structs"""
    for k, raw in C.mod.meta_raw.items():
        if raw.startswith('!DICompositeType(') and 'DW_TAG_structure_type' in raw and \
                'elements' in raw:
            f = {n: b for n, b, w in C.mod._fields(C.mod.meta(k))}
            if name in f and 'flist' in f:
                b = 8 * C.o['symbol', 'u.s.flist'] - f['flist'] + f[name]
                return b // 8, 1 << b % 8
    raise Anchor('struct symbol: ' + name)


RULE = """objects and initialisers of rcc: on every path of the functions that place members (fields,
newfield), write initialisers (initializer and what it calls, genconst, initvalue), make types (type,
ptr, array, qual, compose, eqtype) and define objects (initglobal, defglobal, doglobal, doconst,
dcllocal, dclglobal, swtoseg), for every kind of type, position and token that follows: members are
aligned, disjoint (all of a union at 0) and inside the size, which is the smallest that is a multiple of
the alignment; every byte of an object is written once, by its own value, at its own offset and the
rest is zero; bit fields hold the bits of their values where the accesses to them look; every object is
defined once in the segment due, exported exactly if it is not static, and has its size; types are equal
and composite as C says"""


def C38(tier):
    r = Result()
    r.cover['layouts'] = layouts(r)
    r.cover['members'] = members(r)
    r.cover['initialisers'] = inits(r)
    basics(r)
    intern(r)
    r.cover['pairs of types'] = equal(r)
    making(r)
    r.cover['definitions'] = definitions(r)
    r.rule = RULE
    return r
