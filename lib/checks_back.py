"""C30: the bytecode back end of rcc."""
import lccback as B_
from lccback import *
from checks_asm import Finding
from report import Result

_C = None
SUF = ('F', 'I', 'U', 'P', 'V', 'B')
# generic operator: (suffixes, number of kids, operand)
NODES = {
    'CNST': ('IUFP', 0, 'name'), 'ADDRG': ('P', 0, 'name'), 'ADDRF': ('P', 0, 'name'),
    'ADDRL': ('P', 0, 'name'), 'LABEL': ('V', 0, 'name'),
    'ARG': ('IUFP', 1, None), 'INDIR': ('IUFPB', 1, None), 'NEG': ('IF', 1, None),
    'BCOM': ('IU', 1, None), 'RET': ('IUFPV', 1, None), 'JUMP': ('V', 1, None),
    'CALL': ('IUFPV', 1, None),
    'CVF': ('IF', 1, 'size'), 'CVI': ('IUF', 1, 'size'), 'CVU': ('IUP', 1, 'size'),
    'CVP': ('U', 1, 'size'),
    'ASGN': ('IUFPB', 2, None), 'ADD': ('IUFP', 2, None), 'SUB': ('IUFP', 2, None),
    'MUL': ('IUF', 2, None), 'DIV': ('IUF', 2, None), 'MOD': ('IU', 2, None),
    'LSH': ('IU', 2, None), 'RSH': ('IU', 2, None), 'BAND': ('IU', 2, None),
    'BOR': ('IU', 2, None), 'BXOR': ('IU', 2, None),
    'EQ': ('IUF', 2, 'name'), 'NE': ('IUF', 2, 'name'), 'LT': ('IUF', 2, 'name'),
    'LE': ('IUF', 2, 'name'), 'GT': ('IUF', 2, 'name'), 'GE': ('IUF', 2, 'name')}


def sizes(g, s):
    if s in 'VB':
        return (0,)
    if s in 'FP':
        return (4,)
    return (1, 2, 4) if g in ('CNST', 'INDIR', 'ASGN') or (g, s) in (('CVI', 'I'), ('CVU', 'U')) \
        else (4,)


class Back:
    def __init__(self):
        off = {'node': ('op', 'count', 'syms', 'kids', 'link'),
               'symbol': ('name', 'scope', 'sclass', 'type', 'u', 'u.c.v', 'x.name',
                          'x.offset'),
               'type': ('op', 'type', 'align', 'size', 'u.sym'),
               'interface': METHODS, 'coord': ('file', 'y'), 'env': ('offset',)}
        tag = {'coord': 'Coordinate', 'interface': 'Interface', 'env': 'Env'}
        ex = ['offsetof(%s, %s)' % (tag.get(k, 'struct ' + k), f) for k, v in off.items()
              for f in v]
        names = list(NODES) + list(SUF) + ['INT', 'UNSIGNED', 'FLOAT', 'POINTER'] + \
            ['CODE', 'DATA', 'BSS', 'LIT', 'CONSTANTS', 'LABELS', 'GLOBAL', 'PARAM', 'LOCAL',
             'STATIC', 'AUTO', 'EXTERN', 'REGISTER']
        c = consts(names + ex + ['sizeof (((struct node *)0)->count)'])
        self.c = {n: c[n] for n in names}
        self.o = {}
        for k, v in off.items():
            for f in v:
                self.o[k, f] = c['offsetof(%s, %s)' % (tag.get(k, 'struct ' + k), f)]
        self.unit = Unit(SRC)
        self.mod = self.unit.mod
        self.bits = {n: b for n, b, w in self.mod.struct_fields('symbol') or ()}
        g = self.mod.globals.get('bytecodeIR')
        if g is None or g.init is None or g.init.kind != 'agg':
            raise Anchor('bytecodeIR not found in ' + SRC)
        ptr = [e for e in g.init.val if isinstance(e, llir.GlobalRef) or
               getattr(e, 'kind', None) == 'null']
        order = sorted(METHODS, key=lambda m: self.o['interface', m])
        if len(ptr) < len(order):
            raise Anchor('members of bytecodeIR')
        self.method = {m: e.name if isinstance(e, llir.GlobalRef) else None
                       for m, e in zip(order, ptr)}
        self.metrics = [[x.val for x in e.val] for e in g.init.val[:10]
                        if getattr(e, 'kind', None) == 'agg']
        flags = [e for e in g.init.val[10:11] if getattr(e, 'kind', None) == 'int']
        self.flags = flags[0].val if flags else None
        self.gen = Unit('lcc/src/gen.c')

    def fn(self, m):
        n = self.method[m]
        if n is None:
            raise Anchor('bytecodeIR has no %s' % m)
        for u in (self.unit, self.gen):
            f = u.mod.funcs.get(n)
            if f is not None and f.blocks:
                return u.mod, f
        raise Anchor('function %s not found' % n)


def back():
    global _C
    if _C is None:
        _C = Back()
    return _C


class Run:
    def __init__(self, r, m, args, what, types=None, returns=None, globals_=None, facts=(),
                 ptrs=()):
        self.r, self.what = r, what
        C = back()
        self.mod, f = C.fn(m)
        self.fname = f.name
        ret = {'opname': lambda pol, eng, st, a: sym('opname:%d' % cval(a[0]), 64)
               if is_con(a[0]) else None,
               'stringf': None}
        ret.update(returns or {})
        pol = self.pol = Rec(self.mod, types, ret, globals_)
        eng = self.eng = Unroll(self.mod, pol)
        st = State()
        if len(f.args) != len(args):
            raise Anchor('%s has %d parameters' % (f.name, len(f.args)))
        for a, v in zip(f.args, args):
            st.env[a] = v
            if v[0] == 'l' and v[1] == 64 and single(v) and a.ty == llir.PTR:
                eng.ptr_atoms.add(single(v))
        for x in sorted({k[0] for k in types or ()} | set(ptrs)):
            st.ctx.assume(icmp('ne', N(x), con(0, 64)))
        for x in facts:
            st.ctx.assume(x)
        eng.run_function(f, st)
        if not pol.rets:
            r.obligations += 1
            self.bad('%s:1' % SRC, f.name + ' never returns')

    def bad(self, where, what):
        self.r.add([Finding('back end', where, '%s: %s' % (self.what, what), ())], self.fname)

    def paths(self):
        for st, val, where in self.pol.rets:
            for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
                if ctx.contradictory():
                    continue
                self.r.obligations += 1
                try:
                    ev = printed(self.pol, st)
                except Bad as e:
                    self.bad(where, 'prints ' + str(e))
                    continue
                yield ctx, ev, val, where, st

    def fail_if_stops(self):
        """an assertion fails"""
        for st, where in self.pol.stops:
            if st.ctx.contradictory():
                continue
            self.r.obligations += 1
            self.bad(where, 'an assertion fails')


def known(ctx, c):
    return c if isinstance(c, bool) else bool(ctx.entails(c))


def N(n):
    return sym(n, 64)


def node(C, name, op, kids=0, syms=True, link=None, count=None, size=None):
    o = C.o
    t = {(name, o['node', 'op']): con(op, 16), (name, o['node', 'link']): link or con(0, 64),
         (name, o['node', 'kids']): N(name + '.K0') if kids > 0 else con(0, 64),
         (name, o['node', 'kids'] + 8): N(name + '.K1') if kids > 1 else con(0, 64),
         (name, o['node', 'syms']): N(name + '.S0') if syms else con(0, 64),
         (name + '.S0', o['symbol', 'x.name']): N(name + '.name'),
         (name + '.S0', o['symbol', 'u.c.v']): con(size, 64) if size is not None
         else sym(name + '.v', 64)}
    return t


def live(*names):
    return [icmp('ne', N(n), con(0, 64)) for n in names]


def flat(ev):
    out = []
    for e in flat_(ev):
        if e[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', join(list(out[-1][1]) + list(e[1])), e[2])
        else:
            out.append(e)
    return out


def flat_(ev):
    return [('dump', e[2][0]) if e[0] == 'call' and e[1].endswith('.rec') else e for e in ev
            if e[0] != 'store' and not (e[0] == 'call' and e[1] == 'opname')]


def same_events(got, want):
    if len(got) != len(want):
        return False
    for g, w in zip(got, want):
        if g[0] != w[0] or (list(g[1]) if g[0] == 'text' else g[1]) != w[1]:
            return False
    return True


def evshow(ev):
    return ', '.join('"%s"' % textshow(e[1]) if e[0] == 'text' else
                     'operand %s' % show(e[1]) if e[0] == 'dump' else
                     '%s()' % e[1] for e in ev)


def emits(r, C):
    """each node is printed after its operands, with its own operand"""
    n = 0
    for g, (sufs, nk, operand) in sorted(NODES.items()):
        for s in sufs:
            for size in sizes(g, s):
                op = C.c[g] + C.c[s] + (size << 10)
                if (g, s) == ('RET', 'V'):
                    nk_ = 0
                else:
                    nk_ = nk
                srcs = (1, 2, 4) if operand == 'size' and g in ('CVI', 'CVU') else (4,) \
                    if operand == 'size' else (None,)
                for src in srcs:
                    for kid in (('INDIR', 'ADD') if g == 'CVU' else ('ADD',)):
                        emit1(r, C, g, s, size, op, nk_, operand, src, kid)
                        n += 1
    return n


def emit1(r, C, g, s, size, op, nk, operand, src, kid):
    what = '%s%s%s' % (g, s, size or '')
    if src:
        what += ' of %d bytes' % src
    t = node(C, 'p', op, nk, size=src)
    t['p', C.o['node', 'count']] = sym('count', 16)
    t['p.K0', C.o['node', 'op']] = con(C.c[kid] + C.c['U'] + ((src or 4) << 10), 16)
    R = Run(r, 'emit', [N('p')], what, types=t,
            facts=live('p', 'p.K0', 'p.K1', 'p.S0', 'p.name'))
    name = ('s', sym('opname:%d' % op, 64))
    R.fail_if_stops()
    for ctx, ev, val, where, st in R.paths():
        want = [('dump', N('p.K%d' % k)) for k in range(nk)]
        text = [name]
        if (g, s) == ('ASGN', 'B'):
            text += [' ', ('d', trunc(sym('p.v', 64), 32))]
        elif operand == 'name':
            text += [' ', ('s', N('p.name'))]
        elif operand == 'size':
            text += [' %d' % src]
        text += ['\n']
        alt = None
        if g == 'CVU' and src < 4:
            mask = ['CNSTU4 %d\nBANDU4\n' % ((1 << 8 * src) - 1)]
            if kid == 'INDIR':
                alt = want + [('text', join(mask + text))]
            else:
                text = mask + text
        if g == 'CALL':
            zero = icmp('eq', sym('count', 16), con(0, 16))
            if known(ctx, zero):
                text += ['pop\n']
            elif not known(ctx, neg(zero)):
                # the value is known to be used, or not, where it matters
                R.bad(where, 'does not look at whether the value is used')
                continue
        want += [('text', join(text))]
        got = flat(ev)
        if g in ('INDIR', 'ASGN') and False:
            pass
        if not same_events(got, want) and not (alt and same_events(got, alt)):
            R.bad(where, 'prints %s instead of %s' % (evshow(got), evshow(want)))


def chain(r, C):
    """all nodes of a list are printed, in order"""
    op = C.c['RET'] + C.c['V']
    t = node(C, 'p', op, link=N('q'))
    t.update(node(C, 'q', op, link=N('s')))
    t.update(node(C, 's', C.c['LABEL'] + C.c['V']))
    R = Run(r, 'emit', [N('p')], 'a list', types=t, facts=live('p', 'q', 's', 's.S0', 's.name'))
    x = ('s', sym('opname:%d' % op, 64))
    want = [('text', [x, '\n', x, '\n', ('s', sym('opname:%d' % (C.c['LABEL'] + C.c['V']), 64)),
                      ' ', ('s', N('s.name')), '\n'])]
    for ctx, ev, val, where, st in R.paths():
        if not same_events(flat(ev), want):
            R.bad(where, 'prints %s' % evshow(flat(ev)))


CELLS = ('offset', 'maxoffset', 'argoffset', 'maxargoffset')


def cells(st, eng, pol, names=CELLS):
    """values of the cells of the frame at the end of a path"""
    out = {}
    for n in names:
        out[n] = None
        for e in st.ev:
            if e[0] == 'store' and e[1] == ('b', 'g', n) and is_con(e[2]) and scval(e[2]) == 0:
                out[n] = e[4]
    return out


def havoc(names):
    """a call that may change the cells"""
    def f(pol, eng, st, a):
        pol.n += 1
        for n in names:
            v = sym('%s#%d' % (n, pol.n), 32)
            eng.mem_store(st, ('b', 'g', n), con(0, 64), 4, v)
            st.ev += (('store', ('b', 'g', n), con(0, 64), 4, v, ''),)
        return 'done'
    return f


def start(names=CELLS):
    return {n: sym(n, 32) for n in names}


def arguments(r, C):
    """gen() adds up the sizes of the arguments of each call"""
    n = 0
    for g, (sufs, nk, operand) in sorted(NODES.items()):
        for s in sufs:
            for size in (sizes(g, s) if g != 'ARG' else (4,)):
                for src in ((1, 2, 4, None) if g == 'ARG' else (4,)):
                    op = C.c[g] + C.c[s] + (size << 10)
                    k = 0 if (g, s) == ('RET', 'V') else nk
                    gen1(r, C, g, s, op, k, src, operand or g == 'ARG' or s == 'B')
                    n += 1
    return n


def gen1(r, C, g, s, op, nk, src, syms):
    what = 'gen() of %s%s' % (g, s)
    t = node(C, 'p', op, nk, size=src, syms=bool(syms))
    if src is None:
        # a size the tests on it are decided for whatever they are made in
        t['p.S0', C.o['symbol', 'u.c.v']] = zext(sym('p.v', 32), 64)
    h = havoc(CELLS[2:])
    R = Run(r, 'gen', [N('p')], what, types=t, globals_=start(), returns={
        x + '.rec': h for x in C.unit.heads},
        facts=live('p', 'p.S0') + ([icmp('sle', con(4, 32), sym('p.v', 32))] if src is None else
                                   []))
    R.fail_if_stops()
    for ctx, ev, val, where, st in R.paths():
        calls = [e for e in ev if e[0] == 'call']
        if val != N('p'):
            R.bad(where, 'returns another list')
        real = [e[2][0] for e in calls if e[2] and e[2][0] != con(0, 64)]
        if [e for e in calls if not e[1].endswith('.rec')] or \
                real != [N('p.K%d' % k) for k in range(nk)]:
            R.bad(where, 'does not go through the operands of the node once, in their order')
            continue
        # values after the operands were gone through
        at, cell = {}, {n: sym(n, 32) for n in CELLS}
        for e in st.ev:
            if e[0] == 'store' and e[1][:2] == ('b', 'g') and e[1][2] in CELLS:
                cell[e[1][2]] = e[4]
            if e[0] == 'call' and e[1].endswith('.rec'):
                at = dict(cell)
        at = at or {n: sym(n, 32) for n in CELLS}
        a, m = at['argoffset'], at['maxargoffset']
        if g == 'ARG':
            k = sym('p.v', 32) if src is None else con(max(4, src), 32)
            a = add(a, k)
        elif g == 'CALL':
            big = icmp('slt', m, a)
            m = a if known(ctx, big) else m if known(ctx, neg(big)) else \
                cell['maxargoffset'] if maximum(ctx, cell['maxargoffset'], a, m) else None
            a = con(0, 32)
        for n, v in (('argoffset', a), ('maxargoffset', m), ('offset', sym('offset', 32)),
                     ('maxoffset', sym('maxoffset', 32))):
            if v is None or cell[n] != v and not known(ctx, icmp('eq', cell[n], v)):
                R.bad(where, '%s becomes %s instead of %s' % (n, show(cell[n]),
                                                              v and show(v)))


def maximum(ctx, x, a, b):
    return known(ctx, icmp('sle', a, x)) and known(ctx, icmp('sle', b, x)) and x in (a, b)


def roundup(t, a):
    return and_(addc(t, a - 1), con(-a, t[1])) if a > 1 else t


def local(r, C):
    for align in (1, 2, 4):
        for size in (con(1, 32), con(2, 32), con(4, 32), sym('size', 32)):
            o = C.o
            t = {('p', o['symbol', 'type']): N('T'), ('T', o['type', 'align']): con(align, 32),
                 ('T', o['type', 'size']): size}
            R = Run(r, 'local', [N('p')], 'a local variable aligned to %d' % align, types=t,
                    globals_=start())
            for ctx, ev, val, where, st in R.paths():
                off = roundup(sym('offset', 32), align)
                framed(R, C, ctx, ev, st, where, 'p', off)
                c = cells(st, R.eng, R.pol)
                if c['offset'] != add(off, size):
                    R.bad(where, 'offset becomes %s' % (c['offset'] and show(c['offset'])))
                others(R, c, where, ('offset',))


def others(R, c, where, but):
    for n, v in c.items():
        if n not in but and v is not None and v != sym(n, 32):
            R.bad(where, '%s is changed' % n)


def framed(R, C, ctx, ev, st, where, p, off):
    """the symbol has the name and offset off"""
    s = C.o
    name = [e[4] for e in st.ev if e[0] == 'store' and e[1] == single(N(p)) and
            e[2] == con(s['symbol', 'x.name'], 64)]
    pos = [e[4] for e in st.ev if e[0] == 'store' and e[1] == single(N(p)) and
           e[2] == con(s['symbol', 'x.offset'], 64)]
    want = [str(scval(off))] if is_con(off) else [('d', off)]
    if not name or name_text(R, st, name[-1]) not in (want, [('d', sext(off, 64))]):
        R.bad(where, 'the name of %s is not its offset %s' % (p, show(off)))
    if pos and pos[-1] != off:
        R.bad(where, 'the offset of %s is %s' % (p, show(pos[-1])))


def name_text(R, st, t, deep=False):
    """the text of a string a function made"""
    if deep:
        out = []
        for x in name_text(R, st, t):
            out += name_text(R, st, x[1], True) if not isinstance(x, str) and x[0] == 's' and \
                x[1] != t else [x]
        return join(out)
    for e in st.ev:
        if e[0] == 'call' and e[3] == t:
            if e[1] == 'stringf':
                return render(R.mod, e[2][0], e[2][1:])
            if e[1] == 'stringd':
                return [str(scval(e[2][0]))] if is_con(e[2][0]) else [('d', e[2][0])]
            if e[1] == 'string':
                s = literal(R.mod, e[2][0])
                return [s] if s is not None else [('s', e[2][0])]
    s = literal(R.mod, t)
    return [s] if s is not None else [('s', t)]


def blocks(r, C):
    o = C.o
    e0 = ('env', 'offset')
    R = Run(r, 'blockbeg', [N('e')], 'the begin of a block', globals_=start())
    for ctx, ev, val, where, st in R.paths():
        w = [e[4] for e in st.ev if e[0] == 'store' and e[1] == single(N('e')) and
             e[2] == con(o[e0], 64)]
        if w != [sym('offset', 32)]:
            R.bad(where, 'does not remember the offset')
        others(R, cells(st, R.eng, R.pol), where, ())
    R = Run(r, 'blockend', [N('e')], 'the end of a block', globals_=start(),
            types={('e', o[e0]): sym('saved', 32)})
    for ctx, ev, val, where, st in R.paths():
        c = cells(st, R.eng, R.pol)
        if c['offset'] != sym('saved', 32):
            R.bad(where, 'the offset is not restored')
        a, b = sym('offset', 32), sym('maxoffset', 32)
        m = c['maxoffset'] if c['maxoffset'] is not None else b
        if not (known(ctx, icmp('sle', a, m)) and known(ctx, icmp('sle', b, m)) and m in (a, b)):
            R.bad(where, 'maxoffset becomes %s' % show(m))
        others(R, c, where, ('offset', 'maxoffset'))


PARAMS = {'char': (1, 1), 'short': (2, 2), 'int': (4, 4), 'struct': (12, 4), 'packed': (3, 1)}


def functions(r, C):
    """parameters are laid out in order, the frame printed is that of the code"""
    import itertools
    n = 0
    for k in (0, 1, 2, 3):
        for ts in itertools.product(sorted(PARAMS), repeat=k):
            function(r, C, ts)
            n += 1
    return n


def function(r, C, ts):
    o = C.o
    what = 'a function of (%s)' % ', '.join(ts)
    t = {}
    ix = ('IR', o['interface', 'segment'])
    t[ix] = N('IR.segment')
    for i, k in enumerate(ts):
        size, align = PARAMS[k]
        for w in ('caller', 'callee'):
            x = '%s%d' % (w, i)
            t[w, 8 * i] = N(x)
            t[x, o['symbol', 'type']] = N('T' + k if w == 'caller' else 'U%d' % i)
        t['T' + k, o['type', 'size']] = con(size, 32)
        t['T' + k, o['type', 'align']] = con(align, 32)
    for w in ('caller', 'callee'):
        t[w, 8 * len(ts)] = con(0, 64)
    t['f', o['symbol', 'x.name']] = N('fname')
    seen = {}

    def gencode(pol, eng, st, a):
        c = cells(st, eng, pol)
        st.ev += (('mark', 'gencode', dict(c)),)
        return havoc(CELLS)(pol, eng, st, a)
    R = Run(r, 'function', [N('f'), N('caller'), N('callee'), sym('ncalls', 32)], what, types=t,
            globals_=dict(start(), IR=N('IR')), returns={'gencode': gencode},
            facts=live('f', *['%s%d' % (w, i) for w in ('caller', 'callee')
                              for i in range(len(ts))]))
    for ctx, ev, val, where, st in R.paths():
        off = 0
        for i, k in enumerate(ts):
            size, align = PARAMS[k]
            off = (off + align - 1) // align * align
            for w in ('caller', 'callee'):
                framed(R, C, ctx, ev, st, where, '%s%d' % (w, i), con(off, 32))
            off += size
        seq = [e for e in ev if e[0] in ('text', 'mark') or e[0] == 'call' and
               e[1] in ('IR.segment', 'gencode', 'emitcode')]
        kinds = [e[1] if e[0] != 'text' else 'text' for e in seq]
        if kinds != ['IR.segment', 'gencode', 'gencode', 'text', 'emitcode', 'text']:
            R.bad(where, 'does %s' % ', '.join(kinds))
            continue
        if seq[0][2][0] != con(C.c['CODE'], 32):
            R.bad(where, 'is not put into the code segment')
        m = seq[1][2]
        if any(m[x] != con(0, 32) for x in CELLS):
            R.bad(where, 'its frame does not start empty: %s' %
                  ', '.join(x for x in CELLS if m[x] != con(0, 32)))
        if seq[2][2] != (N('caller'), N('callee')):
            R.bad(where, 'its code is made with other parameters')
        # the cells gencode left
        last = {}
        mark = False
        for e in st.ev:
            if e[0] == 'mark':
                mark = True
            if mark and e[0] == 'store' and e[1][:2] == ('b', 'g') and e[1][2] in CELLS:
                last[e[1][2]] = e[4]
        for e, w in ((seq[3], 'proc '), (seq[5], 'endproc ')):
            want = [w, ('s', N('fname')), ' ', ('d', last['maxoffset']), ' ',
                    ('d', last['maxargoffset']), '\n']
            if list(e[1]) != want:
                R.bad(where, 'prints "%s" instead of "%s"' % (textshow(e[1]), textshow(want)))


def text_only(r, m, args, what, want, types=None, globals_=None, facts=(), also=(), returns=None):
    """a function prints this, and does nothing else"""
    R = Run(r, m, args, what, types=types, globals_=globals_, facts=facts, returns=returns)
    R.fail_if_stops()
    for ctx, ev, val, where, st in R.paths():
        texts = [e for e in flat(ev) if e[0] == 'text']
        w = want(ctx) if callable(want) else want
        got = join([x for e in texts for x in e[1]])
        ws = w if isinstance(w, list) and w and isinstance(w[0], list) else [w]
        if got not in ws:
            R.bad(where, 'prints "%s" instead of "%s"' % (textshow(got), textshow(ws[0])))
        calls = [e[1] for e in ev if e[0] == 'call' and e[1] != 'opname']
        if set(calls) - set(also):
            R.bad(where, 'calls %s' % ', '.join(calls))


def directives(r, C):
    o = C.o
    name = {('p', o['symbol', 'x.name']): N('name'), ('p', o['symbol', 'type']): N('T')}
    text_only(r, 'export', [N('p')], 'export', ['export ', ('s', N('name')), '\n'], name)
    text_only(r, 'import', [N('p')], 'import', ['import ', ('s', N('name')), '\n'], name)
    text_only(r, 'defaddress', [N('p')], 'an address', ['address ', ('s', N('name')), '\n'], name)
    text_only(r, 'space', [sym('n', 32)], 'space', ['skip ', ('d', sym('n', 32)), '\n'])
    for a in (1, 2, 4, 8, 16):
        text_only(r, 'global', [N('p')], 'a definition aligned to %d' % a,
                  ['align %d\nLABELV ' % min(a, 4), ('s', N('name')), '\n'],
                  dict(name, **{}) | {('T', o['type', 'align']): con(a, 32)})
    for s, d in (('CODE', 'code'), ('DATA', 'data'), ('BSS', 'bss'), ('LIT', 'lit')):
        g = [n for n in C.mod.globals if n.startswith(C.method['segment'] + '.')]
        cur = sym('current', 32)
        gl = {x: cur for x in g}
        eq = icmp('eq', cur, con(C.c[s], 32))
        R = Run(r, 'segment', [con(C.c[s], 32)], 'the segment ' + d, globals_=gl)
        R.fail_if_stops()
        if len(g) != 1:
            raise Anchor('the current segment')
        for ctx, ev, val, where, st in R.paths():
            got = join([x for e in flat(ev) if e[0] == 'text' for x in e[1]])
            w = cells(st, R.eng, R.pol, g)[g[0]]
            if known(ctx, eq):
                if got not in ([], [d + '\n']) or w not in (None, con(C.c[s], 32), cur):
                    R.bad(where, 'prints "%s" in that segment' % textshow(got))
            elif got != [d + '\n'] or w != con(C.c[s], 32):
                R.bad(where, 'prints "%s"%s' % (textshow(got), '' if w == con(C.c[s], 32) else
                                               ' and does not remember it'))


def data(r, C):
    v = sym('v', 64)
    for s in 'IUP':
        for size in ((4,) if s == 'P' else (1, 2, 4)):
            R = Run(r, 'defconst', [con(C.c[s], 32), con(size, 32), v],
                    'a constant %s of %d bytes' % (s, size))
            R.fail_if_stops()
            for ctx, ev, val, where, st in R.paths():
                got = join([x for e in flat(ev) if e[0] == 'text' for x in e[1]])
                ok = len(got) == 3 and got[0] == 'byte %d ' % size and got[2] == '\n' and \
                    not isinstance(got[1], str) and got[1][0] in 'du' and \
                    trunc(got[1][1], 8 * size) == trunc(v, 8 * size)
                if ok and got[1][1] != v and got[1][1][1] < 8 * size:
                    ok = False
                if not ok:
                    R.bad(where, 'prints "%s"' % textshow(got))
    R = Run(r, 'defconst', [con(C.c['F'], 32), con(4, 32), v], 'a floating constant')
    R.fail_if_stops()
    for ctx, ev, val, where, st in R.paths():
        got = join([x for e in flat(ev) if e[0] == 'text' for x in e[1]])
        if len(got) != 3 or got[0] != 'byte 4 ' or got[2] != '\n' or isinstance(got[1], str) or \
                got[1][0] not in 'du' or not floatbits(st, got[1][1]):
            R.bad(where, 'prints "%s"' % textshow(got))
    for n in range(4):
        want = []
        for i in range(n):
            want += ['byte 1 ', ('d', 'char %d' % i), '\n']
        R = Run(r, 'defstring', [con(n, 32), N('str')], 'a string of %d bytes' % n,
                types={('str', i): sym('c%d' % i, 8) for i in range(n)},
                facts=[icmp('ult', addc(N('str'), i), addc(N('str'), j))
                       for j in range(n + 2) for i in range(-2, j)])
        for ctx, ev, val, where, st in R.paths():
            got = join([x for e in flat(ev) if e[0] == 'text' for x in e[1]])
            ok = len(got) == 2 * n + (n > 0)
            for i in range(n if ok else 0):
                x = got[2 * i + 1]
                ok = ok and got[2 * i] == ('byte 1 ' if i == 0 else '\nbyte 1 ') and \
                    not isinstance(x, str) and x[0] in 'du' and \
                    trunc(x[1], 8) == sym('c%d' % i, 8)
            if not ok or n and got[-1] != '\n':
                R.bad(where, 'prints "%s"' % textshow(got))


def floatbits(st, t):
    """t: the bits of the value v, as a float"""
    x = single(t)
    if x and x[0] == 'x' and x[1] == 'zext':
        x = single(x[3])
    if not x or x[0] != 'f2i' or x[1][:3] != ('fop', 'fptrunc', 32):
        return False
    v = sym('v', 64)
    return x[1][3] in (v, ('i2f', v, 64))


KEYWORDS = ('ADDRF', 'ADDRL', 'LABEL', 'ARG', 'RET', 'CALL')


def mnemonics(r, C):
    """opname() spells each operator the way q3asm knows it"""
    import checks_asm
    rows = {n.decode('latin-1') for n, o in checks_asm.asm().rows}
    unit = Unit('lcc/src/tree.c')
    f = unit.mod.funcs.get('opname')
    if f is None or not f.blocks:
        raise Anchor('function opname not found')
    n = 0
    for g, (sufs, nk, operand) in sorted(NODES.items()):
        for s in sufs:
            for size in sizes(g, s):
                name = '%s%s%s' % (g, s, size or '')
                r.obligations += 1
                n += 1
                if g not in KEYWORDS and name not in rows:
                    r.add([Finding('mnemonic', 'q3asm/opstrings.h:1', '%s is not a mnemonic of '
                                   'q3asm' % name, ())], 'sourceOps')
                op = C.c[g] + C.c[s] + (size << 10)
                pol = Rec(unit.mod)
                eng = Unroll(unit.mod, pol)
                st = State()
                st.env[f.args[0]] = con(op, 32)
                eng.run_function(f, st)
                R = type('R', (), {'mod': unit.mod})
                for st, val, where in pol.rets:
                    if st.ctx.contradictory():
                        continue
                    r.obligations += 1
                    try:
                        got = name_text(R, st, val, True)
                    except Bad as e:
                        got = [str(e)]
                    if got != [name]:
                        r.add([Finding('mnemonic', where, 'opname() spells %s "%s"' % (
                            name, textshow(got)), ())], 'opname')
                if not pol.rets:
                    r.add([Finding('mnemonic', 'lcc/src/tree.c:1', 'opname() never returns for %s'
                                   % name, ())], 'opname')
    return n


def symbols(r, C):
    """names: constants by value, static locals and generated symbols by numbers, others by their
    own name"""
    o = C.o
    v = sym('v', 64)
    gen = C.bits.get('generated')
    if gen is None:
        raise Anchor('struct symbol')
    for scope in ('CONSTANTS', 'LABELS', 'GLOBAL', 'PARAM', 'LOCAL', 'INNER'):
        for sclass in ('STATIC', 'EXTERN', 'AUTO', 'REGISTER'):
            for generated in (0, 1):
                for s in ('IUPF' if scope == 'CONSTANTS' else 'I'):
                    symbol(r, C, scope, sclass, generated, s, gen)


def symbol(r, C, scope, sclass, generated, s, gen):
    o = C.o
    v = sym('v', 64)
    k = C.c['LOCAL'] + 3 if scope == 'INNER' else C.c[scope]
    t = {('p', o['symbol', 'scope']): con(k, 32),
         ('p', o['symbol', 'sclass']): con(C.c[sclass], 32),
         ('p', gen // 8): con(generated << (gen % 8), 8),
         ('p', gen // 32 * 4): con(generated << (gen % 32), 32),
         ('p', o['symbol', 'name']): N('pname'), ('p', o['symbol', 'type']): N('T'),
         ('p', o['symbol', 'u.c.v']): v}
    ops = {'I': 'INT', 'U': 'UNSIGNED', 'P': 'POINTER', 'F': 'FLOAT'}
    t['T', o['type', 'op']] = con(C.c[ops[s]], 32)
    t['T', o['type', 'size']] = con(4, 32)
    what = 'the name of a symbol (%s, %s%s)' % (scope, sclass, ', generated' if generated else '')
    R = Run(r, 'defsymbol', [N('p')], what, types=t,
            returns={'ttob': lambda pol, eng, st, a: con(C.c[s] + (4 << 10), 32),
                     'genlabel': lambda pol, eng, st, a: sym('label', 32)})
    R.fail_if_stops()
    for ctx, ev, val, where, st in R.paths():
        w = [e[4] for e in st.ev if e[0] == 'store' and e[1] == single(N('p')) and
             e[2] == con(o['symbol', 'x.name'], 64)]
        if not w:
            R.bad(where, 'is not set')
            continue
        try:
            got = name_text(R, st, w[-1])
        except Bad as e:
            R.bad(where, str(e))
            continue
        if scope == 'CONSTANTS':
            ok = len(got) == 1 and not isinstance(got[0], str)
            if ok and s == 'F':
                ok = floatbits(st, got[0][1])
            elif ok:
                ok = got[0] in (('u', v), ('u', trunc(v, 32)), ('d', trunc(v, 32))) if s != 'I' \
                    else got[0] in (('d', v), ('d', trunc(v, 32)))
        elif scope in ('LOCAL', 'INNER') and sclass == 'STATIC':
            ok = got in (['$', ('d', sym('label', 32))], ['$', ('u', sym('label', 32))])
            n = [e for e in ev if e[0] == 'call' and e[1] == 'genlabel']
            ok = ok and len(n) == 1 and n[0][2] == (con(1, 32),)
        elif scope == 'LABELS' or generated:
            ok = got == ['$', ('s', N('pname'))]
        else:
            ok = got == [('s', N('pname'))]
        if not ok:
            R.bad(where, 'is "%s"' % textshow(got))


def addresses(r, C):
    o = C.o
    n = sym('n', 64)
    R = Run(r, 'address', [N('q'), N('p'), n], 'the address of a part of an object',
            types={('p', o['symbol', 'x.name']): N('name')}, facts=[icmp('ne', n, con(0, 64))])
    for ctx, ev, val, where, st in R.paths():
        w = [e[4] for e in st.ev if e[0] == 'store' and e[1] == single(N('q')) and
             e[2] == con(o['symbol', 'x.name'], 64)]
        pos = known(ctx, icmp('slt', con(0, 64), n))
        want = [('s', N('name'))] + (['+'] if pos else []) + [('d', n)]
        if not w or name_text(R, st, w[-1]) != want or \
                not pos and not known(ctx, icmp('sle', n, con(0, 64))):
            R.bad(where, 'is "%s"' % (textshow(name_text(R, st, w[-1])) if w else ''))


def metrics(r, C):
    """sizes and alignments of the types, and what the back end asks of the front end"""
    want = [('char', 1, 1), ('short', 2, 2), ('int', 4, 4), ('long', 4, 4), ('long long', 4, 4),
            ('float', 4, 4), ('double', 4, 4), ('long double', 4, 4), ('pointers', 4, 4),
            ('structs', 0, None)]
    if len(C.metrics) != len(want):
        raise Anchor('the metrics in bytecodeIR')
    for (n, s, a), m in zip(want, C.metrics):
        r.obligations += 1
        if m[0] != s or a and m[1] != a or not a and m[1] not in (1, 2, 4) or m[2]:
            r.add([Finding('metrics', SRC + ':1', '%s: size, alignment, outofline are %s' % (
                n, m), ())], 'bytecodeIR')
    # the machine is little endian, arguments are placed from left to right, trees are evaluated
    # once for each use, structs are passed and returned through pointers
    bits = {n: b for n, b, w in C.mod.struct_fields('interface') or C.gen.mod.struct_fields(
        'interface') or ()}
    for n, w in (('little_endian', 1), ('left_to_right', 1), ('wants_dag', 0), ('wants_callb', 0),
                 ('wants_argb', 0)):
        r.obligations += 1
        if n not in bits or C.flags is None:
            raise Anchor('%s in bytecodeIR' % n)
        if C.flags >> bits[n] % 8 & 1 != w:
            r.add([Finding('metrics', SRC + ':1', '%s is %d' % (n, 1 - w), ())], 'bytecodeIR')


def C30(tier):
    r = Result()
    C = back()
    r.cover['nodes'] = emits(r, C) + arguments(r, C)
    r.cover['mnemonics'] = mnemonics(r, C)
    chain(r, C)
    local(r, C)
    blocks(r, C)
    r.cover['functions'] = functions(r, C)
    directives(r, C)
    data(r, C)
    symbols(r, C)
    addresses(r, C)
    metrics(r, C)
    r.rule = RULE
    return r


RULE = ('on every path of a function of the back end what it prints, the frame cells it leaves and the '
        'names it gives are those its arguments call for; every operator is spelled as q3asm spells it')
