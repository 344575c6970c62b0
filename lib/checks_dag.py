"""C37: expressions to nodes in rcc (dag.c)."""
import lccdag
from lccdag import *
from report import Result

_C = None
SUFS = {'F': 'F', 'I': 'I', 'U': 'U', 'P': 'P', 'V': 'V', 'B': 'B'}
TOP = {'F': 'FLOAT', 'I': 'INT', 'U': 'UNSIGNED', 'P': 'POINTER', 'V': 'VOID', 'B': 'STRUCT'}


def dag():
    global _C
    if _C is None:
        _C = Dag()
    return _C


GLOB = {'inttype': 'inttype', 'unsignedtype': 'unsignedtype', 'voidptype': 'voidptype',
        'IR': 'IR', 'cfunc': 'cfunc', 'unsignedlong': 'unsignedlong', 'longtype': 'longtype'}


def base_types(C):
    o = C.o
    t = {}
    for n, k, s in (('inttype', 'INT', 4), ('unsignedtype', 'UNSIGNED', 4),
                    ('voidptype', 'POINTER', 4)):
        t[n, o['type', 'op']] = con(C.c[k], 32)
        t[n, o['type', 'size']] = con(s, 32)
        t[n, o['type', 'align']] = con(s, 32)
    b = C.bits['interface', 'little_endian'] // 8
    t['IR', b] = con(C.flags, 8)
    return t


def tree(C, t, name, op, s, size, kids=0, ty=None):
    """a tree: operator, suffix, size of its type"""
    o = C.o
    T = ty or 'T' + name
    t[name, o['tree', 'op']] = con(C.c[op] + (C.c[s] if s else 0), 32)
    t[name, o['tree', 'type']] = N(T)
    for k in range(2):
        t[name, o['tree', 'kids'] + 8 * k] = N('%sK%d' % (name, k)) if k < kids else Z
    t[name, o['tree', 'node']] = Z
    if ty is None:
        t[T, o['type', 'op']] = con(C.c[TOP.get(s, 'INT')], 32)
        t[T, o['type', 'size']] = con(size, 32) if isinstance(size, int) else size
        t[T, o['type', 'align']] = sym('align.' + name, 32)
    return t


def code(C, op, s, size):
    """operator of a node"""
    return con(C.c[op] + (C.c[s] if s else 0) + (size << 10), 32)


T0, F0 = sym('tlab', 32), sym('flab', 32)
O = con(0, 32)
MODES = (('value', O, O), ('true', T0, O), ('false', O, F0))


class Listing:
    """one kind of tree given to listnodes()"""

    def __init__(self, r, C, what, t, tl=O, fl=O, globals_=None, facts=(), live=(), returns=None):
        g = {n: N(x) for n, x in GLOB.items()}
        g['errcnt'] = O
        g['depth'] = sym('depth', 32)
        g['forest'] = N('forest')
        g['firstarg'] = Z
        g.update(globals_ or {})
        types = base_types(C)
        types.update(t)
        fs = list(facts)
        for l in (tl, fl):
            if not is_con(l):
                fs.append(icmp('slt', O, l))
        fs += [icmp('ne', N('inttype'), N('unsignedtype')), icmp('ne', N('inttype'), N('voidptype')),
               icmp('sle', O, sym('depth', 32))]
        ret = {'genlabel': genlabel}
        ret.update(returns or {})
        self.C = C
        self.R = DRun(r, C, 'listnodes', [N('p'), tl, fl], what, types=types, globals_=g,
                      facts=fs, live=('forest',) + tuple(live), returns=ret)

    def expect(self, *wants, result=None, also=None):
        """the events of each path are one of these sequences (a sequence may depend on the
        path)"""
        for ctx, ev, val, where, st in self.R.paths():
            err = None
            for w in wants:
                try:
                    w_ = w(ctx) if callable(w) else w
                    env = match(w_, [e for e in ev if e[0] != 'genlabel'], ctx)
                    if result is not None:
                        x = env.get(result, Z) if isinstance(result, str) else result
                        if not eq(ctx, val, x):
                            raise No('returns %s instead of %s' % (show(val), show(x)))
                        m = self.R.final(st, N('p'), self.C.o['tree', 'node'])
                        if m is None or not eq(ctx, m, x):
                            raise No('does not remember the node made')
                    self.labels(ev, env)
                    if also:
                        also(ctx, st, env, self.R)
                    err = None
                    break
                except No as e:
                    err = err or e
            if err:
                self.R.bad(where, str(err))

    def labels(self, ev, env):
        used = {}
        for k, v in env.items():
            if k[0] == '$':
                if v in used.values():
                    raise No('two labels are the same')
                used[k] = v
        ok = set()
        for e in ev:
            if e[0] == 'genlabel':
                n = e[1][0]
                for i in range(scval(n) if is_con(n) else 1):
                    ok.add(addc(e[2], i))
        for v in used.values():
            if v not in ok:
                raise No('the label %s is not a new one' % show(v))


def genlabel(pol, eng, st, args):
    pol.n += 1
    v = sym('label@%d' % pol.n, 32)
    st.ctx.assume(icmp('slt', O, v))
    st.ctx.assume(icmp('slt', v, con(1 << 30, 32)))
    return v


def P(name, i):
    return N('%sK%d' % (name, i))


def either(a, b, *rest):
    """two events in any order"""
    return [('or', [a, b], [b, a])] + list(rest)


ARITH = {'ADD': 'IUFP', 'SUB': 'IUFP', 'MUL': 'IUF', 'DIV': 'IUF', 'MOD': 'IU', 'LSH': 'IU',
         'RSH': 'IU', 'BAND': 'IU', 'BOR': 'IU', 'BXOR': 'IU'}
CMP = {'EQ': 'NE', 'NE': 'EQ', 'GT': 'LE', 'LE': 'GT', 'LT': 'GE', 'GE': 'LT'}


def values(r, C):
    """operators that make one node"""
    n = 0
    K0, K1 = P('p', 0), P('p', 1)
    for op, sufs in sorted(ARITH.items()):
        for s in sufs:
            t = tree(C, {}, 'p', op, s, 4, 2)
            Listing(r, C, op + s, t).expect(
                either(('listnodes', (K0, O, O), 'l'), ('listnodes', (K1, O, O), 'r'),
                       ('node', (code(C, op, s, 4), 'l', 'r', Z), 'p')), result='p')
            n += 1
    for op, s in (('NEG', 'I'), ('NEG', 'F'), ('BCOM', 'I'), ('BCOM', 'U')):
        t = tree(C, {}, 'p', op, s, 4, 1)
        Listing(r, C, op + s, t).expect(
            [('listnodes', (K0, O, O), 'l'), ('node', (code(C, op, s, 4), 'l', Z, Z), 'p')],
            result='p')
        n += 1
    for op, s, size, f, fs in (
            ('CVF', 'I', 4, 'F', 4), ('CVI', 'F', 4, 'I', 4), ('CVI', 'I', 4, 'I', 1),
            ('CVI', 'I', 4, 'I', 2), ('CVI', 'I', 1, 'I', 4), ('CVI', 'I', 2, 'I', 4),
            ('CVI', 'U', 4, 'I', 4), ('CVI', 'U', 4, 'I', 1), ('CVU', 'I', 4, 'U', 4),
            ('CVU', 'I', 4, 'U', 1), ('CVU', 'U', 4, 'U', 2), ('CVU', 'U', 1, 'U', 4),
            ('CVU', 'P', 4, 'U', 4), ('CVP', 'U', 4, 'P', 4)):
        t = tree(C, tree(C, {}, 'pK0', 'ADD', f, fs), 'p', op, s, size, 1)
        size_ = sym('intconst(%s)' % show(con(fs, 32)), 64)
        Listing(r, C, '%s%s%d of %d bytes' % (op, s, size, fs), t).expect(
            [('listnodes', (K0, O, O), 'l'), ('node', (code(C, op, s, size), 'l', Z, size_), 'p')],
            result='p')
        n += 1
    return n


def loads(r, C):
    """what is volatile is loaded each time, anything else once until it may change"""
    o, n = C.o, 0
    K0 = P('p', 0)
    for s, size in (('I', 1), ('I', 2), ('I', 4), ('U', 1), ('U', 2), ('U', 4), ('F', 4), ('P', 4),
                    ('B', 12)):
        for qual in (0, 'CONST', 'VOLATILE', 'CONST+VOLATILE'):
            for ptr in (0, 1, 2):
                for vf in ((0, 1) if s == 'B' else (0,)):
                    t = tree(C, {}, 'p', 'INDIR', s, size, 1)
                    # type of the operand: the object's, a pointer to it, or a qualified pointer
                    obj = {('O', o['type', 'op']): con(C.c[TOP[s]], 32),
                           ('O', o['type', 'u.sym']): N('S'), ('O', o['type', 'type']): Z}
                    if s == 'B':
                        b, v = C.flag('symbol', 'temporary', 0)
                        t['S', U_S(C)] = con(vf << 1, 8)
                    x = 'O'
                    if qual:
                        q = sum(C.c[k] for k in qual.split('+'))
                        obj['Q', o['type', 'op']] = con(q, 32)
                        obj['Q', o['type', 'type']] = N('O')
                        x = 'Q'
                    if ptr == 0 and s == 'P':
                        continue
                    if ptr:
                        obj['PT', o['type', 'op']] = con(C.c['POINTER'], 32)
                        obj['PT', o['type', 'type']] = N(x)
                        x = 'PT'
                    if ptr == 2:
                        obj['QP', o['type', 'op']] = con(C.c['CONST'], 32)
                        obj['QP', o['type', 'type']] = N('PT')
                        x = 'QP'
                    t.update(obj)
                    t['pK0', o['tree', 'type']] = N(x)
                    vol = qual and 'VOLATILE' in qual or vf
                    op = code(C, 'INDIR', s, 0 if s == 'B' else size)
                    new = [('listnodes', (K0, O, O), 'l'), ('newnode', (op, 'l', Z, Z), 'p')]
                    old = [('listnodes', (K0, O, O), 'l'), ('node', (op, 'l', Z, Z), 'p')]
                    Listing(r, C, 'INDIR%s%d (%s)' % (s, size, qual or 'unqualified'), t).expect(
                        *([new] if vol else [old, new]), result='p')
                    n += 1
    return n


def U_S(C):
    return C.o['symbol', 'u.c.loc'] - 8     # the union: its first member


def leaves(r, C):
    o, n = C.o, 0
    for op in ('ADDRG', 'ADDRF', 'ADDRL'):
        for temp in ((0, 1) if op == 'ADDRL' else (0,)):
            t = tree(C, {}, 'p', op, 'P', 4)
            t['p', o['tree', 'u.sym']] = N('s')
            b, v = C.flag('symbol', 'temporary', temp)
            t['s', b] = con(v, 8)
            want = [('node', (code(C, op, 'P', 4), Z, Z, N('s')), 'p')]
            add_ = ('addlocal', (N('s'),))
            w = [[add_] + want, want + [add_]] if temp else [want]
            Listing(r, C, op + (' of a temporary' if temp else ''), t).expect(*w, result='p')
            n += 1
    for s, k, size in (('I', 'inttype', 4), ('U', 'unsignedtype', 4), ('I', 'TC', 1),
                       ('F', 'TC', 4), ('P', 'TC', 4)):
        for mode, tl, fl in MODES:
            if mode != 'value' and k != 'inttype':
                continue
            for adr in (0, 1):
                t = tree(C, {}, 'p', 'CNST', s, size, ty=k)
                v = sym('v', 64)
                t['p', o['tree', 'u.v']] = v
                t[k, o['type', 'op']] = con(C.c[TOP[s]], 32)
                t[k, o['type', 'size']] = con(size, 32)
                t[k, o['type', 'u.sym']] = N('ts')
                b, x = C.flag('symbol', 'addressed', adr)
                t['ts', b] = con(x, 8)
                L = Listing(r, C, 'CNST%s%d as a %s' % (s, size, mode), t, tl, fl)
                if mode == 'value':
                    if adr:
                        L.expect([('listnodes', (sym('cvtconst(p)', 64), O, O), 'p')], result='p')
                    else:
                        L.expect([('node', (code(C, 'CNST', s, size), Z, Z,
                                            sym('constant(%s,v)' % k, 64)), 'p')], result='p')
                else:
                    lab = tl if mode == 'true' else fl
                    # an int: the low 32 bits of its value are its sign extension
                    jumps = lambda ctx: [('jump', (lab,), 'j'), ('list', ('j',))] if truth(
                        ctx, v, mode == 'true') else []
                    L.expect(jumps)
                n += 1
    return n


def truth(ctx, v, want):
    zero = icmp('eq', v, con(0, v[1]))
    if known(ctx, zero):
        return not want
    if known(ctx, neg(zero)):
        return want
    raise No('does not look at the value')


def branches(r, C):
    """AND, OR, NOT, COND and comparisons branch where their operands' values say"""
    o, n = C.o, 0
    K0, K1 = P('p', 0), P('p', 1)
    a = lambda t, f: ('listnodes', (K0, t, f))
    b = lambda t, f: ('listnodes', (K1, t, f))
    R = ('R',)
    for mode, tl, fl in MODES:
        t = tree(C, {}, 'p', 'AND', 'I', 4, 2, ty='inttype')
        # the second operand is not always evaluated: nothing evaluated in it may be taken for
        # something asked for in front of it, or behind it
        # (nodes made in front of it must not be found in it: they are evaluated where they are
        # first used)
        if mode == 'false':
            w = [[('or', [R, a(O, fl), b(O, fl)], [a(O, fl), R, b(O, fl)])]]
        else:
            w = [[('or', [R, a(O, '$f'), b(tl, O), ('labelnode', ('$f',))],
                       [a(O, '$f'), R, b(tl, O), ('labelnode', ('$f',))])]]
        Listing(r, C, 'AND, %s' % mode, t, tl, fl).expect(*w)
        t = tree(C, {}, 'p', 'OR', 'I', 4, 2, ty='inttype')
        if mode == 'true':
            w = [[('or', [R, a(tl, O), b(tl, O)], [a(tl, O), R, b(tl, O)])]]
        else:
            w = [[('or', [R, a('$t', O), b(O, fl), ('labelnode', ('$t',))],
                       [a('$t', O), R, b(O, fl), ('labelnode', ('$t',))])]]
        Listing(r, C, 'OR, %s' % mode, t, tl, fl).expect(*w)
        t = tree(C, {}, 'p', 'NOT', 'I', 4, 1, ty='inttype')
        Listing(r, C, 'NOT, %s' % mode, t, tl, fl).expect([a(fl, tl)])
        n += 3
    for g in CMP:
        for s in 'IUF':
            for mode, tl, fl in MODES[1:]:
                t = tree(C, {}, 'p', g, s, 4, 2)
                t['p', o['tree', 'u.sym']] = Z
                kind = {'F': 'F', 'I': 'I', 'U': 'U'}[s]
                lab = tl if mode == 'true' else fl
                op = code(C, g if mode == 'true' else CMP[g], kind, 4)
                L = sym('findlabel(%s)' % show(lab), 64)
                kid = lambda pol, eng, st, args: kidnode(C, pol, eng, st, args,
                                                        C.c['ADD'] + C.c[kind] + (4 << 10))
                want = either(('listnodes', (K0, O, O), 'l'), ('listnodes', (K1, O, O), 'r'),
                              ('newnode', (op, 'l', 'r', L), 'p'), ('list', ('p',)))

                def ref(ctx, st, env, R):
                    if R.final(st, L, o['symbol', 'ref']) is None:
                        raise No('the label is not counted as used')
                Listing(r, C, '%s%s, %s' % (g, s, mode), t, tl, fl,
                        returns={'listnodes.rec': kid}, live=(single(L)[1],)).expect(
                            want, also=ref)
                n += 1
    # conditional expressions
    Q = 'pK1'
    for val in (0, 1):
        t = tree(C, {}, 'p', 'COND', 'I', 4, 2)
        t['p', o['tree', 'u.sym']] = N('tmp') if val else Z
        tree(C, t, Q, 'RIGHT', None, 4, 2)
        e = ('listnodes', (N(Q + 'K0'), O, O))
        f = ('listnodes', (N(Q + 'K1'), O, O))
        jump = [('jump', ('$e',), 'j'), ('list', ('j',))]
        w = [('listnodes', (K0, O, '$f')), R, e, ('DROP',)] + jump + \
            [('labelnode', ('$f',)), f, ('DROP',), ('labelnode', ('$e',))]
        if val:
            w += [('listnodes', (sym('idtree(tmp)', 64), O, O), 'p')]

        def want(ctx, w=w):
            return w
        L = Listing(r, C, 'COND' + (' with a value' if val else ''), t, live=('tmp',) if val else ())
        cond(L, C, w, val)
        n += 1
    return n


def kidnode(C, pol, eng, st, args, op):
    v = pol.listnodes(pol, eng, st, args)
    pol.types[single(v)[1], C.o['node', 'op']] = con(op, 16)
    return v


def cond(L, C, w, val):
    for ctx, ev, v, where, st in L.R.paths():
        try:
            # a label at the end of an arm may be made that of the end
            out, drops = [], []
            i = 0
            while i < len(ev):
                if ev[i][0] == 'equatelab' and i + 1 < len(ev) and ev[i + 1][0] == 'unlist':
                    drops.append(ev[i])
                    i += 2
                    continue
                out.append(ev[i])
                i += 1
            if val and not [e for e in ev if e[0] == 'addlocal' and e[1][0] == N('tmp')]:
                raise No('the temporary is not made')
            env = match([x for x in w if x[0] != 'DROP'],
                        [e for e in out if e[0] not in ('genlabel', 'addlocal')], ctx)
            L.labels(ev, env)
            for d in drops:
                end = sym('findlabel(%s)' % show(env['$e']), 64)
                if d[1][1] != end:
                    raise No('a label is made that of %s' % show(d[1][1]))
                a = single(d[1][0])
                # forest->syms[0] of a forest that is known to end in a label
                if not lastlabel(L.C, ctx, d[1][0]):
                    raise No('%s is taken for a label' % show(d[1][0]))
            if val and not eq(ctx, v, env['p']):
                raise No('returns %s' % show(v))
        except No as e:
            L.R.bad(where, str(e))


def lastlabel(C, ctx, t):
    """t: syms[0] of a node known to be a label"""
    a = single(t)
    if not a or a[0] != 'ld' or a[2] != con(C.o['node', 'syms'], 64):
        return False
    op = atom(('ld', a[1], con(C.o['node', 'op'], 64), 16, a[4]))
    return known(ctx, icmp('eq', op, con(C.c['LABEL'] + C.c['V'], 16)))


def sequences(r, C):
    """RIGHT, JUMP, RET, ARG, CALL"""
    o, n = C.o, 0
    K0, K1 = P('p', 0), P('p', 1)
    for mode, tl, fl in MODES:
        for k in ((0, 1), (0,), (1,)):
            t = tree(C, {}, 'p', 'RIGHT', None, 4, 2)
            for i in (0, 1):
                if i not in k:
                    t['p', o['tree', 'kids'] + 8 * i] = Z
            if 0 in k:
                tree(C, t, 'pK0', 'ADD', 'I', 4, 2)
            if 1 in k:
                tree(C, t, 'pK1', 'MUL', 'I', 4, 2)
            none = lambda x: ('?', [('listnodes', (Z, O, O))])
            if k == (0, 1):
                w = [('listnodes', (K0, O, O)), ('listnodes', (K1, tl, fl), 'p')]
            elif k == (0,):
                w = [('listnodes', (K0, tl, fl), 'p')]
            else:
                w = [none(0), ('listnodes', (K1, tl, fl), 'p')]
            Listing(r, C, 'RIGHT, %s, kids %s' % (mode, k), t, tl, fl).expect(w, result='p')
            n += 1
    for a, x in (('ASGN', 'I'), ('ASGN', 'B'), ('CALL', 'V'), ('CALL', 'B'), ('CALL', 'I'),
                 ('INDIR', 'I'), ('RIGHT', None), ('COND', None), ('CNST', 'I'), ('FIELD', None)):
        for b, y in (('ASGN', 'I'), ('ASGN', 'B'), ('CALL', 'I'), ('INDIR', 'F'), ('COND', None)):
            t = tree(C, {}, 'p', 'RIGHT', None, 4, 2)
            tree(C, t, 'pK0', a, x, 4, 2)
            tree(C, t, 'pK1', b, y, 4, 2)
            Listing(r, C, 'RIGHT of %s%s and %s%s' % (a, x or '', b, y or ''), t, facts=[
                icmp('ne', P('pK0', 0), P('pK1', 0)), icmp('ne', K0, P('pK1', 0))]).expect(
                [('listnodes', (K0, O, O)), ('listnodes', (K1, O, O), 'p')], result='p')
            n += 1
    # the value of an object in front of an assignment to it
    for op, s in (('INDIR', 'I'), ('INDIR', 'P'), ('INDIR', 'F')):
        t = tree(C, {}, 'p', 'RIGHT', None, 4, 2)
        tree(C, t, 'pK0', op, s, 4, 1)
        tree(C, t, 'pK1', 'ASGN', s, 4, 2)
        t['pK0', o['tree', 'kids']] = N('lv')
        t['pK1', o['tree', 'kids']] = N('lv')
        tree(C, t, 'lv', 'ADDRL', 'P', 4)
        Listing(r, C, 'the old value of an object (%s)' % s, t).expect(
            [('listnodes', (K0, O, O), 'p'), ('list', ('p',)), ('listnodes', (K1, O, O))],
            result='p')
        n += 1
    t = tree(C, {}, 'p', 'RIGHT', None, 4, 2)
    tree(C, t, 'pK0', 'FIELD', None, 4, 1, ty='inttype')
    tree(C, t, 'pK1', 'ASGN', 'I', 4, 2)
    tree(C, t, 'pK0K0', 'INDIR', 'I', 4, 1)
    t['pK1', o['tree', 'kids']] = N('pK0')
    Listing(r, C, 'the old value of a bit field', t).expect(
        [('listnodes', (N('pK0K0'), O, O), 'a'), ('list', ('a',)), ('listnodes', (K0, O, O), 'p'),
         ('listnodes', (K1, O, O))],
        [('listnodes', (K0, O, O), 'p'), ('list', ('p',)), ('listnodes', (K1, O, O))], result='p')
    t = tree(C, {}, 'p', 'JUMP', 'V', 0, 1)
    t['p', o['tree', 'u.sym']] = Z
    Listing(r, C, 'JUMP', t).expect(
        [('listnodes', (K0, O, O), 'l'), ('newnode', (code(C, 'JUMP', 'V', 0), 'l', Z, Z), 'p'),
         ('list', ('p',)), ('R',)])
    for s in 'IUFP':
        t = tree(C, {}, 'p', 'RET', s, 4, 1)
        Listing(r, C, 'RET' + s, t).expect(
            [('listnodes', (K0, O, O), 'l'), ('newnode', (code(C, 'RET', s, 4), 'l', Z, Z), 'p'),
             ('list', ('p',))])
    t = tree(C, {}, 'p', 'RET', 'V', 0, 0)
    Listing(r, C, 'RETV', t).expect(
        [('?', [('listnodes', (Z, O, O), 'l')]),
         ('newnode', (code(C, 'RET', 'V', 0), '_', Z, Z), 'p'), ('list', ('p',))])
    ltr = C.flags >> (C.bits['interface', 'left_to_right'] % 8) & 1
    callb = C.flags >> (C.bits['interface', 'wants_callb'] % 8) & 1
    for s, size in (('I', 4), ('U', 4), ('F', 4), ('P', 4), ('B', 12)):
        for first in (0, 1):
            t = tree(C, {}, 'p', 'ARG', s, size, 2)
            me = [('listnodes', (K0, O, O), 'l'),
                  ('newnode', (code(C, 'ARG', s, 0 if s == 'B' else size), 'l', Z, Z), 'p'),
                  ('list', ('p',))]
            fa = [('listnodes', (N('first'), O, O))]
            other = [('listnodes', (K1, O, O))]

            def want(ctx, first=first, me=me, other=other, fa=fa):
                seq = []
                if ltr:
                    seq += other
                # what is left of firstarg after the other arguments
                seq += [('FIRST',)] + me
                if not ltr:
                    seq += other
                return seq

            def ends(ctx, st, env, R, size=size):
                for off, v in ((0, 'intconst(%s)' % show(con(size, 32))),
                               (8, 'intconst(align.p)')):
                    x = R.final(st, env['p'], o['node', 'syms'] + off)
                    if x != sym(v, 64):
                        raise No('the %s of the argument is %s' % (
                            'alignment' if off else 'size', show(x) if x else 'not stated'))
            L = Listing(r, C, 'ARG' + s, t, globals_={
                'firstarg': N('first') if first else Z}, returns={'listnodes.rec': keepfirst},
                live=('first',))
            args(L, C, want, first, ends)
            n += 1
    for s, size in (('I', 4), ('U', 4), ('F', 4), ('P', 4), ('V', 0), ('B', 12)):
        for first, fun in ((0, 'ADDRG'), (1, 'ADDRG'), (0, 'INDIR'), (1, 'INDIR'), (1, 'RIGHT'),
                           (1, 'CALL')):
            t = tree(C, {}, 'p', 'CALL', s, size, 2)
            tree(C, t, 'pK0', fun, 'P', 4)
            tree(C, t, 'pK1', 'ADDRL' if s == 'B' else 'ARG', 'P', 4)
            t['TpK0', o['type', 'type']] = N('TF')
            t['TF', o['type', 'op']] = con(C.c['FUNCTION'], 32)
            L = Listing(r, C, 'CALL' + s, t, globals_={'firstarg': N('outer') if first else Z},
                        live=('outer',), returns={'listnodes.rec': takefirst})
            calls(L, C, s, size, first, ltr, callb)
            n += 1
    # a tree listed before, and none
    t = tree(C, {}, 'p', 'ADD', 'I', 4, 2)
    t['p', o['tree', 'node']] = N('before')
    L = Listing(r, C, 'a tree listed before', t, live=('before',))
    for ctx, ev, val, where, st in L.R.paths():
        if ev or val != N('before'):
            L.R.bad(where, 'is listed again')
    L = Listing.__new__(Listing)
    R = DRun(r, C, 'listnodes', [Z, O, O], 'no tree')
    for ctx, ev, val, where, st in R.paths():
        if ev or val != Z:
            R.bad(where, 'makes nodes')
    return n


def keepfirst(pol, eng, st, args):
    return pol.listnodes(pol, eng, st, args)


def getg(eng, st, n):
    return eng.mem_load(st, ('b', 'g', n), con(0, 64), 8, llir.PTR)


def cellat(pol, st, n, init):
    """value of a global on this path"""
    for e in reversed(st.ev):
        if e[0] == 'store' and e[1] == ('b', 'g', n):
            return e[4]
    return init


def takefirst(pol, eng, st, args):
    """arguments take the address of the result"""
    st.ev += (('call', 'firstis', (cellat(pol, st, 'firstarg', pol.globals_['firstarg']),), Z,
               ''),)
    v = pol.listnodes(pol, eng, st, args)
    x = pol.fresh(eng, 'firstleft')
    pol.setg(eng, st, 'firstarg', x)
    return v


def args(L, C, want, first, ends):
    for ctx, ev, val, where, st in L.R.paths():
        try:
            w = want(ctx)
            i = w.index(('FIRST',))
            fa = [('listnodes', (N('first'), O, O))] if first else []
            env = match(w[:i] + fa + w[i + 1:], ev, ctx)
            if first and cellat(L.R.pol, st, 'firstarg', None) != Z:
                raise No('the address of the result is passed again')
            ends(ctx, st, env, L.R)
        except No as e:
            L.R.bad(where, str(e))


def calls(L, C, s, size, first, ltr, callb):
    o = C.o
    K0, K1 = P('p', 0), P('p', 1)
    for ctx, ev, val, where, st in L.R.paths():
        try:
            fs = [e[1][0] for e in ev if e[0] == 'firstis']
            es = [e for e in ev if e[0] != 'firstis']
            struct = s == 'B' and not callb
            arg = sym('tree(%s,TpK1,pK1,0)' % show(con(C.c['ARG'] + C.c['P'], 32)), 64)
            if struct:
                kind = code(C, 'CALL', 'V', 0)
                lst = [('listnodes', (K0, O, O), 'l')]
                left = N('firstleft@%d' % int(single(es[0][2])[1].split('@')[1]) + '') \
                    if False else None
                if fs and not eq(ctx, fs[0], arg if ltr else Z):
                    raise No('the address of the result is not the first argument')
                # listed here if the arguments did not take it
                n = [e for e in es if e[0] == 'listnodes']
                done = len(n) > 1
                if done:
                    lst += [('listnodes', (arg, O, O))]
                fl = [e for e in st.ev if e[0] == 'store' and e[1] == ('b', 'g', 'firstarg') and
                      single(e[4]) and str(single(e[4])[1]).startswith('firstleft')]
                if ltr and fl:
                    zero = icmp('eq', fl[0][4], Z)
                    if done and known(ctx, zero) or not done and not known(ctx, zero):
                        raise No('the address of the result is passed %s' % (
                            'twice' if done else 'never'))
                    if done and not known(ctx, neg(zero)):
                        raise No('the address of the result may be passed twice')
                w = lst
            else:
                kind = code(C, 'CALL', s, 0 if s == 'B' else size)
                w = [('or', [('listnodes', (K0, O, O), 'l'), ('listnodes', (K1, O, O), 'r')],
                      [('listnodes', (K1, O, O), 'r'), ('listnodes', (K0, O, O), 'l')])]
                if fs and fs[0] != Z:
                    raise No('the address of the result of a call around it is taken by this one')
            w += [('newnode', (kind, 'l', Z if struct else 'r', '_'), 'p'), ('list', ('p',)),
                  ('R',)]
            env = match(w, [e for e in es if e[0] not in ('allocate',)], ctx)
            if not eq(ctx, val, env['p']):
                raise No('returns %s' % show(val))
            x = cellat(L.R.pol, st, 'firstarg', None)
            if x is not None and x != (N('outer') if first else Z):
                raise No('firstarg is not restored')
            y = L.R.final(st, env['p'], o['node', 'syms'])
            ty = None
            for e in st.ev:
                if e[0] == 'store' and y and e[1] == single(y) and \
                        e[2] == con(o['symbol', 'type'], 64):
                    ty = e[4]
            if ty != N('TF'):
                raise No('the type of the function is not kept')
            m = L.R.final(st, N('p'), o['tree', 'node'])
            if m is None or not eq(ctx, m, env['p']):
                raise No('does not remember the node made')
        except No as e:
            L.R.bad(where, str(e))


def assignments(r, C):
    """an assignment makes what was loaded from the object unknown"""
    o, n = C.o, 0
    K0, K1 = P('p', 0), P('p', 1)
    for s, size in (('I', 1), ('I', 2), ('I', 4), ('U', 4), ('F', 4), ('P', 4), ('B', 12)):
        for op in ('ADDRG', 'ADDRF', 'ADDRL', 'ADD', 'INDIR', 'CVP'):
            for computed in ((0, 1) if op[:4] == 'ADDR' else (0,)):
                t = tree(C, {}, 'p', 'ASGN', s, size, 2)
                tree(C, t, 'pK0', op, 'P', 4, 2)
                tree(C, t, 'pK1', 'ADD', s, size, 2)
                t['pK1', o['tree', 'type']] = N('TR')
                t['TR', o['type', 'size']] = con(size, 32)
                t['TR', o['type', 'align']] = sym('align', 32)
                t['pK0', o['tree', 'u.sym']] = N('obj')
                b, v = C.flag('symbol', 'computed', computed)
                t['obj', b] = con(v, 8)
                L = Listing(r, C, 'ASGN%s%d to %s%s' % (s, size, op, ' (computed)' if computed
                                                        else ''), t)
                forget = ('K', N('obj')) if op[:4] == 'ADDR' and not computed else ('R',)
                want = either(('listnodes', (K0, O, O), 'l'), ('listnodes', (K1, O, O), 'r'),
                              ('newnode', (code(C, 'ASGN', s, 0 if s == 'B' else size), 'l', 'r',
                                           Z), 'a'), ('list', ('a',)), forget,
                              ('or', [('listnodes', (K1, O, O), 'p')], [('same', 'r', 'p')]))
                L.expect(want[:-1] + [('listnodes', (K1, O, O), 'p')], result='p',
                         also=lambda ctx, st, env, R, size=size: asgnsize(C, st, env, R, size))
                n += 1
    return n


def asgnsize(C, st, env, R, size):
    for off, v in ((0, 'intconst(%s)' % show(con(size, 32))), (8, 'intconst(align)')):
        x = R.final(st, env['a'], C.o['node', 'syms'] + off)
        if x != sym(v, 64):
            raise No('the %s is %s' % ('alignment' if off else 'size', show(x) if x else
                                       'not stated'))


class Bits:
    """the bits of trees over a storage unit and a value"""

    def __init__(self, C, pol, ctx, leaf):
        self.C, self.pol, self.ctx, self.leaf = C, pol, ctx, leaf

    def const(self, t):
        if not is_con(t):
            raise No('a mask or count that is not constant')
        return cval(t)

    def of(self, t):
        """(bits, unsigned)"""
        if t in self.leaf:
            return self.leaf[t]
        f = self.pol.terms.get(single(t)) if t[0] == 'l' else None
        if f is None:
            raise No('computes with %s' % show(t))
        n, a = f
        if n == 'cnsttree':
            k = self.const(a[1])
            return [('c', k >> i & 1) for i in range(32)], a[0] == N('unsignedtype')
        if n == 'cast' and a[1] in (N('unsignedtype'), N('inttype')):
            return self.of(a[0])[0], a[1] == N('unsignedtype')
        if n in ('rvalue', 'lvalue') and self.pol.terms.get(single(a[0]), ('',))[0] in (
                'rvalue', 'lvalue'):
            return self.of(self.pol.terms[single(a[0])][1][0])
        if n in ('bittree', 'simplify') and n == 'bittree':
            op = {v: k for k, v in self.C.c.items() if k in ('BAND', 'BOR', 'BXOR')}.get(
                self.const(a[0]))
            (x, ux), (y, uy) = self.of(a[1]), self.of(a[2])
            return [self.bit(op, p, q) for p, q in zip(x, y)], ux or uy
        if n == 'shtree':
            x, u = self.of(a[1])
            k, _ = self.of(a[2])
            if any(b[0] != 'c' for b in k):
                raise No('shifts by a value that is not constant')
            k = sum(b[1] << i for i, b in enumerate(k))
            if k > 31:
                raise No('shifts by %d' % k)
            zero = ('c', 0)
            if self.const(a[0]) == self.C.c['LSH']:
                return [zero] * k + x[:32 - k], u
            if self.const(a[0]) == self.C.c['RSH']:
                return x[k:] + [zero if u else x[31]] * k, u
        raise No('computes with %s' % show(t))

    @staticmethod
    def bit(op, a, b):
        if a[0] != 'c':
            a, b = b, a
        if a[0] == 'c':
            if op == 'BAND':
                return b if a[1] else a
            if op == 'BOR':
                return a if a[1] else b
            if op == 'BXOR' and not a[1]:
                return b
            if op == 'BXOR' and b[0] == 'c':
                return ('c', 1 - b[1])
        if a == b and op in ('BAND', 'BOR'):
            return a
        return (op, a, b)


def bitsof(x):
    return [(x, i) for i in range(32)]


def fields(r, C):
    """bit fields are read with their sign, and written without a change of their neighbours"""
    o, n = C.o, 0
    for w in range(1, 33):
        for right in sorted({0, (32 - w) // 2, 32 - w}):
            for uns in (0, 1):
                T = 'unsignedtype' if uns else 'inttype'
                fld = {('f', o['field', 'type']): N(T), ('f', o['field', 'bitsize']): con(w, 16),
                       ('f', o['field', 'lsb']): con(right + 1, 16)}
                read(r, C, w, right, uns, T, fld)
                write(r, C, w, right, uns, T, fld, 'ADD')
                if right != (32 - w) // 2 or w in (1, 32):
                    write(r, C, w, right, uns, T, fld, 'CNST')
                n += 3
    return n


def read(r, C, w, right, uns, T, fld):
    o = C.o
    t = tree(C, dict(fld), 'p', 'FIELD', None, 4, 1, ty=T)
    t['p', o['tree', 'u.field']] = N('f')
    tree(C, t, 'pK0', 'INDIR', 'U' if uns else 'I', 4, 1, ty=T)
    L = Listing(r, C, 'a field of %d bits from bit %d' % (w, right), t)
    for ctx, ev, val, where, st in L.R.paths():
        try:
            ls = [e for e in ev if e[0] == 'listnodes']
            if len(ls) != 1 or [e for e in ev if e[0] not in ('listnodes', 'reset')]:
                raise No('%d trees are listed' % len(ls))
            B = Bits(C, L.R.pol, ctx, {P('p', 0): (bitsof('o'), bool(uns))})
            got, u = B.of(ls[0][1][0])
            want = [('o', right + i) for i in range(w)]
            want += [('c', 0) if uns else ('o', right + w - 1)] * (32 - w)
            if got != want:
                raise No('is read as %s' % bitshow(got))
            if ls[0][1][1:] != (O, O) or val != ls[0][2]:
                raise No('is not its value')
        except No as e:
            L.R.bad(where, str(e))


def bitshow(bs):
    return ' '.join(str(b[1]) if b[0] == 'c' else '%s%s' % b if len(b) == 2 and b[0] in 'oq'
                    else '?' for b in reversed(bs))


def write(r, C, w, right, uns, T, fld, qop):
    o = C.o
    K1 = P('p', 1)
    t = tree(C, dict(fld), 'p', 'ASGN', 'U' if uns else 'I', 4, 2)
    tree(C, t, 'pK0', 'FIELD', None, 4, 1, ty=T)
    t['pK0', o['tree', 'u.field']] = N('f')
    tree(C, t, 'pK0K0', 'INDIR', 'U' if uns else 'I', 4, 1, ty=T)
    tree(C, t, 'pK1', qop, 'U' if uns else 'I', 4, 2 if qop != 'CNST' else 0, ty=T)
    v = sym('v', 64)
    if qop == 'CNST':
        t['pK1', o['tree', 'u.v']] = v
    t[T, o['type', 'align']] = con(4, 32)
    kind = con(C.c['ASGN'] + C.c['U'] + (4 << 10), 32)
    kind2 = con(C.c['ASGN'] + C.c['I'] + (4 << 10), 32)

    def typed(pol, eng, st, args):
        """the type of a tree made"""
        return None
    L = Listing(r, C, 'an assignment to a field of %d bits at bit %d' % (w, right), t,
                returns={'ttob': lambda pol, eng, st, a: con(
                    C.c['U' if uns or w < 32 else 'I'] + (4 << 10), 32)})
    x = N('pK0K0')
    for ctx, ev, val, where, st in L.R.paths():
        try:
            pol = L.R.pol
            lv = sym('lvalue(pK0K0)', 64)
            fresh = sym('rvalue(lvalue(pK0K0))', 64)
            evs = [e for e in ev]
            # the address, the value to store
            ls = [i for i, e in enumerate(evs) if e[0] == 'listnodes']
            asg = [i for i, e in enumerate(evs) if e[0] == 'newnode']
            if any(evs[i][1][1:] != (O, O) for i in ls):
                raise No('a value is listed as condition')
            if len(asg) != 1 or not eq(ctx, evs[asg[0]][1][0], kind) and \
                    not eq(ctx, evs[asg[0]][1][0], kind2):
                raise No('no assignment is made')
            a = asg[0]
            ladr = [i for i in ls if evs[i][1][0] == lv and i < a]
            lval = [i for i in ls if evs[i][2] == evs[a][1][2] and i < a]
            if not ladr or evs[ladr[-1]][2] != evs[a][1][1] or not lval:
                raise No('does not store to the unit the field is in')
            Q = evs[lval[-1]][1][0]
            first = [i for i in ls if evs[i][1][0] == K1 and i < a]
            ones = (1 << w) - 1
            q = bitsof('q')
            if qop == 'CNST':
                if known(ctx, icmp('eq', v, con(0, 64))):
                    q = [('c', 0)] * 32
                elif known(ctx, icmp('eq', and_(v, con(ones, 64)), con(ones, 64))):
                    q = [('c', 1)] * w + q[w:]
            leaf = {x: (bitsof('o'), bool(uns)), fresh: (bitsof('o'), bool(uns)),
                    K1: (q, bool(uns))}
            got, u = Bits(C, pol, ctx, leaf).of(Q)
            want = [q[i - right] if right <= i < right + w else ('o', i) for i in range(32)]
            if [g for g in got] != want:
                raise No('stores %s' % bitshow(got))
            if Q != K1 and not ([i for i in ls[:1]] and 'reset' in [
                    e[0] for e in evs[:lval[-1]]]):
                raise No('the unit may be one loaded before')
            if qop != 'CNST' and w < 32:
                # evaluating the value may change the unit
                if not first or first[0] > lval[-1]:
                    raise No('the unit is loaded in front of the value that is stored')
                if uses(pol, Q, x):
                    raise No('the unit that is stored is loaded in front of the value')
            if not any(e[0] == 'list' and e[1][0] == evs[a][2] for e in evs[a:]):
                raise No('the assignment is not listed')
            if 'reset' not in [e[0] for e in evs[a:]]:
                raise No('values loaded are not forgotten after the assignment')
            if not any(e[0] == 'listnodes' and e[1][0] == K1 and e[2] == val for e in evs):
                raise No('its value is not that which is assigned')
            for off in (0, 8):
                y = L.R.final(st, evs[a][2], o['node', 'syms'] + off)
                if y != sym('intconst(%s)' % show(con(4, 32)), 64):
                    raise No('the size or alignment is not stated')
        except No as e:
            L.R.bad(where, str(e))


def uses(pol, t, x):
    if t == x:
        return True
    f = pol.terms.get(single(t)) if t and t[0] == 'l' else None
    return bool(f) and f[0] != 'lvalue' and any(uses(pol, a, x) for a in f[1])


def rd(R, st, base, off, bits=64):
    """memory at the end of a path"""
    b = single(base) if base[0] == 'l' else base
    v = R.pol.load_hook(R.eng, st, None, b, con(off, 64), bits // 8)
    if v is not None:
        return v
    return R.eng.mem_load(st, b, con(off, 64), bits // 8,
                          llir.PTR if bits == 64 else ('i', bits))


def glob(R, st, n, bits=64):
    return rd(R, st, ('b', 'g', n), 0, bits)


def expect(R, where, what, got, want, ctx):
    if not eq(ctx, got, want):
        R.bad(where, '%s is %s instead of %s' % (what, show(got), show(want)))


def running(r, C, fn, args, what, types=None, globals_=None, facts=(), live=(), returns=None,
            **kw):
    t = base_types(C)
    t.update(types or {})
    g = {n: N(x) for n, x in GLOB.items()}
    g.update(globals_ or {})
    ret = {'allocate': allocate, 'memset': None}
    ret.update(returns or {})
    return DRun(r, C, fn, args, what, types=t, globals_=g, facts=facts, live=live, returns=ret,
                **kw)


def allocate(pol, eng, st, args):
    v = pol.fresh(eng, 'mem')
    st.ctx.assume(icmp('ne', v, Z))
    return v


OPV = sym('op', 32)
BIG = icmp('slt', sym('nodecount', 32), con(1 << 24, 32))


def nodes(r, C):
    """nodes have the operator, operands and symbol asked for and count their uses"""
    o = C.o
    for l, k in ((Z, Z), (N('l'), Z), (N('l'), N('r')), (N('l'), N('l'))):
        R = running(r, C, 'newnode', [OPV, l, k, N('s')], 'a node with %d operands' % (
            (l != Z) + (k != Z)), live=[single(x)[1] for x in (l, k) if x != Z])
        for ctx, ev, val, where, st in R.paths():
            made(R, C, ctx, st, val, where, l, k)
    # the table: chains of up to two nodes
    for l, k in ((N('l'), N('r')), (N('l'), N('l')), (N('l'), Z), (Z, Z)):
        for n in (0, 1, 2):
            t = {}
            for i in range(n):
                t['H%d' % i, C.hlink] = N('H%d' % (i + 1)) if i + 1 < n else Z
            head = N('H0') if n else Z
            R = running(r, C, 'node', [OPV, l, k, N('s')], 'a node looked for among %d' % n,
                        types=t, live=[single(x)[1] for x in (l, k) if x != Z],
                        globals_={'nodecount': sym('nodecount', 32)},
                        tables={'buckets': head},
                        facts=[icmp('sle', O, sym('nodecount', 32)), BIG])
            for ctx, ev, val, where, st in R.paths():
                a = single(val)
                if a and a[0] == 's' and a[1].startswith('H'):
                    for f, off, w, x in (('operator', o['node', 'op'], 16, trunc(OPV, 16)),
                                         ('symbol', o['node', 'syms'], 64, N('s')),
                                         ('first operand', o['node', 'kids'], 64, l),
                                         ('second operand', o['node', 'kids'] + 8, 64, k)):
                        g = atom(('ld', a, con(off, 64), w, 0)) if False else rd(R, st, val, off,
                                                                                w)
                        if f == 'operator':
                            if not eq(ctx, g, x) and not eq(ctx, sext(g, 32), OPV):
                                R.bad(where, 'another operator is taken for the one asked for')
                        elif not eq(ctx, g, x):
                            R.bad(where, 'a node with another %s is taken' % f)
                    continue
                made(R, C, ctx, st, val, where, l, k)
                b = [e for e in st.ev if e[0] == 'store' and e[1] == ('b', 'g', 'buckets')]
                h = [e for e in st.ev if e[0] == 'store' and e[1] == a and
                     e[2] == con(C.hlink, 64)]
                if b and (b[-1][4] != val or not h or h[-1][4] != head):
                    R.bad(where, 'the nodes in the table are lost')
                c = glob(R, st, 'nodecount', 32)
                if b and not known(ctx, icmp('slt', O, c)):
                    R.bad(where, 'the table is not known to be in use')


def made(R, C, ctx, st, val, where, l, k):
    o = C.o
    if single(val) is None or not str(single(val)[1]).startswith('mem@'):
        R.bad(where, 'returns %s' % show(val))
        return
    expect(R, where, 'its operator', rd(R, st, val, o['node', 'op'], 16), trunc(OPV, 16), ctx)
    expect(R, where, 'its symbol', rd(R, st, val, o['node', 'syms']), N('s'), ctx)
    expect(R, where, 'its count', rd(R, st, val, o['node', 'count'], 16), con(0, 16), ctx)
    expect(R, where, 'its link', rd(R, st, val, o['node', 'link']), Z, ctx)
    for i, x in enumerate((l, k)):
        expect(R, where, 'an operand', rd(R, st, val, o['node', 'kids'] + 8 * i), x, ctx)
        if x != Z:
            n = 2 if l == k else 1
            c0 = atom(('ld', single(x), con(o['node', 'count'], 64), 16, 0))
            c = rd(R, st, x, o['node', 'count'], 16)
            d = sub(c, oldcount(R, x))
            if d != con(n, 16):
                R.bad(where, 'an operand is used %d times, %s are counted' % (n, show(d)))


def oldcount(R, x):
    s0 = State()
    return R.eng.mem_load(s0, single(x), con(R.C.o['node', 'count'], 64), 2, ('i', 16))


def tables(r, C):
    """forgetting empties the table, assignments forget what they may change"""
    o = C.o
    R = running(r, C, 'reset', [], 'reset()', globals_={'nodecount': sym('nodecount', 32)})
    for ctx, ev, val, where, st in R.paths():
        zero = icmp('eq', sym('nodecount', 32), O)
        c = glob(R, st, 'nodecount', 32)
        for i in range(16):
            h = rd(R, st, ('b', 'g', 'buckets'), 8 * i)
            if h != Z and not known(ctx, icmp('sle', sym('nodecount', 32), O)):
                R.bad(where, 'slot %d of the table is not emptied' % i)
                break
        if not eq(ctx, c, O):
            if not known(ctx, icmp('sle', c, O)):
                R.bad(where, 'nodecount becomes %s' % show(c))
    f = C.mod.funcs.get('kill')
    if f is None or not f.blocks:
        return                  # everything is forgotten instead
    for slot in (0, 1, 7, 15):
        for kinds in ((), ('x',), ('p',), ('+',), ('1',), ('p', 'x'), ('x', 'p'), ('+', 'p'),
                      ('1', '+'), ('p', '+'), ('f', 'p'), ('x', '1', '+')):
            for adr in ('ADDRG', 'ADDRL', 'ADDRF'):
                kill(r, C, slot, kinds, adr)


def kill(r, C, slot, kinds, adr):
    """kinds of the nodes in a slot: loads from p, from a different object, through a pointer, and
    other nodes"""
    o = C.o
    t, names = {}, []
    ind = C.c['INDIR'] + C.c['I'] + (4 << 10)
    for i, k in enumerate(kinds):
        n = 'H%d' % i
        names.append(n)
        op = {'1': C.c['ADD'] + C.c['I'] + (4 << 10), 'f': C.c['INDIR'] + C.c['F'] + (4 << 10)}
        t[n, o['node', 'op']] = con(op.get(k, ind), 16)
        t[n, o['node', 'kids']] = N(n + 'K')
        t[n, C.hlink] = N('H%d' % (i + 1)) if i + 1 < len(kinds) else Z
        a = C.c[adr] + C.c['P'] + (4 << 10)
        t[n + 'K', o['node', 'op']] = con(C.c['ADD'] + C.c['P'] + (4 << 10) if k in '+1' else a, 16)
        t[n + 'K', o['node', 'syms']] = Z if k in '+1' else N('q' if k == 'x' else 'p')
    cells = {8 * i: Z for i in range(16)}
    cells[8 * slot] = N('H0') if kinds else Z
    R = running(r, C, 'kill', [N('p')], 'kill() of %s' % adr, types=t, live=('p', 'q'),
                facts=[icmp('ne', N('p'), N('q')), BIG,
                       icmp('sle', con(len(kinds), 32), sym('nodecount', 32))],
                globals_={'nodecount': sym('nodecount', 32)}, tables={'buckets': cells})
    for ctx, ev, val, where, st in R.paths():
        left, cur = [], rd(R, st, ('b', 'g', 'buckets'), 8 * slot)
        while cur != Z and len(left) <= len(kinds):
            a = single(cur)
            if not a or a[0] != 's' or a[1] not in names:
                R.bad(where, 'the table is damaged')
                break
            left.append(a[1])
            cur = rd(R, st, cur, C.hlink)
        else:
            for n, k in zip(names, kinds):
                if k in 'p+f' and n in left:
                    R.bad(where, 'a value loaded %s is kept' % (
                        'through a pointer' if k == '+' else 'from the object assigned to'))
                    break
        c = glob(R, st, 'nodecount', 32)
        if not known(ctx, icmp('sle', con(len(left), 32), c)):
            R.bad(where, 'the table is taken for empty')


def lists(r, C):
    """the nodes listed are in a circle that ends in the last one"""
    o = C.o
    op, link, syms = o['node', 'op'], o['node', 'link'], o['node', 'syms']
    for p in (0, 1):
        for listed in (0, 1):
            for f in (0, 1):
                t = {('p', link): N('other') if listed else Z} if p else {}
                if f:
                    t['f', link] = N('first')
                R = running(r, C, 'list', [N('p') if p else Z], 'a node listed', types=t,
                            globals_={'forest': N('f') if f else Z}, live=('other', 'first'))
                for ctx, ev, val, where, st in R.paths():
                    g = glob(R, st, 'forest')
                    if not p or listed:
                        if g != (N('f') if f else Z) or [e for e in st.ev if e[0] == 'store' and
                                                        e[1] != ('b', 'g', 'forest')]:
                            R.bad(where, 'a node that is listed, or none, is listed')
                        continue
                    if g != N('p'):
                        R.bad(where, 'the last node of the list is %s' % show(g))
                    pl = rd(R, st, N('p'), link)
                    if pl != (N('first') if f else N('p')) or \
                            f and rd(R, st, N('f'), link) != N('p'):
                        R.bad(where, 'the list is not linked')
    lab = sym('lab', 32)
    L = sym('findlabel(lab)', 64)
    for kind in ('none', 'label', 'other'):
        t = {}
        if kind != 'none':
            t['f', op] = con(C.c['LABEL'] + C.c['V'] if kind == 'label' else
                             C.c['RET'] + C.c['V'], 16)
            t['f', syms] = N('old')
        R = running(r, C, 'labelnode', [lab], 'a label (behind %s)' % kind, types=t,
                    globals_={'forest': Z if kind == 'none' else N('f')},
                    facts=[icmp('slt', O, lab)])
        for ctx, ev, val, where, st in R.paths():
            new = [('newnode', (code(C, 'LABEL', 'V', 0), Z, Z, L), 'p'), ('list', ('p',))]
            equ = [('equatelab', (L, N('old')))]
            w = [('or', equ, new) if kind == 'label' else ('or', new), ('R',)]
            w2 = [('or', [('R',)] + equ, [('R',)] + new) if kind == 'label' else
                  ('or', [('R',)] + new)]
            try:
                try:
                    match(w, ev, ctx)
                except No:
                    if kind != 'label':
                        raise
                    # no nodes are made behind it
                    match(w2, ev, ctx)
            except No as e:
                R.bad(where, str(e))
    for n in (2, 3, 4):
        t = {('f%d' % i, link): N('f%d' % ((i + 1) % n)) for i in range(n)}
        R = running(r, C, 'unlist', [], 'the last of %d nodes is removed' % n, types=t,
                    globals_={'forest': N('f%d' % (n - 1))},
                    facts=[icmp('ne', N('f%d' % i), N('f%d' % j)) for i in range(n)
                           for j in range(i)])
        for ctx, ev, val, where, st in R.paths():
            if glob(R, st, 'forest') != N('f%d' % (n - 2)) or \
                    rd(R, st, N('f%d' % (n - 2)), link) != N('f0'):
                R.bad(where, 'the list is not linked')
            if [i for i in range(n - 2) if rd(R, st, N('f%d' % i), link) != N('f%d' % (i + 1))]:
                R.bad(where, 'the list is not linked')
    # walk(): the nodes listed become the next code
    for f in (0, 1):
        t = {('f', link): N('first')} if f else {}

        def listing(pol, eng, st, a, f=f):
            pol.setg(eng, st, 'forest', N('f') if f else Z)
            return pol.fresh(eng, 'L')
        R = running(r, C, 'walk', [N('tp'), sym('tl', 32), sym('fl', 32)], 'walk()', types=t,
                    globals_={'forest': N('before')}, live=('first', 'cp'), returns={
                        'listnodes': listing, 'code': lambda pol, eng, st, a: N('cp'),
                        'undag': lambda pol, eng, st, a: sym('undag', 64)})
        for ctx, ev, val, where, st in R.paths():
            try:
                w = [('listnodes', (N('tp'), sym('tl', 32), sym('fl', 32)))]
                un, cd = ('undag', (N('first'),)), ('code', (con(C.c['Gen'], 32),))
                if f:
                    w += [('or', [un, cd], [cd, un])]
                dag_ = C.flags >> (C.bits['interface', 'wants_dag'] % 8) & 1
                match(w + [('R',), ('deallocate', (con(C.c['STMT'], 32),))],
                      ev, ctx)
                if f:
                    expect(R, where, 'the code', rd(R, st, N('cp'), o['code', 'u.forest']),
                           sym('undag', 64), ctx)
                    expect(R, where, 'the end of the list', rd(R, st, N('f'), link), Z, ctx)
                expect(R, where, 'forest', glob(R, st, 'forest'), Z, ctx)
            except No as e:
                R.bad(where, str(e))


def visitor(pol, eng, st, args):
    """visit() of an operand: may append assignments of its own"""
    return pol.fresh(eng, 'V')


def visits(r, C):
    """a node with several uses is evaluated once, in front of its first use"""
    o = C.o
    n = 0
    R = running(r, C, 'visit', [Z, sym('listed', 32)], 'visit() of nothing',
                returns={'visit.rec': visitor})
    for ctx, ev, val, where, st in R.paths():
        if val != Z or ev:
            R.bad(where, 'returns %s' % show(val))
    cases = (('ADD', 'I', 2), ('SUB', 'P', 2), ('NEG', 'F', 1), ('CVI', 'I', 1), ('INDIR', 'I', 1),
             ('INDIR', 'F', 1), ('INDIR', 'B', 1), ('CALL', 'I', 1), ('CALL', 'P', 1),
             ('CALL', 'V', 1), ('ADDRL', 'P', 0), ('ADDRF', 'P', 0), ('ADDRG', 'P', 0),
             ('CNST', 'I', 0), ('MUL', 'I', 2), ('ASGN', 'I', 2), ('RET', 'I', 1), ('EQ', 'I', 2),
             ('INDIR', 'I', 1, 1), ('INDIR', 'U', 1, 2))
    for g, s, nk, *sz in cases:
        size = sz[0] if sz else 0 if s in 'VB' else 4
        op = C.c[g] + C.c[s] + (size << 10)
        for count in (0, 1, 2, 3, None):
            for temp in (0, 1):
                for listed in (0, 1):
                    if temp and g in ('ASGN', 'RET', 'EQ') or (
                            g in ('ASGN', 'RET', 'EQ') and count != 0):
                        continue
                    if g == 'CALL' and s == 'V' and count != 0:
                        continue
                    if listed and g in ('ADDRL', 'ADDRF', 'ADDRG', 'CNST') or listed and \
                            (g, s) == ('INDIR', 'B'):
                        continue        # not listed
                    visit1(r, C, g, s, nk, op, count, temp, listed)
                    n += 1
    return n


def visit1(r, C, g, s, nk, op, count, temp, listed):
    o = C.o
    what = '%s%s used %s times%s' % (g, s, 'many' if count is None else count,
                                     ', in a temporary' if temp else '')
    cnt = sym('count', 16) if count is None else con(count, 16)
    t = {('p', o['node', 'op']): con(op, 16), ('p', o['node', 'count']): cnt,
         ('p', o['node', 'syms']): N('s0'), ('p', o['node', 'syms'] + 8): N('s1'),
         ('p', o['node', 'syms'] + 16): N('tmp') if temp else Z,
         ('p', o['node', 'link']): N('plink')}
    for k in range(2):
        t['p', o['node', 'kids'] + 8 * k] = N('k%d' % k) if k < nk else Z
    for x in ('tmp', 'newtmp'):
        t[x, o['symbol', 'type']] = N('TT')
        t[x, C.bits['symbol', 'defined'] // 8] = con(0, 8)
    t['TT', o['type', 'size']] = con(4, 32)
    t['TT', o['type', 'align']] = con(4, 32)
    facts = []
    if count is None:
        facts = [icmp('slt', con(3, 16), cnt)]
    elif temp and count < 1:
        return
    kind = {'F': 'F', 'P': 'P', 'U': 'U'}.get(s, 'I')
    tt = con(C.c[kind] + (4 << 10), 32)
    vp = con(C.c['P'] + (4 << 10), 32)
    R = running(r, C, 'visit', [N('p'), con(listed, 32)], what, types=t, facts=facts,
                globals_={'tail': N('cell')}, live=('newtmp', 'cell'), returns={
                    'visit.rec': visitor, 'temporary': lambda pol, eng, st, a: N('newtmp'),
                    'ttob': lambda pol, eng, st, a: {N('TT'): tt, N('voidptype'): vp}.get(a[0]),
                    'btot': lambda pol, eng, st, a: sym('btot(%s,%s)' % (
                        show(a[0]), show(a[1])), 64)})
    call = g == 'CALL'
    for ctx, ev, val, where, st in R.paths():
        try:
            kids = [('visit', (N('k%d' % k),), 'v%d' % k) for k in range(nk)]
            ev = [e for e in ev if not (e[0] == 'visit' and e[1][0] == Z)]
            if temp:
                env = match(useof(C, N('tmp'), tt, vp), ev, ctx)
                same_use(R, C, ctx, st, val, env, N('p'), count, cnt)
                continue
            once = count == 0 if call else count in (0, 1)
            vs = [e for e in ev if e[0] == 'visit']
            rest = [e for e in ev if e[0] != 'visit']
            if once:
                if rest or val != N('p'):
                    raise No('a node that is used once is not left where it is')
                visited(R, C, ctx, st, N('p'), vs, nk)
                continue
            if g in ('ADDRL', 'ADDRF', 'ADDRG', 'CNST') and rest and \
                    rest[0][0] == 'newnode' and eq(ctx, rest[0][1][0], con(op, 32)):
                env = match([('newnode', (con(op, 32), Z, Z, N('s0')), 'n')], rest, ctx)
                if val != env['n'] or rd(R, st, val, o['node', 'count'], 16) != con(1, 16):
                    raise No('the copy is not used')
                continue
            if (g, s) == ('INDIR', 'B'):
                env = match([('newnode', (con(op, 32), N('k0'), Z, '_'), 'n')], rest, ctx)
                if val != env['n']:
                    raise No('the copy is not used')
                visited(R, C, ctx, st, val, vs, nk)
                if rd(R, st, val, o['node', 'count'], 16) != con(1, 16):
                    raise No('the count of the copy')
                continue
            # evaluated into a temporary in front of the first use
            want = [('temporary', ('_', sym('btot(%s,%s)' % (show(con(op, 32)), show(con(op >> 10, 32))),
                                            64)))]
            want += [('newnode', (add(con(C.c['ADDRL'], 32), vp), Z, Z, N('newtmp')), 'a'),
                     ('newnode', (add(con(C.c['ASGN'], 32), tt), 'a', N('p'), '_'), 'n')]
            u = [] if listed else useof(C, N('newtmp'), tt, vp)
            env = match(want + u, [e for e in rest], ctx)
            for e in ev:
                if e[0] == 'newnode':
                    break
            if [e for e in ev[ev.index(rest[1]):] if e[0] == 'visit']:
                raise No('the operands are not looked at in front of the assignment')
            visited(R, C, ctx, st, N('p'), vs, nk)
            for off in (0, 8):
                if rd(R, st, env['n'], o['node', 'syms'] + off) != sym(
                        'intconst(%s)' % show(con(4, 32)), 64):
                    raise No('the size or alignment of the assignment')
            if rd(R, st, N('p'), o['node', 'syms'] + 16) != N('newtmp') and (
                    listed or count != 1):
                raise No('its temporary is not remembered')
            if rd(R, st, N('cell'), 0) != env['n'] or glob(R, st, 'tail') != addc(
                    env['n'], o['node', 'link']):
                raise No('the assignment is not appended')
            if listed:
                if val != N('p'):
                    raise No('returns %s' % show(val))
            else:
                same_use(R, C, ctx, st, val, env, N('p'), count, cnt)
        except No as e:
            R.bad(where, str(e))
        except (ValueError, IndexError) as e:
            R.bad(where, 'is not evaluated once')


def useof(C, tmp, tt, vp):
    return [('newnode', (add(con(C.c['ADDRL'], 32), vp), Z, Z, tmp), 'x'),
            ('newnode', (add(con(C.c['INDIR'], 32), tt), 'x', Z, '_'), 'y')]


def same_use(R, C, ctx, st, val, env, p, count, cnt):
    """one use less; the temporary is known as long as there are more"""
    o = C.o
    if val != env['y']:
        raise No('the temporary is not used')
    if rd(R, st, val, o['node', 'count'], 16) != con(1, 16):
        raise No('the use of the temporary is counted %s times' % show(
            rd(R, st, val, o['node', 'count'], 16)))
    c = rd(R, st, p, o['node', 'count'], 16)
    if c != addc(cnt, -1):
        raise No('its uses are not counted')
    x = rd(R, st, p, o['node', 'syms'] + 16)
    if x == Z and not known(ctx, icmp('eq', c, con(0, 16))):
        raise No('its temporary is forgotten')


def visited(R, C, ctx, st, p, vs, nk):
    o = C.o
    seen = set()
    for e in vs:
        for k in range(nk):
            if e[1][0] == N('k%d' % k):
                if k in seen:
                    raise No('an operand is looked at twice')
                seen.add(k)
                if not eq(ctx, e[1][1], O):
                    raise No('an operand is taken for a node listed')
                if rd(R, st, p, o['node', 'kids'] + 8 * k) != e[2]:
                    raise No('what was made of an operand is not used')
    if len(seen) != nk:
        raise No('an operand is not looked at')


def undags(r, C):
    """what is listed stays in order, loads and used calls are evaluated there"""
    o = C.o
    link = o['node', 'link']
    n = 0
    kinds = {'a': ('ASGN', 'I', 0), 'i': ('INDIR', 'I', 2), 'c': ('CALL', 'I', 2),
             'v': ('CALL', 'V', 0), 'r': ('RET', 'I', 0), 'C': ('CALL', 'I', 0)}
    for seq in ('a', 'v', 'r', 'aa', 'ia', 'ca', 'av', 'Ca', 'iar', 'cia', 'aia', 'iia', 'var', 'ai', 'aii', 'arc'):
        for app in (0, 1):
            t = {}
            names = ['n%d' % i for i in range(len(seq))]
            for i, k in enumerate(seq):
                g, s, cnt = kinds[k]
                t[names[i], o['node', 'op']] = con(C.c[g] + C.c[s] +
                                                   ((0 if s == 'V' else 4) << 10), 16)
                t[names[i], o['node', 'count']] = con(cnt, 16)
                t[names[i], link] = N(names[i + 1]) if i + 1 < len(seq) else Z
                t[names[i], o['node', 'syms'] + 16] = N('tmp%d' % i) if k in 'ic' and app else Z
                t['tmp%d' % i, o['symbol', 'u.t.cse']] = N('cse')

            def vis(pol, eng, st, args, app=app):
                # evaluates what has more than one use in front of it
                if app:
                    x = pol.fresh(eng, 'A')
                    cell = eng.mem_load(st, ('b', 'g', 'tail'), con(0, 64), 8, llir.PTR)
                    b, off = eng.split_addr(cell)
                    eng.mem_store(st, b, off, 8, x)
                    st.ev += (('store', b, off, 8, x, ''),)
                    pol.setg(eng, st, 'tail', addc(x, link))
                return args[0]
            R = running(r, C, 'undag', [N('n0')], 'nodes listed: ' + seq, types=t,
                        returns={'visit': vis}, facts=[
                            icmp('ne', N(a), N(b)) for a in names for b in names if a < b])
            for ctx, ev, val, where, st in R.paths():
                try:
                    vs = [e for e in ev if e[0] == 'visit']
                    if [e[1][0] for e in vs] != [N(x) for x in names]:
                        raise No('are not looked at once, in their order')
                    if any(known(ctx, icmp('eq', e[1][1], O)) for e in vs):
                        raise No('are taken for operands')
                    want = []
                    for i, k in enumerate(seq):
                        if app:
                            want.append('A@%d' % (i + 1))
                        if k not in 'ic':
                            want.append(names[i])
                    got, x = [], val
                    while x != Z and len(got) < 10:
                        a = single(x)
                        if not a or a[0] != 's':
                            raise No('the list is damaged: %s' % show(x))
                        got.append(a[1])
                        x = rd(R, st, x, link)
                    got = [g.split('@')[0] if g[0] == 'A' else g for g in got]
                    want = [g.split('@')[0] if g[0] == 'A' else g for g in want]
                    if got != want:
                        raise No('become %s instead of %s' % (' '.join(got), ' '.join(want)))
                    for i, k in enumerate(seq):
                        if k == 'i' and app:
                            c = rd(R, st, N('tmp%d' % i), o['symbol', 'u.t.cse'])
                            if c != Z:
                                raise No('the value kept may be loaded again later')
                            if not [e for e in ev if e[0] == 'addlocal' and
                                    e[1][0] == N('tmp%d' % i)]:
                                raise No('the temporary is not made')
                except No as e:
                    R.bad(where, str(e))
            n += 1
    return n


def equates(r, C):
    """labels made equal are replaced by the one they are equal to"""
    o = C.o
    eqt = o['symbol', 'u.l.equatedto']
    for n in range(1, 8):
        t = {('s%d' % i, eqt): N('s%d' % (i + 1)) if i + 1 < n else Z for i in range(n)}
        R = running(r, C, 'equated', [N('s0')], 'a label equal to %d others' % (n - 1), types=t,
                    facts=[icmp('ne', N('s%d' % i), N('s%d' % j)) for i in range(n)
                           for j in range(i)], returns={
                               # one that is nearer to the last one: induction
                               'equated.rec': lambda pol, eng, st, a, n=n: N('s%d' % (n - 1))
                               if a[0] in [N('s%d' % i) for i in range(1, n)] else None})
        for ctx, ev, val, where, st in R.paths():
            if val != N('s%d' % (n - 1)):
                R.bad(where, 'is replaced by %s' % show(val))
    link, op = o['node', 'link'], o['node', 'op']
    jumps = ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE')
    for g in jumps + ('JUMP', 'JUMP2', 'ASGN', 'LABEL'):
        t = {}
        for i, x in enumerate(('a', 'b', 'c')):
            k = g if i == 1 else 'RET'
            t[x, op] = con(C.c[k[:4] if k[:4] == 'JUMP' else k] + C.c['V' if k[:4] in (
                'JUMP', 'LABE', 'RET') else 'I'], 16)
            t[x, link] = N('abc'[i + 1]) if i < 2 else Z
        t['c', op] = con(C.c['EQ'] + C.c['I'] + (4 << 10), 16)
        for x in 'bc':
            t[x, o['node', 'syms']] = N('L' + x)
            t[x, o['node', 'kids']] = N(x + 'K')
        t['bK', op] = con(C.c['ADDRG' if g == 'JUMP' else 'INDIR'] + C.c['P'] + (4 << 10), 16)
        t['bK', o['node', 'syms']] = N('LK')
        facts = []
        if g == 'LABEL':
            facts = [icmp('eq', N('Lb'), sym('equated(Lb)', 64))]
        R = running(r, C, 'fixup', [N('a')], 'the labels of ' + g, types=t, facts=facts)
        for ctx, ev, val, where, st in R.paths():
            expect(R, where, 'the label', rd(R, st, N('c'), o['node', 'syms']),
                   sym('equated(Lc)', 64), ctx)
            if g in jumps:
                expect(R, where, 'the label', rd(R, st, N('b'), o['node', 'syms']),
                       sym('equated(Lb)', 64), ctx)
            elif g == 'JUMP':
                expect(R, where, 'the label', rd(R, st, N('bK'), o['node', 'syms']),
                       sym('equated(LK)', 64), ctx)
            elif g == 'JUMP2':
                expect(R, where, 'the operand', rd(R, st, N('bK'), o['node', 'syms']), N('LK'),
                       ctx)


def prunes(r, C):
    """temporaries that stand for a register or an address give way to it everywhere"""
    o = C.o
    op, syms, kids, link = (o['node', x] for x in ('op', 'syms', 'kids', 'link'))
    ind, adrl = C.c['INDIR'] + C.c['I'] + (4 << 10), C.c['ADDRL'] + C.c['P'] + (4 << 10)
    adrg = C.c['ADDRG'] + C.c['P'] + (4 << 10)
    tb, _ = C.flag('symbol', 'temporary', 0)
    n = 0
    R = running(r, C, 'replace', [Z], 'replace() of nothing')
    for ctx, ev, val, where, st in R.paths():
        if val != Z or ev:
            R.bad(where, 'returns %s' % show(val))
    # (is a load of a local, temporary, marked)
    for what, isind, isl, temp, mark in (('a marked temporary', 1, 1, 1, 1), (
            'a temporary', 1, 1, 1, 0), ('a variable', 1, 1, 0, 1), ('a global', 1, 0, 1, 1), (
            'another node', 0, 1, 1, 1)):
        for cse in ('load', 'address'):
            t = {('p', op): con(ind if isind else C.c['NEG'] + C.c['I'] + (4 << 10), 16),
                 ('p', kids): N('k'), ('p', kids + 8): N('k1'),
                 ('k', op): con(adrl if isl else adrg, 16), ('k', syms): N('s'),
                 ('s', tb): con(C.flag('symbol', 'temporary', temp)[1], 8),
                 ('s', o['symbol', 'u.t.replace']): con(mark, 32),
                 ('s', o['symbol', 'u.t.cse']): N('e'),
                 ('e', op): con(ind if cse == 'load' else adrg, 16), ('e', kids): N('ek'),
                 ('e', syms): N('es'), ('ek', op): con(adrl, 16), ('ek', syms): N('eks')}
            R = running(r, C, 'replace', [N('p')], 'replace() of ' + what, types=t,
                        returns={'replace.rec': visitor})
            for ctx, ev, val, where, st in R.paths():
                try:
                    if isind and isl and temp and mark:
                        if cse == 'load':
                            w = [('newnode', (con(adrl, 32), Z, Z, N('eks')), 'a'),
                                 ('newnode', (con(ind, 32), 'a', Z, '_'), 'n')]
                        else:
                            w = [('newnode', (con(adrg, 32), Z, Z, N('es')), 'n')]
                        env = match(w, ev, ctx)
                        if val != env['n'] or rd(R, st, val, o['node', 'count'], 16) != con(1, 16):
                            raise No('returns %s' % show(val))
                        continue
                    if val != N('p') or len(ev) != len({e[1][0] for e in ev}):
                        raise No('a node that has to stay')
                    done = {e[1][0]: e[2] for e in ev if e[0] == 'replace'}
                    if len(done) != len(ev):
                        raise No('makes a node')
                    for j, k in enumerate(('k', 'k1')):
                        if N(k) not in done or done[N(k)] != rd(R, st, val, kids + 8 * j):
                            raise No('operand %d is not replaced' % j)
                except No as e:
                    R.bad(where, str(e))
            n += 1
    # (target, its class, stored value, class of what is loaded)
    for mine in (0, 1):
        for tcls in ('REGISTER', 'AUTO'):
            for value in ('load', 'load2', 'address', 'other'):
                for scls in ('REGISTER', 'AUTO'):
                    for defd in (0, 1):
                        prune1(r, C, mine, tcls, value, scls, defd, ind, adrl, adrg, tb)
                        n += 1
    return n


def prune1(r, C, mine, tcls, value, scls, defd, ind, adrl, adrg, tb):
    o = C.o
    op, syms, kids, link = (o['node', x] for x in ('op', 'syms', 'kids', 'link'))
    db, d = C.flag('symbol', 'defined', defd)
    _, tm = C.flag('symbol', 'temporary', 1)
    val = {'load': ind, 'load2': ind, 'address': adrg,
           'other': C.c['ADD'] + C.c['I'] + (4 << 10)}[value]
    asg = C.c['ASGN'] + C.c['I'] + (4 << 10)
    t = {('a', op): con(C.c['RET'] + C.c['I'] + (4 << 10), 16), ('a', kids): N('ak'),
         ('a', kids + 8): Z, ('a', link): N('b'),
         ('b', op): con(asg, 16), ('b', kids): N('bl'), ('b', kids + 8): N('br'),
         ('b', link): N('c'), ('bl', op): con(adrl, 16), ('bl', syms): N('tmp'),
         ('br', op): con(val, 16), ('br', kids): N('brk'), ('br', syms): N('bs'),
         ('brk', op): con(adrl if value == 'load' else C.c['ADD'] + C.c['P'] + (4 << 10), 16),
         ('brk', syms): N('var'), ('var', o['symbol', 'sclass']): con(C.c[scls], 32),
         ('tmp', tb): con(d | tm, 8), ('tmp', o['symbol', 'u.t.cse']): N('br' if mine else 'x'),
         ('tmp', o['symbol', 'sclass']): con(C.c[tcls], 32),
         ('c', op): con(C.c['EQ'] + C.c['I'] + (4 << 10), 16), ('c', kids): N('ck'),
         ('c', kids + 8): N('cv'), ('c', link): Z,
         ('IR', o['interface', 'local']): N('IR.local')}
    R = running(r, C, 'prune', [N('a')], 'a temporary for %s' % value, types=t, live=('x',),
                facts=[icmp('ne', N('x'), N('br'))], returns={'replace': visitor})
    may = mine and (value == 'load' and (scls == 'REGISTER' or tcls == 'AUTO') or
                    value == 'address' and tcls == 'AUTO')
    for ctx, ev, val, where, st in R.paths():
        try:
            got, x = [], val
            while x != Z and len(got) < 5:
                a = single(x)
                if not a or a[0] != 's':
                    raise No('the list is damaged')
                got.append(a[1])
                x = rd(R, st, x, link)
            dropped = got == ['a', 'c']
            if got != ['a', 'b', 'c'] and not (dropped and may):
                raise No('leaves %s' % ' '.join(got))
            m = rd(R, st, N('tmp'), o['symbol', 'u.t.replace'], 32)
            if dropped:
                if m == O or not is_con(m):
                    raise No('the uses of a temporary that is dropped are kept')
                rep = [e[1][0] for e in ev if e[0] == 'replace']
                if N('ck') not in rep or N('cv') not in rep or \
                        rd(R, st, N('c'), kids) != [e[2] for e in ev if e[0] == 'replace' and
                                                    e[1][0] == N('ck')][0] or \
                        rd(R, st, N('c'), kids + 8) != [e[2] for e in ev if e[0] == 'replace' and
                                                        e[1][0] == N('cv')][0]:
                    raise No('uses of a temporary that is dropped are kept')
            elif is_con(m) and m != O:
                raise No('a temporary that is kept is replaced')
            loc = [e for e in ev if e[0] == 'IR.local']
            if mine and not defd and not dropped and [e[1][0] for e in loc] != [N('tmp')]:
                raise No('the temporary has no place')
            if loc and defd:
                raise No('the temporary is placed twice')
        except No as e:
            R.bad(where, str(e))


def constants(r, C):
    """constants that need an address"""
    o = C.o
    v = sym('v', 64)
    q = sym('constant(T,v)', 64)
    for arr in (0, 1):
        for loc in (0, 1):
            t = {('p', o['tree', 'type']): N('T'), ('p', o['tree', 'u.v']): v,
                 ('T', o['type', 'op']): con(C.c['ARRAY' if arr else 'FLOAT'], 32),
                 (single(q)[1], o['symbol', 'u.c.loc']): N('loc') if loc else Z}
            R = running(r, C, 'cvtconst', [N('p')], 'the address of a constant', types=t,
                        live=('loc',), returns={'genident': lambda pol, eng, st, a: N('new'),
                                                'atop': lambda pol, eng, st, a: N('atop')})
            for ctx, ev, val, where, st in R.paths():
                g = [e for e in ev if e[0] == 'genident']
                x = N('loc') if loc else N('new')
                if loc and g or not loc and ([e[1] for e in g] != [
                        (con(C.c['STATIC'], 32), N('T'), con(C.c['GLOBAL'], 32))] or
                        rd(R, st, q, o['symbol', 'u.c.loc']) != N('new')):
                    R.bad(where, 'the constant is not placed once')
                f = R.pol.terms.get(single(val))
                if not arr:
                    if f != ('idtree', (x,)):
                        R.bad(where, 'returns %s' % show(val))
                elif not f or f[0] != 'simplify' or f[1][:2] != (
                        con(C.c['ADDRG'], 32), N('atop')) or \
                        rd(R, st, val, o['tree', 'u.sym']) != x:
                    R.bad(where, 'returns %s' % show(val))


CODES = ('Address', 'Blockbeg', 'Blockend', 'Gen', 'Jump', 'Label', 'Local', 'Switch',
         'Defpoint', 'Start')


def codelist(C, kinds):
    o = C.o
    t = {}
    for i, k in enumerate(kinds):
        x = 'cp%d' % i
        t[x, o['code', 'kind']] = con(C.c[k], 32)
        t[x, o['code', 'next']] = N('cp%d' % (i + 1)) if i + 1 < len(kinds) else Z
        if k in ('Gen', 'Jump', 'Label'):
            t[x, o['code', 'u.forest']] = N(x + '.forest')
        elif k == 'Address':
            t[x, o['code', 'u.addr.sym']] = N(x + '.sym')
            t[x, o['code', 'u.addr.base']] = N(x + '.base')
            t[x, o['code', 'u.addr.offset']] = sym(x + '.offset', 64)
        elif k == 'Local':
            t[x, o['code', 'u.var']] = N(x + '.var')
        elif k == 'Blockend':
            t[x, o['code', 'u.begin']] = N(x + '.begin')
        elif k == 'Blockbeg':
            t[x, o['code', 'u.block.locals']] = N(x + '.locals')
    for m in METHODS:
        t['IR', o['interface', m]] = N('IR.' + m)
    return t


def generation(r, C):
    """code is generated and emitted in order"""
    o = C.o
    g = {('codehead', o['code', 'next']): N('cp0'), 'errcnt': O, 'glevel': O, 'assignargs': O}
    n = 0
    for ks in [('Start', k, 'Gen') for k in CODES if k != 'Start'] + [
            ('Start', 'Blockbeg', 'Gen', 'Blockend'), ('Start', 'Local', 'Label', 'Jump')]:
        ks = ks[1:]
        for pt in (-1, 0, 1):
            for locs in (((), (1,), (0, 1), (1, 1)) if 'Blockbeg' in ks else ((),)):
                generate(r, C, ks, pt, locs, g)
                n += 1
    for ps in ((), ('same',), ('type',), ('class',), ('same', 'type'), ('class', 'same'),
               ('type', 'class')):
        params(r, C, ps, g)
        n += 1
    for k in CODES[:-1]:
        if k == 'Switch':
            continue
        for forest in ((0, 1) if k in ('Gen', 'Jump', 'Label') else (0,)):
            t = codelist(C, (k, 'Gen'))
            t['cp0', o['code', 'u.forest']] = N('cp0.forest') if forest else t.get(
                ('cp0', o['code', 'u.forest']), Z) if k not in ('Gen', 'Jump', 'Label') else Z
            R = running(r, C, 'emitcode', [], 'the code emitted for ' + k, types=t, globals_=dict(
                g, IR=N('IR')), live=('cp1.forest',) + (('cp0.forest',) if forest else ()))
            for ctx, ev, val, where, st in R.paths():
                try:
                    f = forest and k in ('Gen', 'Jump', 'Label')
                    match(([('IR.emit', (N('cp0.forest'),))] if f else []) +
                          [('IR.emit', (N('cp1.forest'),))], ev, ctx)
                except No as e:
                    R.bad(where, str(e))
            n += 1
    for vals in ((5,), (5, 6), (-1, 0), (1, 4), (0, 1, 2), (-3, -1, 0), (7, 9, 12),
                 (2147483645, 2147483647), (-2147483648, -2147483646), (0, 1, 5, 6)):
        switch(r, C, vals, g)
        n += 1
    return n


def generate(r, C, ks, pt, locs, g):
    o = C.o
    t = codelist(C, ks)
    for i, k in enumerate(ks):
        if k == 'Blockbeg':
            x = 'cp%d.locals' % i
            for j, used in enumerate(locs):
                t[x, 8 * j] = N('v%d' % j)
                t['v%d' % j, o['symbol', 'ref']] = ('fc', '1' if used else '0', 32)
            t[x, 8 * len(locs)] = Z
    R = running(r, C, 'gencode', [N('caller'), N('callee')], 'code (%s)' % ', '.join(ks), types=t,
                globals_=dict(g, IR=N('IR'), prunetemps=con(pt, 32)),
                returns={'prune': lambda pol, eng, st, a: sym('prune(%s)' % show(a[0]), 64),
                         'IR.gen': lambda pol, eng, st, a: sym('gen(%s)' % show(a[0]), 64)})
    dagp = C.flags >> (C.bits['interface', 'wants_dag'] % 8) & 1
    p = not dagp if pt == -1 else pt
    for ctx, ev, val, where, st in R.paths():
        want = []
        for i, k in enumerate(ks):
            x = 'cp%d' % i
            if k == 'Address':
                want.append(('IR.address', (N(x + '.sym'), N(x + '.base'),
                                            sym(x + '.offset', 64))))
            elif k == 'Blockbeg':
                want.append(('IR.blockbeg', (addc(N(x), o['code', 'u.block.x']),)))
                want += [('IR.local', (N('v%d' % j),)) for j, u in enumerate(locs) if u]
            elif k == 'Blockend':
                want.append(('IR.blockend', (addc(N(x + '.begin'), o['code', 'u.block.x']),)))
            elif k == 'Local':
                want.append(('IR.local', (N(x + '.var'),)))
            elif k in ('Gen', 'Jump', 'Label'):
                f = N(x + '.forest')
                if p:
                    want.append(('prune', (f,)))
                    f = sym('prune(%s)' % show(f), 64)
                want.append(('fixup', (f,)))
                want.append(('IR.gen', (f,)))
                y = rd(R, st, N(x), o['code', 'u.forest'])
                expect(R, where, 'the code', y, sym('gen(%s)' % show(f), 64), ctx)
        try:
            match(want, ev, ctx)
        except No as e:
            R.bad(where, str(e))


def params(r, C, ps, g):
    """parameters that arrive as another type or in another place are converted"""
    o = C.o
    t = codelist(C, ('Defpoint', 'Gen'))
    facts = []
    for i, k in enumerate(ps):
        for w in ('caller', 'callee'):
            x = '%s%d' % (w, i)
            t[w, 8 * i] = N(x)
            t[x, o['symbol', 'sclass']] = con(C.c['REGISTER' if k == 'class' and w == 'callee'
                                                  else 'AUTO'], 32)
            t[x, o['symbol', 'type']] = N('TA%d' % i if k == 'type' and w == 'caller' else
                                          'TB%d' % i)
        facts.append(icmp('ne', N('TA%d' % i), N('TB%d' % i)))
    for w in ('caller', 'callee'):
        t[w, 8 * len(ps)] = Z
    R = running(r, C, 'gencode', [N('caller'), N('callee')], 'parameters (%s)' % ', '.join(ps),
                types=t, facts=facts, globals_=dict(g, IR=N('IR'), prunetemps=O,
                                                    assignargs=con(1, 32), codelist=N('cp1')),
                returns={'walk': walked, 'IR.gen': lambda pol, eng, st, a: sym('gen', 64)},
                changing=())
    for ctx, ev, val, where, st in R.paths():
        want = [('walk', (sym('asgn(callee%d,idtree(caller%d))' % (i, i), 64), O, O))
                for i, k in enumerate(ps) if k != 'same']
        try:
            match(want, [e for e in ev if e[0] == 'walk'], ctx)
        except No as e:
            R.bad(where, str(e))
            continue
        # the code is put behind the start
        at = [e for e in ev if e[0] == 'codelist']
        if at and at[0][1][0] != N('cp0'):
            R.bad(where, 'is not put in front of the code')
        last = N('G%d' % len(want)) if want else N('cp0')
        if rd(R, st, last, o['code', 'next']) != N('cp1') or \
                want and rd(R, st, N('cp1'), o['code', 'prev']) != last:
            R.bad(where, 'the code behind it is lost')


def walked(pol, eng, st, a):
    """code is appended to the list"""
    k = sum(1 for e in st.ev if e[0] == 'call' and e[1] == 'codelist')
    cur = cellat(pol, st, 'codelist', N('cp1'))
    st.ev += (('call', 'codelist', (cur,), Z, ''),)
    pol.setg(eng, st, 'codelist', N('G%d' % (k + 1)))
    return 'done'


def switch(r, C, vals, g):
    o = C.o
    t = codelist(C, ('Switch',))
    t['cp0', o['code', 'u.swtch.table']] = N('table')
    t['cp0', o['code', 'u.swtch.deflab']] = N('default')
    t['cp0', o['code', 'u.swtch.size']] = con(len(vals), 32)
    t['cp0', o['code', 'u.swtch.values']] = N('values')
    t['cp0', o['code', 'u.swtch.labels']] = N('labels')
    for i, v in enumerate(vals):
        t['values', 8 * i] = con(v, 64)
        t['labels', 8 * i] = N('case%d' % i)
    R = running(r, C, 'emitcode', [], 'a table for the cases %s' % (vals,), types=t,
                globals_=dict(g, IR=N('IR')))
    for ctx, ev, val, where, st in R.paths():
        want = [('defglobal', (N('table'), con(C.c['LIT'], 32)))]
        for k in range(vals[0], vals[-1] + 1):
            x = 'case%d' % vals.index(k) if k in vals else 'default'
            want.append(('IR.defaddress', (sym('equated(%s)' % x, 64),)))
        want.append(('swtoseg', (con(C.c['CODE'], 32),)))
        try:
            match(want, ev, ctx)
        except No as e:
            R.bad(where, str(e))


RULE = ('each function, on every path, makes the nodes its tree calls for, in order, jumps where '
        'the value says, empties the table of common subexpressions wherever values in it may '
        'change or may not have been computed, and keeps lists, counts and labels consistent')


def C37(tier):
    r = Result()
    C = dag()
    n = values(r, C)
    n += loads(r, C)
    n += leaves(r, C)
    n += branches(r, C)
    n += sequences(r, C)
    n += assignments(r, C)
    n += fields(r, C)
    r.cover['trees'] = n
    nodes(r, C)
    tables(r, C)
    lists(r, C)
    n = visits(r, C)
    n += undags(r, C)
    equates(r, C)
    n += prunes(r, C)
    r.cover['shared nodes'] = n
    constants(r, C)
    r.cover['code lists'] = generation(r, C)
    r.rule = RULE
    return r
