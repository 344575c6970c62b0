"""C40: names, constants, labels, lists and memory of rcc (sym.c, string.c, list.c, alloc.c)."""
import lccdag
import lccback
import llir
import terms
from checks_data import *
from lccback import single

NAMESN = ('TYPEDEF', 'CONSTANTS', 'LABELS', 'GLOBAL', 'PARAM', 'LOCAL', 'EXTERN', 'PERM', 'FUNC', 'STMT')
OPQ = ('install', 'table', 'lookup', 'genlabel', 'findlabel', 'constant', 'genident', 'temporary', 'vtoa',
       'string', 'stringd', 'stringn', 'stringf', 'eqtype', 'rmtypes', 'array', 'btot', 'relocate', 'allocate',
       'newarray', 'length')


def names(keep=(), src='sym.c'):
    lccdag.NAMES[:] = lccdag.NAMES + [n for n in NAMESN if n not in lccdag.NAMES]
    for f in ('up', 'u.c.loc'):
        if f not in lccdag.OFF['symbol']:
            lccdag.OFF['symbol'] = lccdag.OFF['symbol'] + (f,)
    C = unit(src, tuple(n for n in OPQ if n not in keep))
    C.nb = 0
    for n in ('table', 'entry', 'string', 'block', 'list'):
        for f, b, w in C.mod.struct_fields(n) or ():
            C.o[n, f] = b // 8
            if n == 'block':
                C.blocksize = max(getattr(C, 'blocksize', 0), (b + w) // 8)
            if (n, f) == ('entry', 'sym'):
                C.symsize = w // 8
    if ('table', 'all') in C.o:
        C.nb = (C.o['table', 'all'] - C.o['table', 'buckets']) // 8
    return C


class Names(Events):
    """tables of chains: what is loaded from a table at an index that is not known"""
    heads = {}
    ranged_trunc = True

    def load_hook(self, eng, st, ins, b, off, size):
        h = self.heads.get(b[1] if b[0] == 's' else b[2] if b[0] == 'b' and b[1] == 'g' else None)
        if h is not None and size == 8 and (not is_con(off) or b[0] == 'b'):
            if not any(w[0] == off for w in self.written(st, b)):
                st.ev += (('probe', b, off),)
                if single(h):
                    eng.ptr_atoms.add(single(h))
                return h
            return None
        return super().load_hook(eng, st, ins, b, off, size)


def go(r, C, fn, args, what, heads=None, **kw):
    class P(Names):
        pass
    P.heads = heads or {}
    kw.setdefault('rule', 'names')
    return running(r, C, fn, args, what, cls=P, **kw)


def probes(st):
    return [(e[1], e[2]) for e in st.ev if e[0] == 'probe']


def stored(st, base):
    return [e for e in st.ev if e[0] == 'store' and e[1] == base]


def inslot(C, ctx, off):
    """an index of the buckets of a table"""
    b = C.o['table', 'buckets']
    return known(ctx, icmp('sle', con(b, 64), off)) and known(ctx, icmp('slt', off, con(b + 8 * C.nb, 64)))


def norm(off, who):
    """the index as a function of the name"""
    return show(off).replace(who, 'name')


NAME = N('name')


def scopes(r):
    """lookup, install, relocate; tables; scopes"""
    C = names(('lookup',))
    o = C.o
    C.nb = (o['table', 'all'] - o['table', 'buckets']) // 8
    hashes = {}

    def hashed(R, C, ctx, where, st, who):
        for b, off in probes(st):
            if not inslot(C, ctx, off):
                R.bad(where, 'an entry outside of the table is used')
            hashes.setdefault(norm(off, who), where)
    # tables inside each other, chains of up to two entries
    for chains in ((0,), (1,), (2,), (0, 1), (1, 1), (2, 1), (1, 0, 1), (0, 2)):
        t, es, heads = {}, [], {}
        for i, n in enumerate(chains):
            T = 'T%d' % i
            t[T, o['table', 'previous']] = N('T%d' % (i + 1)) if i + 1 < len(chains) else Z
            heads[T] = N('e%d.0' % i) if n else Z
            for k in range(n):
                e = 'e%d.%d' % (i, k)
                es.append(e)
                t[e, o['symbol', 'name']] = N(e + '.name')
                t[e, o['entry', 'link']] = N('e%d.%d' % (i, k + 1)) if k + 1 < n else Z
        R = go(r, C, 'lookup', [NAME, N('T0')], 'a name in %s' % (chains,), heads=heads, types=t)
        for ctx, ev, val, where, st in R.paths():
            hashed(R, C, ctx, where, st, 'name')
            for e in es:
                ne = known(ctx, icmp('ne', N(e + '.name'), NAME))
                if val == N(e):
                    if not known(ctx, icmp('eq', N(e + '.name'), NAME)):
                        R.bad(where, 'an entry with another name is found')
                    break
                if not ne:
                    R.bad(where, 'an entry with this name in %s is passed over' % (
                        'the innermost scope' if e.startswith('e0') else 'a scope'))
                    break
            else:
                if val != Z:
                    R.bad(where, 'returns ' + show(val))
            if stored_any(st):
                R.bad(where, 'changes memory')
    # install
    C = names(('install',))
    C.nb = (o['table', 'all'] - o['table', 'buckets']) // 8
    lev, tl = sym('lev', 32), sym('tlev', 32)
    for arena in ('PERM', 'FUNC'):
        for head in (Z, N('e0')):
            t = {('tpp', 0): N('T0'), ('T0', o['table', 'level']): tl, ('T0', o['table', 'all']): N('all0'),
                 ('TN', o['table', 'all']): N('allN'), ('e0', o['symbol', 'name']): N('e0.name')}
            heads = {'T0': head, 'TN': Z}
            R = go(r, C, 'install', [NAME, N('tpp'), lev, con(C.c[arena], 32)], 'a new name', heads=heads, types=t,
                   live=('TN', 'tpp', 'T0'), returns={
                       'table': lambda p, en, st, a: N('TN')}, facts=[icmp('sle', O, lev), icmp('sle', O, tl),
                                                                     icmp('ne', N('TN'), N('T0'))])
            for ctx, ev, val, where, st in R.paths():
                hashed(R, C, ctx, where, st, 'name')
                try:
                    new = [a for n, a, w in ev if n == 'table']
                    inner = known(ctx, icmp('slt', tl, lev)) and not known(ctx, icmp('sle', lev, O))
                    outer = known(ctx, icmp('sle', lev, tl)) or known(ctx, icmp('eq', lev, O))
                    if not inner and not outer:
                        raise No('does not depend on the level')
                    T = 'TN' if inner else 'T0'
                    if inner and (len(new) != 1 or new[0][0] != N('T0') or not eq(ctx, new[0][1], lev) or
                                  rd(R, st, N('tpp'), 0) != N('TN')):
                        raise No('the new scope is not entered')
                    if outer and (new or rd(R, st, N('tpp'), 0) != N('T0')):
                        raise No('a scope is made that is not needed')
                    fresh(R, C, ctx, st, val, C.c[arena], o['entry', 'link'] + 8)
                    for f, w, x in (('name', 64, NAME), ('scope', 32, lev), ('up', 64, N('allN' if inner else 'all0'))):
                        if not eq(ctx, rd(R, st, val, o['symbol', f], w), x):
                            raise No('%s is %s' % (f, show(rd(R, st, val, o['symbol', f], w))))
                    linked(R, C, st, val, T, heads[T])
                    other(C, st, {T, 'tpp'} | {single(val)[1]})
                except No as x:
                    R.bad(where, str(x))
    # a symbol moved from one table to another
    C = names(('relocate',))
    C.nb = (o['table', 'all'] - o['table', 'buckets']) // 8
    for n in (1, 2, 3):
        for head in (Z, N('d0')):
            t = {('S', o['table', 'all']): N('e%d' % (n - 1)), ('D', o['table', 'all']): N('dall')}
            for i in range(n):
                t['e%d' % i, o['symbol', 'name']] = N('e%d.name' % i)
                t['e%d' % i, o['entry', 'link']] = N('e%d' % (i + 1)) if i + 1 < n else Z
                t['e%d' % i, o['symbol', 'up']] = N('e%d' % (i - 1)) if i else Z
            R = go(r, C, 'relocate', [NAME, N('S'), N('D')], 'a name among %d is moved' % n, types=t,
                   heads={'S': N('e0'), 'D': head}, facts=[icmp('ne', N('e%d' % i), N('e%d' % j))
                                                           for i in range(n) for j in range(i)], live=('d0',))
            for ctx, ev, val, where, st in R.paths():
                hashed(R, C, ctx, where, st, 'name')
                try:
                    i = [k for k in range(n) if val == N('e%d' % k)]
                    if len(i) != 1 or not known(ctx, icmp('eq', N('e%d.name' % i[0]), NAME)):
                        raise No('another name is moved')
                    i = i[0]
                    linked(R, C, st, val, 'D', head)
                    if rd(R, st, val, o['symbol', 'up']) != N('dall'):
                        raise No('the list of symbols of the new table is broken')
                    left = [k for k in range(n) if k != i]
                    w = [e for e in stored(st, single(N('S'))) if not is_con(e[2])]
                    got = walked(R, st, w[-1][4] if w else N('e0'), o['entry', 'link'], n)
                    if got != [N('e%d' % k) for k in left]:
                        raise No('the chain of the old table is %s' % ','.join(show(x) for x in got))
                    got = walked(R, st, member(R, st, 'S', o['table', 'all']), o['symbol', 'up'], n)
                    if got != [N('e%d' % k) for k in reversed(left)]:
                        raise No('the list of symbols of the old table is broken')
                except No as x:
                    R.bad(where, str(x))
    r.obligations += 1
    if len(hashes) != 1:
        r.add([Finding('names', list(hashes.values())[-1] if hashes else 'lcc/src/sym.c:1',
                       'names are entered and looked for in different chains: %s' % ' / '.join(sorted(hashes)),
                       ())], 'lookup')
    levels(r)


def walked(R, st, p, off, n):
    out = []
    while p != Z and len(out) <= n + 1:
        out.append(p)
        p = rd(R, st, p, off)
    return out


def stored_any(st):
    return any(e[0] == 'store' for e in st.ev)


def other(C, st, allowed):
    for e in st.ev:
        if e[0] == 'store':
            n = e[1][1] if e[1][0] == 's' else e[1][2] if e[1][:2] == ('b', 'g') else None
            if n not in allowed:
                raise No('changes %s' % (n,))


def fresh(R, C, ctx, st, val, arena, size):
    """memory that is new, big enough and zero"""
    b = single(val)
    if not b or not str(b[1]).startswith('mem'):
        raise No('returns %s' % show(val))
    a = [e for e in st.ev if e[0] == 'call' and e[1] == 'allocate' and e[3] == val]
    if not a or not known(ctx, icmp('sle', con(size, 64), a[0][2][0])):
        raise No('needs %d bytes' % size)
    if arena is not None and not eq(ctx, a[0][2][1], con(arena, 32)):
        raise No('lives in another arena')


def linked(R, C, st, val, T, head):
    w = [e for e in stored(st, single(N(T))) if not is_con(e[2])]
    if len(w) != 1 or w[0][4] != val:
        raise No('is not entered in its chain')
    if (('probe', single(N(T)), w[0][2])) not in st.ev:
        raise No('is entered in another chain than the one it continues')
    if rd(R, st, val, C.o['entry', 'link']) != head:
        raise No('the names entered before are lost')
    if member(R, st, T, C.o['table', 'all']) != val:
        raise No('is not in the list of symbols')


def member(R, st, T, off):
    """a member that is not in the buckets (stores to these are known to be inside of them)"""
    w = [e for e in stored(st, single(N(T))) if e[2] == con(off, 64)]
    return w[-1][4] if w else R.pol.types.get((T, off), Z)


def levels(r):
    C = names(('table',))
    o = C.o
    lev = sym('lev', 32)
    for tp in (Z, N('T0')):
        R = go(r, C, 'table', [tp, lev], 'a new scope', types={('T0', o['table', 'all']): N('all0')}, live=('T0',))
        for ctx, ev, val, where, st in R.paths():
            try:
                fresh(R, C, ctx, st, val, None, o['table', 'all'] + 8)
                for f, w, x in (('previous', 64, tp), ('level', 32, lev), ('all', 64, N('all0') if tp != Z else Z)):
                    if not eq(ctx, rd(R, st, val, o['table', f], w), x):
                        raise No('%s is %s' % (f, show(rd(R, st, val, o['table', f], w))))
                other(C, st, {single(val)[1]})
            except No as x:
                R.bad(where, str(x))
    C = names()
    lv = sym('level0', 32)
    R = go(r, C, 'enterscope', [], 'a scope begins', globals_={'level': lv, 'tempid': sym('tempid0', 32)},
           facts=[icmp('sle', O, lv), icmp('slt', lv, con(1 << 20, 32))])
    for ctx, ev, val, where, st in R.paths():
        if not eq(ctx, glob(R, st, 'level', 32), addc(lv, 1)):
            R.bad(where, 'the level is not the next one')
    for ti in (0, 1):
        for ii in (0, 1):
            g = {'level': lv, 'types': N('types'), 'identifiers': N('ids'), 'Aflag': O}
            t = {('types', o['table', 'level']): sym('tl', 32), ('ids', o['table', 'level']): sym('il', 32),
                 ('types', o['table', 'previous']): N('types1'), ('ids', o['table', 'previous']): N('ids1')}
            f = [icmp('eq' if ti else 'ne', sym('tl', 32), lv), icmp('eq' if ii else 'ne', sym('il', 32), lv),
                 icmp('sle', con(C.c['GLOBAL'], 32), lv)]
            R = go(r, C, 'exitscope', [], 'a scope ends', globals_=g, types=t, facts=f)
            for ctx, ev, val, where, st in R.paths():
                try:
                    for n, w, x in (('types', 64, N('types1' if ti else 'types')),
                                    ('identifiers', 64, N('ids1' if ii else 'ids')), ('level', 32, addc(lv, -1))):
                        if not eq(ctx, glob(R, st, n, w), x):
                            raise No('%s is %s' % (n, show(glob(R, st, n, w))))
                    rm = [a for n, a, w in ev if n == 'rmtypes']
                    if len(rm) != 1 or not eq(ctx, rm[0][0], lv):
                        raise No('the types of the scope are not removed')
                except No as x:
                    R.bad(where, str(x))
    # all symbols of a level
    for lv_ in ((3,), (5, 3), (5, 4), (2,), (5, 3, 2)):
        for scopes_ in ((), (3,), (3, 3), (2,), (3, 2, 3), (3, 3, 2)):
            t = {}
            for i, l in enumerate(lv_):
                t['T%d' % i, o['table', 'level']] = con(l, 32)
                t['T%d' % i, o['table', 'previous']] = N('T%d' % (i + 1)) if i + 1 < len(lv_) else Z
                t['T%d' % i, o['table', 'all']] = (N('s0') if scopes_ else Z) if l == 3 else N('bad')
            for i, s in enumerate(scopes_):
                t['s%d' % i, o['symbol', 'scope']] = con(s, 32)
                t['s%d' % i, o['symbol', 'up']] = N('s%d' % (i + 1)) if i + 1 < len(scopes_) else Z
            R = go(r, C, 'foreach', [N('T0'), con(3, 32), N('apply'), N('cl')], 'symbols of a scope', types=t,
                   live=('bad',))
            want = []
            if 3 in lv_:
                for i, s in enumerate(scopes_):
                    if s != 3:
                        break
                    want.append((N('s%d' % i), N('cl')))
            for ctx, ev, val, where, st in R.paths():
                got = [tuple(a) for n, a, w in ev if n == 'apply']
                if got != want:
                    R.bad(where, 'visits %s instead of %s' % (got, want))


def labels_(r):
    """labels, generated names"""
    C = names(('genlabel',))
    o = C.o
    n = sym('n', 32)
    R = go(r, C, 'genlabel', [n], 'new labels', facts=[icmp('slt', O, n), icmp('slt', n, con(1 << 20, 32))])
    for ctx, ev, val, where, st in R.paths():
        w = [e for e in st.ev if e[0] == 'store']
        if len(w) != 1 or w[0][1][:2] != ('b', 'g'):
            R.bad(where, 'does not count the labels')
        elif sub(w[0][4], val) != n:
            R.bad(where, '%s labels are handed out, %s counted' % (show(n), show(sub(w[0][4], val))))
        elif single(val) is None and not (val[0] == 'l' and len(val[3]) == 1):
            R.bad(where, 'the first label is %s' % show(val))
        else:
            old = R.eng.mem_load(State(), w[0][1], w[0][2], 4, ('i', 32))
            k = sub(val, old)
            if not is_con(k):
                R.bad(where, 'the first label is %s' % show(val))
    C = names(('findlabel',))
    hashes = {}
    lab = sym('lab', 32)
    for k in (0, 1, 2):
        t = {('L', o['table', 'all']): N('all0'), ('IR', o['interface', 'defsymbol']): N('defsymbol')}
        for i in range(k):
            t['e%d' % i, o['symbol', 'u.l.label']] = sym('lab%d' % i, 32)
            t['e%d' % i, o['entry', 'link']] = N('e%d' % (i + 1)) if i + 1 < k else Z
        R = go(r, C, 'findlabel', [lab], 'a label among %d' % k, types=t, heads={'L': N('e0') if k else Z},
               globals_={'labels': N('L')}, returns={'stringd': lambda p, en, st, a: N('stringd(%s)' % show(a[0]))},
               live=('e0', 'L'), facts=[icmp('sle', O, lab)])
        for ctx, ev, val, where, st in R.paths():
            for b, off in probes(st):
                if not inslot(C, ctx, off):
                    R.bad(where, 'an entry outside of the table is used')
            try:
                i = [j for j in range(k) if val == N('e%d' % j)]
                if i:
                    if not known(ctx, icmp('eq', sym('lab%d' % i[0], 32), lab)):
                        raise No('another label is found')
                    if stored_any(st):
                        raise No('changes memory')
                    continue
                for j in range(k):
                    if not known(ctx, icmp('ne', sym('lab%d' % j, 32), lab)):
                        raise No('a label that has been used is made again')
                fresh(R, C, ctx, st, val, C.c['FUNC'], o['entry', 'link'] + 8)
                for f, w, x in (('name', 64, N('stringd(%s)' % show(sext(lab, 64)))), ('scope', 32, con(C.c['LABELS'], 32)),
                                ('up', 64, N('all0')), ('u.l.label', 32, lab)):
                    if not eq(ctx, rd(R, st, val, o['symbol', f], w), x):
                        raise No('%s is %s' % (f, show(rd(R, st, val, o['symbol', f], w))))
                flags(R, C, st, val, {'generated': 1})
                linked(R, C, st, val, 'L', N('e0') if k else Z)
                d = [a for n_, a, w in ev if n_ == 'defsymbol']
                if [a[0] for a in d] != [val]:
                    raise No('is not made known to the back end')
                order(C, st, val, ('name', 'u.l.label', 'scope'))
            except No as x:
                R.bad(where, str(x))
    idents(r)


def flags(R, C, st, val, want):
    """flags of a symbol"""
    b = None
    for f, w in want.items():
        b, bit = C.flag('symbol', f, True)
        v = rd(R, st, val, b, 8)
        if not is_con(v) or bool(cval(v) & bit) != bool(w):
            raise No('%s is not %d (%s)' % (f, w, show(v)))


def order(C, st, val, members):
    """members are set before the back end sees the symbol"""
    seen = None
    for i, e in enumerate(st.ev):
        if e[0] == 'call' and e[1] == 'defsymbol' and e[2] and e[2][0] == val:
            seen = i
        if seen is not None and e[0] == 'store' and e[1] == single(val):
            for m in members:
                if e[2] == con(C.o['symbol', m], 64):
                    raise No('%s is set after the back end has seen the symbol' % m)


def idents(r):
    C = names(('genident', 'temporary'))
    o = C.o
    ty = N('ty')
    scls = sym('scls', 32)
    h = {'stringd': lambda p, en, st, a: N('stringd(%s)' % show(a[0])),
         'genlabel': lambda p, en, st, a: sym('lab%d' % a[0][2] if is_con(a[0]) else 'lab?', 32)}
    base = {('IR', o['interface', 'defsymbol']): N('defsymbol'), ('IR', o['interface', 'local']): N('local')}
    for lev in ('GLOBAL', 'PARAM', 'LOCAL', 'deep'):
        L = con(C.c[lev] if lev != 'deep' else C.c['LOCAL'] + 3, 32)
        R = go(r, C, 'genident', [scls, ty, L], 'a generated name (%s)' % lev, types=dict(base), returns=h)
        for ctx, ev, val, where, st in R.paths():
            try:
                fresh(R, C, ctx, st, val, C.c['FUNC' if lev in ('LOCAL', 'deep') else 'PERM'], C.symsize)
                sym_is(R, C, ctx, st, val, scope=L, sclass=scls, type=ty)
                n = rd(R, st, val, o['symbol', 'name'])
                if 'lab1' not in show(n) or not show(n).startswith('stringd('):
                    raise No('name is %s' % show(n))
                if [a for n_, a, w in ev if n_ == 'genlabel'] != [(con(1, 32),)]:
                    raise No('the label is used more than once')
                flags(R, C, st, val, {'generated': 1, 'temporary': 0})
                d = [a[0] for n_, a, w in ev if n_ == 'defsymbol']
                if d != ([val] if lev == 'GLOBAL' else []):
                    raise No('is made known to the back end %d times' % len(d))
                order(C, st, val, ('name', 'scope', 'sclass', 'type'))
            except No as x:
                R.bad(where, str(x))
    lv = sym('level0', 32)
    R = go(r, C, 'temporary', [scls, ty], 'a temporary', types=dict(base), returns=h,
           globals_={'level': lv}, facts=[icmp('sle', O, lv), icmp('slt', lv, con(1 << 20, 32))])
    LOC = con(C.c['LOCAL'], 32)
    for ctx, ev, val, where, st in R.paths():
        try:
            fresh(R, C, ctx, st, val, C.c['FUNC'], C.symsize)
            sc = rd(R, st, val, o['symbol', 'scope'], 32)
            if not (eq(ctx, sc, lv) and known(ctx, icmp('sle', LOC, lv)) or eq(ctx, sc, LOC) and
                    known(ctx, icmp('sle', lv, LOC))):
                raise No('its scope is %s' % show(sc))
            sym_is(R, C, ctx, st, val, sclass=scls, type=ty)
            flags(R, C, st, val, {'generated': 1, 'temporary': 1})
            w = [e for e in st.ev if e[0] == 'store' and e[1][:2] == ('b', 'g')]
            n = rd(R, st, val, o['symbol', 'name'])
            if len(w) != 1 or show(sext(w[0][4], 64)) not in show(n):
                raise No('its name is not that of a new number')
            old = R.eng.mem_load(State(), w[0][1], w[0][2], 4, ('i', 32))
            if sub(w[0][4], old) != con(1, 32):
                raise No('temporaries are not counted')
        except No as x:
            R.bad(where, str(x))
    # names of objects the compiler itself uses
    C = names(('mksymbol',))
    for cls in ('EXTERN', 'STATIC', 'AUTO'):
        def install(p, en, st, a):
            return N('inst')
        R = go(r, C, 'mksymbol', [con(C.c[cls], 32), NAME, ty], 'a symbol (%s)' % cls, types=dict(base), live=('inst',),
               returns={'string': lambda p, en, st, a: N('string(%s)' % show(a[0])), 'install': install})
        for ctx, ev, val, where, st in R.paths():
            try:
                if cls == 'EXTERN':
                    a = [a for n_, a, w in ev if n_ == 'install']
                    g = ('b', 'g', 'globals')
                    if val != N('inst') or len(a) != 1 or a[0][0] != N('string(name)') or \
                            single(a[0][1]) != g or a[0][2] != con(C.c['GLOBAL'], 32) or a[0][3] != con(C.c['PERM'], 32):
                        raise No('is not installed among the global names')
                else:
                    fresh(R, C, ctx, st, val, C.c['PERM'], C.symsize)
                    sym_is(R, C, ctx, st, val, name=N('string(name)'), scope=con(C.c['GLOBAL'], 32))
                sym_is(R, C, ctx, st, val, sclass=con(C.c[cls], 32), type=ty)
                b, bit = C.flag('symbol', 'defined', True)
                w = [e for e in stored(st, single(val)) if e[2] == con(b, 64)]
                if not w:
                    raise No('is not marked as defined')
                d = [a[0] for n_, a, w in ev if n_ == 'defsymbol']
                if d != [val]:
                    raise No('is not made known to the back end')
                order(C, st, val, ('name', 'scope', 'sclass', 'type'))
            except No as x:
                R.bad(where, str(x))


def sym_is(R, C, ctx, st, val, **want):
    for f, x in want.items():
        if x is None:
            continue
        w = 64 if f in ('name', 'type') else 32
        if not eq(ctx, rd(R, st, val, C.o['symbol', f], w), x):
            raise No('%s is %s' % (f, show(rd(R, st, val, C.o['symbol', f], w))))


def sharing(r):
    """constants with equal type and value, and only these, are one symbol"""
    C = names(('constant',))
    o = C.o
    v = sym('v', 64)
    hashes = {}
    for op in ('INT', 'UNSIGNED', 'FLOAT', 'POINTER', 'ARRAY', 'FUNCTION'):
        for k in (0, 1, 2, 3):
            for seen in (0, 1, 2):            # no symbol; constants are immediate; are in memory
                # of a qualified type
                qual = (None, 'CONST', 'VOLATILE', 'both')[seen + 1] if k == 3 else None
                k = 1 if qual else k
                t = {('qty', o['type', 'op']): con(C.c['CONST'] if qual == 'CONST' else C.c['VOLATILE'] if
                      qual == 'VOLATILE' else C.c['CONST'] + C.c['VOLATILE'], 32), ('qty', o['type', 'type']): N('ty'),
                     ('ty', o['type', 'op']): con(C.c[op], 32), ('ty', o['type', 'u.sym']): N('tsym') if seen else Z,
                     ('IR', o['interface', 'defsymbol']): N('defsymbol')}
                ab, bit = C.flag('symbol', 'addressed', True)
                t['tsym', ab] = con(bit if seen == 2 else 0, 8)
                for i in range(k):
                    t['e%d' % i, o['symbol', 'type']] = N('ty%d' % i)
                    t['e%d' % i, o['symbol', 'u.c.v']] = sym('v%d' % i, 64)
                    t['e%d' % i, o['entry', 'link']] = N('e%d' % (i + 1)) if i + 1 < k else Z

                def same(p, en, st, a):
                    n = [show(x) for x in a[:2]]
                    return sym('same(%s)' % ','.join(n), 32)

                def memcmp(p, en, st, a):
                    x = [operand(p, en, st, q, a[2]) for q in a[:2]]
                    if None in x:
                        return None
                    return sym('differ(%s,%s)' % tuple(show(q) for q in x), 32)
                R = go(r, C, 'constant', [N('qty') if qual else ty_(), v],
                       '%s constant%s among %d' % (op, ' (qualified)' if qual else '', k), types=t, globals_={
                    'constants': N('K')}, heads={'K': N('e0') if k else Z}, live=('e0', 'e1', 'tsym', 'K'), returns={
                        'eqtype': same, 'memcmp': memcmp, 'vtoa': lambda p, en, st, a: N('vtoa')})
                for ctx, ev, val, where, st in R.paths():
                    for b, off in probes(st):
                        if not inslot(C, ctx, off):
                            R.bad(where, 'an entry outside of the table is used')
                        hashes.setdefault(show(off), where)
                    try:
                        constant1(R, C, ctx, ev, val, st, op, k, seen, v)
                    except No as x:
                        R.bad(where, str(x))


def ty_():
    return N('ty')


def operand(p, en, st, q, n):
    if not is_con(n) or cval(n) != 8:
        return None
    b, off = en.split_addr(q)
    x = p.load_hook(en, st, None, b, off, 8)
    return x if x is not None else en.mem_load(st, b, off, 8, ('i', 64))


def constant1(R, C, ctx, ev, val, st, op, k, seen, v):
    o = C.o

    def sametype(i, w):
        s = [sym('same(%s)' % ','.join(x), 32) for x in (('ty', 'ty%d' % i), ('ty%d' % i, 'ty'))]
        return any(known(ctx, icmp('ne' if w else 'eq', x, O)) for x in s)

    def samevalue(i, w):
        vi = sym('v%d' % i, 64)
        d = [sym('differ(%s,%s)' % (show(a), show(b)), 32) for a, b in ((v, vi), (vi, v))]
        return known(ctx, icmp('eq' if w else 'ne', v, vi)) or any(
            known(ctx, icmp('eq' if w else 'ne', x, O)) for x in d)
    i = [j for j in range(k) if val == N('e%d' % j)]
    if i:
        if not sametype(i[0], True):
            raise No('a constant of another type is shared')
        if not samevalue(i[0], True):
            raise No('a constant that may have another value is shared')
        return
    for j in range(k):
        if not sametype(j, False) and not samevalue(j, False):
            raise No('an equal constant is made twice')
    fresh(R, C, ctx, st, val, C.c['PERM'], o['entry', 'link'] + 8)
    for f, w, x in (('scope', 32, con(C.c['CONSTANTS'], 32)), ('type', 64, N('ty')), ('u.c.v', 64, v),
                    ('sclass', 32, con(C.c['STATIC'], 32))):
        if not eq(ctx, rd(R, st, val, o['symbol', f], w), x):
            raise No('%s is %s' % (f, show(rd(R, st, val, o['symbol', f], w))))
    linked(R, C, st, val, 'K', N('e0') if k else Z)
    b, bit = C.flag('symbol', 'defined', True)
    w = [e for e in stored(st, single(val)) if e[2] == con(b, 64)]
    if not w:
        raise No('is not marked as defined')
    d = [a[0] for n_, a, w in ev if n_ == 'defsymbol']
    if d != ([val] if seen == 1 else []):
        raise No('the back end sees it %d times' % len(d))
    order(C, st, val, ('name', 'scope', 'sclass', 'type', 'u.c.v'))


def consts_(r):
    C = names()
    o = C.o
    n = sym('n', 32)
    h = {'constant': lambda p, en, st, a: N('constant')}
    R = go(r, C, 'intconst', [n], 'an int constant', returns=h)
    for ctx, ev, val, where, st in R.paths():
        a = [a for n_, a, w in st_calls(st, 'constant')]
        if val != N('constant') or len(a) != 1 or a[0][0] != N('inttype') or not eq(ctx, a[0][1], sext(n, 64)):
            R.bad(where, 'is not the constant n of type int')
    for loc in (0, 1):
        R = go(r, C, 'mkstr', [N('str')], 'a string the compiler makes', types={
            ('constant', o['symbol', 'u.c.loc']): N('loc') if loc else Z, ('constant', o['symbol', 'type']): N('aty')},
            live=('constant', 'loc'), returns=dict(h, **{
                'array': lambda p, en, st, a: N('aty') if a[0] == N('chartype') and eq(
                    st.ctx, a[1], addc(sym('strlen', 32), 1)) else N('another array'),
                'strlen': lambda p, en, st, a: sext(sym('strlen', 32), 64) if a[0] == N('str') else None,
                'genident': lambda p, en, st, a: N('gen')}), facts=[icmp('sle', O, sym('strlen', 32)), icmp(
                    'slt', sym('strlen', 32), con(1 << 30, 32))])
        for ctx, ev, val, where, st in R.paths():
            try:
                c = [a for n_, a, w in st_calls(st, 'constant')]
                if val != N('constant') or len(c) != 1 or c[0][0] != N('aty') or c[0][1] != N('str'):
                    raise No('is not the constant with the characters of the string')
                g = [a for n_, a, w in st_calls(st, 'genident')]
                if loc:
                    if g or rd(R, st, val, o['symbol', 'u.c.loc']) != N('loc'):
                        raise No('a second object is made')
                elif len(g) != 1 or g[0] != (con(C.c['STATIC'], 32), N('aty'), con(C.c['GLOBAL'], 32)) or \
                        rd(R, st, val, o['symbol', 'u.c.loc']) != N('gen'):
                    raise No('there is no object that holds it')
            except No as x:
                R.bad(where, str(x))


def st_calls(st, name):
    return [(e[1], e[2], e[4]) for e in st.ev if e[0] == 'call' and e[1] == name]


def lists_(r):
    """lists keep their elements in order"""
    C = names((), 'list.c')
    o = C.o
    LK, X = o['list', 'link'], o['list', 'x']

    def ring(n):
        """n elements; the list is the last one"""
        t = {}
        for i in range(n):
            t['l%d' % i, LK] = N('l%d' % ((i + 1) % n))
            t['l%d' % i, X] = N('x%d' % i)
        return t, N('l%d' % (n - 1)) if n else Z

    def elements(R, st, last):
        if last == Z:
            return []
        out, p = [], rd(R, st, last, LK)
        while True:
            out.append(rd(R, st, p, X))
            if p == last:
                return out
            if len(out) > 6:
                raise No('the list is not closed')
            p = rd(R, st, p, LK)
    for n in range(4):
        for free in (0, 1, 2):
            t, l = ring(n)
            for i in range(free):
                t['f%d' % i, LK] = N('f%d' % (i + 1)) if i + 1 < free else Z
            R = go(r, C, 'append', [N('x'), l], 'an element appended to %d' % n, types=t,
                   globals_={'freenodes': N('f0') if free else Z}, live=['l0'] * (n > 0))
            for ctx, ev, val, where, st in R.paths():
                try:
                    if val not in [N('f%d' % i) for i in range(free)]:
                        fresh(R, C, ctx, st, val, C.c['PERM'], max(LK, X) + 8)
                    got = elements(R, st, val)
                    if got != [N('x%d' % i) for i in range(n)] + [N('x')]:
                        raise No('is %s' % ','.join(show(x) for x in got))
                    f, k = glob(R, st, 'freenodes'), 0
                    while f != Z and k < 4:
                        if f == val:
                            raise No('the node may be used again while it is in the list')
                        f, k = rd(R, st, f, LK), k + 1
                except No as x:
                    R.bad(where, str(x))
        t, l = ring(n)
        C2 = names(('length',), 'list.c')
        t, l = ring(n)
        R = go(r, C2, 'length', [l], 'the length of a list of %d' % n, types=t, live=['l%d' % i for i in range(n)],
               facts=distinct('l', n))
        for ctx, ev, val, where, st in R.paths():
            if val != con(n, 32):
                R.bad(where, 'is ' + show(val))
            if stored_any(st):
                R.bad(where, 'changes memory')
        t, l = ring(n)
        t['lp', 0] = l
        R = go(r, C2, 'ltov', [N('lp'), con(C.c['FUNC'], 32)], 'a list of %d as a vector' % n, types=t,
               live=['lp'] + ['l%d' % i for i in range(n)], facts=distinct('l', n), globals_={'freenodes': N('free')},
               returns={'newarray': allocate})
        for ctx, ev, val, where, st in R.paths():
            try:
                a = [a for n_, a, w in st_calls(st, 'newarray')]
                b = [a for n_, a, w in st_calls(st, 'allocate')]
                if not (len(a) == 1 and not b and known(ctx, icmp('sle', con(n + 1, 64), a[0][0])) and
                        known(ctx, icmp('sle', con(8, 64), a[0][1])) and eq(ctx, a[0][2], con(C.c['FUNC'], 32)) or
                        len(b) == 1 and not a and known(ctx, icmp('sle', con(8 * n + 8, 64), b[0][0])) and
                        eq(ctx, b[0][1], con(C.c['FUNC'], 32))):
                    raise No('the vector is too small')
                got = [rd(R, st, val, 8 * i) for i in range(n + 1)]
                if got != [N('x%d' % i) for i in range(n)] + [Z]:
                    raise No('is %s' % ','.join(show(x) for x in got))
                if rd(R, st, N('lp'), 0) != Z:
                    raise No('the list is not empty afterwards')
                f, seen = glob(R, st, 'freenodes'), []
                while f != N('free') and f != Z and len(seen) < 6:
                    if f in seen or f not in [N('l%d' % i) for i in range(n)]:
                        raise No('the list of free nodes is damaged')
                    seen.append(f)
                    f = rd(R, st, f, LK)
                if len(seen) > 5:
                    raise No('the list of free nodes is damaged')
            except No as x:
                R.bad(where, str(x))


def distinct(p, n):
    return [icmp('ne', N('%s%d' % (p, i)), N('%s%d' % (p, j))) for i in range(n) for j in range(i)]


def strings_(r, deep=False):
    """equal strings are one string, different ones are not"""
    C = names(('stringn', 'string'), 'string.c')
    o = C.o
    g = C.mod.globals.get('buckets')
    if g is None or g.ty[0] != 'arr' or ('string', 'link') not in o:
        raise Anchor('table of strings')
    C.slots = g.ty[1]
    C.strsize = max(b + w for f, b, w in C.mod.struct_fields('string')) // 8
    C.statics = [n for n, x in C.mod.globals.items() if x.ty == llir.PTR and not x.const]
    S = 'str'
    for n in (0, 1, 2, 3, 270) + ((4200,) if deep else ()):
        same = n > 3 and n                   # long ones: equal up to their ends
        for chain in ((), (n,), (n, n), (n + 1, n), (max(n - 1, 0), n)) if n < 4 else ((), (n,)) if n < 999 else ((),):
            t, heads = {}, {'buckets': N('e0') if chain else Z}
            for i in range(n):
                t[S, i] = char(n, i)
            for i, m in enumerate(chain):
                t['e%d' % i, o['string', 'len']] = con(m, 32)
                t['e%d' % i, o['string', 'str']] = N('s%d' % i)
                t['e%d' % i, o['string', 'link']] = N('e%d' % (i + 1)) if i + 1 < len(chain) else Z
                for k in range(m + 1):
                    t['s%d' % i, k] = con(0, 8) if k == m else sym('s%d.%d' % (i, k), 8) if not same or k == m - 1 \
                        else char(n, k)
            lccback.Unroll.MAXSTATES = max(30 * n, 4000)
            R = go(r, C, 'stringn', [N(S), con(n, 32)], '%d characters among %s' % (n, chain), types=t, heads=heads,
                   live=[S], facts=address(N(S)))
            for ctx, ev, val, where, st in R.paths():
                try:
                    for b, off in probes(st):
                        if not known(ctx, icmp('sle', Z, off)) or not known(ctx, icmp(
                                'sle', addc(off, 8), con(C.slots * 8, 64))):
                            raise No('a chain outside of the table is used')
                    i = [k for k in range(len(chain)) if val == N('s%d' % k)]
                    if i:
                        if chain[i[0]] != n or not all(known(ctx, icmp(
                                'eq', sym('s%d.%d' % (i[0], k), 8), char(n, k))) for k in range(n) if not same or k == n - 1):
                            raise No('a different string is returned')
                        continue
                    for k, m in enumerate(chain):
                        if m == n and not any(known(ctx, icmp('ne', sym('s%d.%d' % (k, j), 8), char(n, j)))
                                              for j in range(n) if not same or j == n - 1):
                            raise No('a string is made twice')
                    newstring(R, C, ctx, st, val, n, chain)
                except No as x:
                    R.bad(where, str(x))
    lccback.Unroll.MAXSTATES = 4000
    # up to the terminator
    for n in (0, 1, 2, 3, 70, 300):
        t = {(S, i): sym('c%d' % i, 8) for i in range(n)}
        t[S, n] = con(0, 8)
        C2 = names(('string',), 'string.c')
        R = go(r, C2, 'string', [N(S)], 'a string of %d characters' % n, types=t, returns={
            'stringn': lambda p, en, st, a: N('interned'),
            'strlen': lambda p, en, st, a, n=n: con(n, 64) if a[0] == N(S) else None},
            facts=[icmp('ne', sym('c%d' % i, 8), con(0, 8)) for i in range(n)])
        for ctx, ev, val, where, st in R.paths():
            a = [a for n_, a, w in st_calls(st, 'stringn')]
            if val != N('interned') or a != [(N(S), con(n, 32))]:
                R.bad(where, 'is not the string up to its end')


def char(n, i):
    """the characters of the long strings repeat, but for the last one"""
    return sym('c%d' % (i if n < 4 or i == n - 1 else i % 3), 8)


def address(x):
    return [icmp('slt', Z, x), icmp('slt', x, con(1 << 47, 64))]


def newstring(R, C, ctx, st, val, n, chain):
    o = C.o
    e = [x for x in st.ev if x[0] == 'store' and x[1][0] == 's' and str(x[1][1]).startswith('mem') and
         x[2] == con(o['string', 'len'], 64) and x[3] == 4]
    if len(e) != 1:
        raise No('no entry is made')
    ent = e[0][1]
    a = [x for x in st.ev if x[0] == 'call' and x[1] == 'allocate' and single(x[3]) == ent]
    if not a or not known(ctx, icmp('sle', con(C.strsize, 64), a[0][2][0])) or a[0][2][1] != con(C.c['PERM'], 32):
        raise No('the entry is too small or is not kept')
    en = atomterm(ent)
    if rd(R, st, en, o['string', 'len'], 32) != con(n, 32) or rd(R, st, en, o['string', 'str']) != val:
        raise No('the entry has a wrong length or string')
    if rd(R, st, en, o['string', 'link']) != (N('e0') if chain else Z):
        raise No('the strings made before are lost')
    w = [x for x in st.ev if x[0] == 'store' and x[1] == ('b', 'g', 'buckets')]
    if len(w) != 1 or w[0][4] != en or ('probe', w[0][1], w[0][2]) not in st.ev:
        raise No('is entered in another chain than the one it is looked for in')
    b, off = R.eng.split_addr(val)
    for k in range(n + 1):
        x = [y for y in st.ev if y[0] == 'store' and y[3] == 1 and add(R.eng.addr_term(y[1]) if hasattr(
            R.eng, 'addr_term') else atomterm(y[1]), y[2]) == addc(val, k)]
        if not x or x[-1][4] != (char(n, k) if k < n else con(0, 8)):
            raise No('character %d is %s' % (k, show(x[-1][4]) if x else 'not set'))
    # where the next string goes, and how much room there is
    gs = {y[1][2]: y for y in st.ev if y[0] == 'store' and y[1][:2] == ('b', 'g') and y[1][2] != 'buckets'}
    nx = [y[4] for y in gs.values() if y[4][0] == 'l' and is_con(sub(y[4], val)) and scval(sub(y[4], val)) >= 0]
    nx.sort(key=lambda x: scval(sub(x, val)))
    if not nx or scval(sub(nx[0], val)) < n + 1:
        raise No('the string is overwritten by the next one')
    nxt = [k for k, y in gs.items() if y[4] == nx[0]][0]
    lim = [k for k in C.statics if k != nxt]
    if len(lim) != 1:
        raise Anchor('end of the memory for strings')
    al = [x for x in st.ev if x[0] == 'call' and x[1] == 'allocate' and single(x[3]) != ent]
    if al:
        if al[-1][3] != val or al[-1][2][1] != con(C.c['PERM'], 32) or \
                not known(ctx, icmp('sle', con(n + 1, 64), al[-1][2][0])):
            raise No('there is no room for it')
        if not known(ctx, icmp('sle', sub(glob(R, st, lim[0]), val), al[-1][2][0])):
            raise No('the end of the memory is wrong')
    else:
        l0 = R.eng.mem_load(State(), ('b', 'g', lim[0]), Z, 8, llir.PTR)
        if not known(ctx, icmp('sle', con(n + 1, 64), sub(l0, val))) or lim[0] in gs:
            raise No('there is no room for it')


def atomterm(a):
    return a if a[0] == 'l' else terms.atom(a) if hasattr(terms, 'atom') and a[0] != 's' else N(a[1])


def arenas(r):
    """memory handed out is aligned, in its block and used once, until its arena is released"""
    C = names(('allocate', 'newarray'), 'alloc.c')
    o = C.o
    if not {('block', f) for f in ('limit', 'avail', 'next')} <= set(o):
        raise Anchor('struct block')
    C.header, C.align = C.blocksize, 8
    L, A, X = (o['block', f] for f in ('limit', 'avail', 'next'))
    k8 = sym('n16', 64)
    small = [icmp('slt', Z, k8), icmp('slt', k8, con(1 << 27, 64))]
    for a, free, j in [(a, f, 0) for a in (0, 1, 2) for f in (0, 1, 2)] + [(0, 1, j) for j in range(1, 16)]:
        n = sub(terms.mul(k8, con(16, 64)), con(j, 64))
        if 1:
            t, facts = {}, list(small)
            for i, b in enumerate(['blk'] + ['f%d' % k for k in range(free)]):
                for f, off in (('limit', L), ('avail', A)):
                    t[b, off] = N('%s.%s' % (b, f))
                    facts += address(N('%s.%s' % (b, f)))
                facts += address(N(b))
                facts.append(icmp('sle', N(b + '.avail'), N(b + '.limit')))
                facts.append(icmp('sle', addc(N(b), C.header), N(b + '.limit')))
                t[b, X] = Z if i == 0 or i == free else N('f%d' % i)
            R = go(r, C, 'allocate', [n, con(a, 32)], 'memory, %d free blocks, arena %d, size %d mod 16' % (free, a, -j % 16), types=t, facts=facts,
                   globals_={'freeblocks': N('f0') if free else Z, ('arena', 8 * a): N('blk')}, live=('f0', 'f1', 'blk'),
                   returns={'malloc': malloc})
            for ctx, ev, val, where, st in R.paths():
                try:
                    arena1(R, C, ctx, st, val, a, n, free)
                except No as x:
                    R.bad(where, str(x))
            for st, where in R.pol.stops:
                if any(e[0] == 'store' for e in st.ev) and not any(e[1] == 'malloc' for e in st.ev if e[0] == 'call'):
                    R.bad(where, 'gives up')
    m = sym('m', 64)
    C2 = names(('newarray',), 'alloc.c')
    R = go(r, C2, 'newarray', [m, n, sym('a', 32)], 'an array')
    for ctx, ev, val, where, st in R.paths():
        c = [x for n_, x, w in st_calls(st, 'allocate')]
        if len(c) != 1 or not eq(ctx, c[0][0], terms.mul(m, n)) or c[0][1] != sym('a', 32) or \
                not single(val) or not str(single(val)[1]).startswith('mem'):
            R.bad(where, 'is not memory for all elements')
    # the blocks of an arena are free again
    fb = ('b', 'g', 'first')
    for a in (0, 1, 2):
        R = go(r, C, 'deallocate', [con(a, 32)], 'an arena is released', types={}, globals_={
            'freeblocks': N('free'), ('arena', 8 * a): N('last'), ('first', C.blocksize * a + X): N('b0')},
            live=('last', 'free', 'b0'))
        for ctx, ev, val, where, st in R.paths():
            try:
                if rd(R, st, N('last'), X) != N('free'):
                    raise No('the free blocks are lost')
                if glob(R, st, 'freeblocks') != N('b0'):
                    raise No('the blocks of the arena are not free')
                if rd(R, st, fb, C.blocksize * a + X) != Z:
                    raise No('the arena still has its blocks')
                b, off = R.eng.split_addr(rd(R, st, ('b', 'g', 'arena'), 8 * a))
                if b != fb or off != con(C.blocksize * a, 64):
                    raise No('the arena does not start again')
                for e in st.ev:
                    if e[0] == 'store' and e[1][:2] == ('b', 'g') and e[1][2] != 'freeblocks' and not (
                            e[1][2] == 'arena' and e[2] == con(8 * a, 64) or e[1] == fb and
                            e[2] == con(C.blocksize * a + X, 64)):
                        raise No('changes another arena')
            except No as x:
                R.bad(where, str(x))


def malloc(pol, eng, st, a):
    v = pol.fresh(eng, 'malloc')
    for f in [icmp('sle', Z, v), icmp('slt', v, con(1 << 47, 64))]:
        st.ctx.assume(f)
    return v


def arena1(R, C, ctx, st, val, a, n, free):
    o = C.o
    L, A, X = (o['block', f] for f in ('limit', 'avail', 'next'))
    cur = rd(R, st, ('b', 'g', 'arena'), 8 * a)
    b = single(cur)
    if b is None:
        raise No('the arena has no block')
    m = [(e[2][0], e[3]) for e in st.ev if e[0] == 'call' and e[1] == 'malloc']
    new = [v for s, v in m]
    used = []
    if cur == N('blk'):
        start = N('blk.avail')
    else:
        if cur in new:
            if not known(ctx, icmp('ne', cur, Z)):
                raise No('memory that is not there is used')
        elif cur not in [N('f%d' % i) for i in range(free)]:
            raise No('the arena ends with %s' % show(cur))
        d = sub(val, cur)
        if not is_con(d) or scval(d) < C.header or scval(d) % C.align:
            raise No('starts at the head of a block, or is not aligned (%s)' % show(d))
        # the blocks taken are those in front of the list of free ones, linked to the arena
        p = rd(R, st, N('blk'), X)
        while p != Z and len(used) < free + 2:
            used.append(p)
            p = rd(R, st, p, X)
        if cur in new:
            want = [N('f%d' % i) for i in range(free)] + [cur]
        else:
            want = [N('f%d' % i) for i in range(free)]
            want = want[:want.index(cur) + 1]
        if used != want:
            raise No('the blocks of the arena are %s' % ','.join(show(x) for x in used))
        start = val
    left = glob(R, st, 'freeblocks')
    k = len([x for x in used if x not in new])
    if left != (N('f%d' % k) if k < free else Z):
        raise No('free blocks are lost or used twice')
    if cur in new:
        size = [s for s, v in m if v == cur][0]
        lim = rd(R, st, cur, L)
        if not known(ctx, icmp('sle', sub(lim, cur), size)):
            raise No('the end of the block is wrong')
    else:
        lim = N(b[1] + '.limit')
        w = [e for e in stored(st, b) if e[2] == con(L, 64)]
        if w:
            raise No('the end of the block changes')
    if val != start:
        raise No('starts at %s' % show(val))
    end = rd(R, st, cur, A)
    size = sub(end, val)
    if not known(ctx, icmp('sle', n, size)):
        raise No('is too small (%s)' % show(size))
    if not multiple(size, C.align):
        raise No('the next piece is not aligned (%s)' % show(size))
    if not known(ctx, icmp('sle', end, lim)):
        raise No('does not end in its block')
    for e in st.ev:
        if e[0] == 'store' and e[1] == ('b', 'g', 'arena') and e[2] != con(8 * a, 64):
            raise No('changes another arena')


def multiple(t, k):
    """known to be a multiple of k, a power of two: sum of masked atoms"""
    if t[0] != 'l' or t[2] % k:
        return False
    for a, c in t[3]:
        if c % k == 0:
            continue
        x = a
        if x[:2] == ('x', 'and') and is_con(x[4]) and cval(x[4]) % k == 0:
            continue
        return False
    return True


def C40(tier):
    r = Result()
    scopes(r)
    labels_(r)
    sharing(r)
    consts_(r)
    lists_(r)
    strings_(r, tier == 'thorough')
    arenas(r)
    r.rule = RULE
    return r


RULE = ('lookups find the first entry with the name on every path, entries are linked where they are looked for; '
        'equal constants and strings are shared, different ones are not; memory handed out is disjoint')
