"""C39: control flow of statements in rcc (stmt.c): the code of each statement, as a small flow graph
over what its functions emit, compared with the graph the language defines."""
import lccdag
from checks_data import *
from checks_dag import cellat

LOCALN = ('Blockbeg', 'Blockend', 'Local', 'Address', 'Defpoint', 'Label', 'Start', 'Gen', 'Jump', 'Switch', 'IF', 'WHILE', 'DO', 'FOR', 'BREAK', 'CONTINUE', 'SWITCH', 'CASE', 'DEFAULT', 'RETURN',
          'GOTO', 'ELSE', 'REGISTER', 'STATIC', 'GLOBAL', 'LABELS', 'FUNC', 'STMT', 'AUTO', 'CALL',
          'RIGHT', 'COND', 'RET')
OPAQUE_ = ('statement', 'code', 'definelab', 'branch', 'swgen', 'retcode', 'foldcond', 'definept',
           'addlocal', 'caselabel', 'swcode', 'cmp', 'equatelab', 'reachable', 'localaddr', 'jump',
           'equal')
SWTCH = ('sym', 'lab', 'deflab', 'ncases', 'size', 'values', 'labels')
lccdag.OFF['swtch'] = SWTCH
lccdag.OFF['symbol'] = lccdag.OFF['symbol'] + tuple(
    x for x in ('u.f.label', 'src') if x not in lccdag.OFF['symbol'])


def stmt(keep=()):
    lccdag.NAMES[:] = lccdag.NAMES + [n for n in LOCALN if n not in lccdag.NAMES]
    return unit('stmt.c', tuple(n for n in OPAQUE_ if n not in keep),
                ('statement', 'swcode'))


class Code_(Toks):
    """tokens ahead ('E': an expression, 'S': a statement, 'C': a compound) and the code emitted,
    as a list linked through memory"""
    NONT = {'E': 'ID', 'S': 'ID', 'C': 'ID', 'N': 'ICON'}

    def code(self, x):
        return super().code(self.NONT.get(x, x))

    def cur(self, st):
        i = self.at(st)
        return self.toks[i] if i < len(self.toks) else 'EOI'

    def eat(self, pol, eng, st, want):
        if self.cur(st) != want:
            st.ev += (('syntax', 'reads %s as %s' % (self.cur(st), want)),)
        return self.step(pol, eng, st)

    BEFORE = N('before')

    def pending(self, st):
        """the nodes that have been made, but are not in the list of code yet"""
        out = [('walk', self.BEFORE, O, O)]
        for e in st.ev:
            if e[0] == 'pending':
                out = list(out) + [e[1]]
            elif e[0] == 'flushed':
                out = []
        return out

    def flush(self, pol, eng, st):
        p = self.pending(st)
        st.ev += (('flushed',),)
        for x in p:
            self.append(pol, eng, st, x)

    def emit(self, pol, eng, st, what):
        if what[0] == 'listnodes':
            st.ev += (('pending', what),)
            return None
        if what[0] not in ('code', 'definept'):
            self.flush(pol, eng, st)
        return self.append(pol, eng, st, what)

    def append(self, pol, eng, st, what):
        o = self.C.o
        k = sum(1 for e in st.ev if e[0] == 'emit')
        name = 'k%d' % (k + 1)
        cur = cellat(pol, st, 'codelist', N('k0'))
        st.ev += (('emit', name, what),)
        v = N(name)
        st.ctx.assume(icmp('ne', v, Z))
        eng.ptr_atoms.add(single(v))
        for b, f, x in ((v, 'prev', cur), (v, 'next', Z), (cur, 'next', v)):
            self.put(eng, st, single(b), o['code', f], x)
        pol.setg(eng, st, 'codelist', v)
        return v

    def put(self, eng, st, b, off, v):
        eng.mem_store(st, b, con(off, 64), v[1] // 8, v)
        st.ev += (('store', b, con(off, 64), v[1] // 8, v, ''),)

    def handlers(self, extra=None):
        def expr(pol, eng, st, a):
            i = self.at(st)
            if self.cur(st) != 'E':
                st.ev += (('syntax', 'reads %s as an expression' % self.cur(st)),)
            self.step(pol, eng, st)
            tok = a[-1]
            if not is_con(tok):
                raise Incomplete('terminator of an expression')
            if cval(tok):
                self.eat(pol, eng, st, chr(cval(tok)) if cval(tok) < 128 else '?')
            v = N('E%d' % i)
            st.ctx.assume(icmp('ne', v, Z))
            st.ev += (('tree', v, 'stmt', len(st.ev)),)
            return v

        def cond_(pol, eng, st, a):
            v = N('cond(%s)' % show(a[0]))
            st.ctx.assume(icmp('ne', v, Z))
            st.ev += (('tree', v, 'stmt', len(st.ev)),)
            return v

        def texpr(pol, eng, st, a):
            v = expr(pol, eng, st, [a[1]])
            f = single(a[0])
            n = f[2] if f and f[0] == 'b' else None
            if n == 'conditional':
                v = N('cond(%s)' % show(v))
                st.ctx.assume(icmp('ne', v, Z))
            elif n not in ('expr0', 'expr'):
                raise Incomplete('texpr of %s' % show(a[0]))
            st.ev += (('tree', v, 'func' if a[2] == con(self.C.c['FUNC'], 32) else 'stmt',
                       len(st.ev)),)
            return v

        def expect_(pol, eng, st, a):
            x = cval(a[0])
            n = [k for k in LOCALN if x == self.C.c.get(k) and x > 64]
            self.eat(pol, eng, st, n[0] if n else chr(x))
            return 'done'

        def statement(pol, eng, st, a):
            self.eat(pol, eng, st, 'S')
            self.emit(pol, eng, st, ('body',) + tuple(a[:2]))
            return 'done'

        def compound(pol, eng, st, a):
            self.eat(pol, eng, st, '{')
            self.emit(pol, eng, st, ('body',) + tuple(a[:2]))
            return 'done'

        def emits(name):
            def f(pol, eng, st, a):
                st.ev += (('use', a[0] if a else Z),)
                if name == 'walk' and a[0] == Z:
                    self.flush(pol, eng, st)
                    return 'done'
                v = self.emit(pol, eng, st, (name,) + tuple(a))
                return v if name == 'code' else N('nodes') if name == 'listnodes' else 'done'
            return f

        def genlabel(pol, eng, st, a):
            k = sum(1 for e in st.ev if e[0] == 'genlabel')
            v = sym('lab%d' % k, 32)
            st.ev += (('genlabel', v, a[0]),)
            st.ctx.assume(icmp('sgt', v, con(1000000, 32)))
            st.ctx.assume(icmp('slt', v, con(1 << 30, 32)))
            return v
        h = {'expr': expr, 'expr0': expr, 'constexpr': expr, 'cond': cond_, 'texpr': texpr,
             'expect': expect_, 'test': expect_, 'statement.rec': statement, 'compound': compound,
             'genlabel': genlabel, 'gettok': self.gettok,
             'promote': lambda p, e, s, a: N('promote(%s)' % show(a[0]))}
        for n in ('walk', 'listnodes', 'definelab', 'branch', 'swgen', 'retcode', 'definept',
                  'code', 'swcode', 'cmp'):
            h[n] = emits(n)
            h[n + '.rec'] = h[n]
        h.update(extra or {})
        return h

    def globals(self):
        g = super().globals()
        g['codelist'] = N('k0')
        for x in self.toks + ['EOI']:
            c = cval(self.code(x))
            g['kind', c] = con(self.kindof(x), 8)
        return g

    def kindof(self, x):
        x = self.NONT.get(x, x)
        if x in ('ID', 'ICON', '('):
            return self.C.c['ID'] & 255
        if x in (';', 'IF', 'WHILE', 'DO', 'FOR', 'BREAK', 'CONTINUE', 'SWITCH', 'CASE', 'DEFAULT',
                 'RETURN', 'GOTO', 'ELSE', '{'):
            return self.C.c['IF'] & 255
        return ord(x) if len(x) == 1 else 0

    def listing(self, R, st):
        """the code emitted, in the order of the list"""
        o = self.C.o
        by = {e[1]: e[2] for e in st.ev if e[0] == 'emit'}
        out, cur, n = [], N('k0'), 0
        while True:
            nxt = rd(R, st, cur, o['code', 'next']) if n or by else Z
            n += 1
            if nxt == Z or nxt is None:
                break
            a = single(nxt)
            if a is None or a[1] not in by or n > 200:
                raise No('the list of code leads to %s' % show(nxt))
            if rd(R, st, nxt, o['code', 'prev']) != cur:
                raise No('the list of code does not lead back from %s' % (by[a[1]][0],))
            out.append(by[a[1]])
            cur = nxt
        if glob(R, st, 'codelist') != cur:
            raise No('the end of the list of code is lost')
        return out + self.pending(st)


# ---------------------------------------------------------------- flow graphs
class Flow:
    """what a list of code does: positions and their successors"""

    def __init__(self, ctx, items, outer, dead=lambda l: False):
        self.ctx, self.items, self.outer, self.dead = ctx, items, outer, dead
        self.labels = {}
        for i, x in enumerate(items):
            if x[0] == 'definelab':
                if x[1] in self.labels:
                    raise No('defines a label twice')
                self.labels[x[1]] = i

    def at(self, label):
        for k, i in self.labels.items():
            if k == label:
                return self.norm(i)
        return ('dead',) if self.dead(label) else ('to', label)

    def norm(self, i):
        seen = set()
        while True:
            if i in seen:
                return ('loop',)
            seen.add(i)
            if i >= len(self.items):
                return ('end',)
            x = self.items[i]
            if x[0] == 'branch':
                if x[1] not in self.labels:
                    return self.at(x[1])
                i = self.labels[x[1]]
            elif x[0] in ('definelab', 'definept', 'code') and x[0] != 'do':
                i += 1
            else:
                return ('at', i)

    def next(self, i):
        return self.norm(i + 1)

    def kind(self, i):
        """(what, operands) and the successors"""
        x = self.items[i]
        if x[0] in ('walk', 'listnodes'):
            e, t, f = x[1:4]
            if t == O and f == O:
                return ('eval', e), [self.next(i)]
            if t != O and f != O:
                raise No('tests with two labels')
            return ('test', e), ([self.at(t), self.next(i)] if t != O else
                                 [self.next(i), self.at(f)])
        if x[0] == 'body':
            loop, swp = x[1:3]
            oloop, oswp = self.outer
            n = len([y for y in self.items[:i] if y[0] == 'body'])
            new = [loop != oloop, swp != oswp]
            if new == [False, False]:
                return ('body', n), [self.next(i)]
            if new == [True, False]:
                if isinstance(loop, str):
                    return ('body', n), [self.next(i), self.at(x[3]), self.at(x[4])]
                return ('body', n), [self.next(i), self.at(addc(loop, 1)), self.at(addc(loop, 2))]
            if new == [False, True]:
                return ('body', n), [self.next(i), self.at(
                    x[3] if len(x) > 3 else addc(sym('lab0', 32), 1))]
            raise No('changes both loop and switch of a statement')
        return (x[0],) + tuple(x[1:]), [self.next(i)]


def same_flow(ctx, want, got, todo):
    """bisimulation: deterministic graphs"""
    done = set()
    todo = list(todo)
    while todo:
        a, b = todo.pop()
        if (a, b) in done:
            continue
        done.add((a, b))
        if b[0] == 'dead':
            continue
        if a[0] != 'at' or b[0] != 'at':
            if a[0] == 'to' and b[0] == 'to' and eq(ctx, a[1], b[1]):
                continue
            if a[0] == b[0] and a[0] in ('end', 'loop'):
                continue
            raise No('%s where %s' % (place(got, b), place(want, a)))
        (ka, sa), (kb, sb) = want.kind(a[1]), got.kind(b[1])
        if ka[0] != kb[0] or len(ka) != len(kb) or any(
                not (x == y or isinstance(x, tuple) and isinstance(y, tuple) and eq(ctx, x, y))
                for x, y in zip(ka[1:], kb[1:])) or len(sa) != len(sb):
            raise No('%s where %s' % (place(got, b), place(want, a)))
        todo += list(zip(sa, sb))


def place(f, p):
    if p[0] == 'at':
        k = f.kind(p[1])[0]
        return ' '.join(show(x) if isinstance(x, tuple) and x and x[0] == 'l' else str(x)
                        for x in k)
    if p[0] == 'to':
        return 'a jump to %s' % (show(p[1]) if isinstance(p[1], tuple) else p[1])
    return {'end': 'the end', 'loop': 'an endless loop', 'dead': 'nothing'}[p[0]]


# ---------------------------------------------------------------- statements
LOOP, SWP = sym('loop', 32), N('swp')


def run_stmt(r, C, toks, what, loop=LOOP, swp=SWP, types=None, facts=(), returns=None,
             globals_=None, live=(), fn='statement', args=None):
    T = Code_(C, toks)
    g = T.globals()
    g['glevel'] = O
    g['Aflag'] = O
    g.update(globals_ or {})
    t = dict(types or {})
    for n, k in (('voidtype', 'VOID'),):
        t.setdefault((n, C.o['type', 'op']), con(C.c[k], 32))
    g['voidtype'] = N('voidtype')
    R = running(r, C, fn, args if args is not None else [loop, swp, sym('lev', 32)], what,
                types=t, globals_=g, facts=list(facts), returns=T.handlers(returns), rule='flow',
                live=live)
    return T, R


def judge(T, R, want, ctx, where, st, outer, errors=False, extra=None):
    C = T.C
    errs = [e for e in st.ev if e[0] == 'call' and e[1] == 'error']
    if bool(errs) != errors:
        raise No('is %sdiagnosed' % ('' if errs else 'not '))
    for e in st.ev:
        if e[0] == 'syntax' and not errs:
            raise No(e[1])
    if T.at(st) != len(T.toks) - 1 and not errs:
        raise No('goes on reading at the wrong place (%s)' % T.cur(st))
    if want is None:
        return
    items = T.listing(R, st)
    # a label without references: the jumps to it were found to be unreachable
    got = Flow(ctx, items, outer, lambda l: unreferenced(R, ctx, st, l, C))
    # labels are among those made for the statement
    made = [(e[1], cval(e[2])) for e in st.ev if e[0] == 'genlabel']
    for l in got.labels:
        if not any(single(m) and sub(l, m) in [con(k, 32) for k in range(n)] for m, n in made) \
                and l not in (extra or ()):
            raise No('defines label %s, which it has not made' % show(l))
    # a label that is not defined has no references
    for x in items:
        if x[0] == 'body' and x[1] != outer[0]:
            for k in (1, 2):
                l = addc(x[1], k)
                if l not in got.labels and not unreferenced(R, ctx, st, l, C):
                    raise No('does not define label %s' % show(l))
    w = Flow(ctx, [('walk', T.BEFORE, O, O)] + want, outer)
    for l in w.labels:
        if isinstance(l, tuple) and l not in got.labels:
            raise No('does not define label %s' % show(l))
    starts = [(w.norm(0), got.norm(0))]
    starts += [(w.at(l), got.at(l)) for l in w.labels if isinstance(l, tuple)]
    # statements are entered by labels, too
    bs = [[('at', i) for i, x in enumerate(f.items) if x[0] == 'body'] for f in (w, got)]
    if len(bs[0]) != len(bs[1]):
        raise No('reads %d statements' % len(bs[1]))
    same_flow(ctx, w, got, starts + list(zip(*bs)))
    lifetimes(st)


def unreferenced(R, ctx, st, label, C):
    """the path was taken because no reference has been seen"""
    v = R.pol.types.get(('findlabel(%s)' % show(label), C.o['symbol', 'ref']))
    return v is not None and known_float_zero(v)


def known_float_zero(v):
    return v[0] == 'fc' and float(v[1]) == 0


def lifetimes(st):
    """trees of statement lifetime are not used once a statement has been read"""
    ev = list(st.ev)
    life = {}
    dead = False
    for i, e in enumerate(ev):
        if e[0] == 'tree':
            life[e[1]] = (e[2], i)
        if e[0] == 'use' or e[0] == 'call' and e[1] in ('asgn', 'cast', 'foldcond'):
            t = e[1] if e[0] == 'use' else e[2][1] if e[1] == 'asgn' else e[2][0]
            if t in life and life[t][0] == 'stmt' and any(
                    x[0] == 'flushed' or x[0] == 'call' and x[1] == 'deallocate' for x in ev[life[t][1]:i]):
                raise No('uses a tree whose memory was freed with the statement before')


def L(x):
    return ('definelab', x)


def B(x):
    return ('branch', x)


def ev(e):
    return ('walk', e, O, O)


def iftrue(e, l):
    return ('walk', e, l, O)


def E(i):
    return N('E%d' % i)


def K(i):
    return N('cond(E%d)' % i)


def body(cont=None, brk=None, sw=None):
    if cont:
        return ('body', 'new', SWP, cont, brk)
    return ('body', LOOP, SWP)


def refs(C, k, zero):
    """label lab0+k has references or not"""
    n = 'findlabel(%s)' % show(addc(sym('lab0', 32), k))
    return {(n, C.o['symbol', 'ref']): ('fc', '0' if zero else '1', 32)}


def simple(r, C, toks, what, want, types=None, returns=None, facts=(), other=None):
    T, R = run_stmt(r, C, toks, what, types=types, returns=returns, facts=facts)
    for ctx, evs, val, where, st in R.paths():
        try:
            judge(T, R, want, ctx, where, st, (LOOP, SWP))
        except No as e:
            try:
                if not other:
                    raise
                judge(T, R, other, ctx, where, st, (LOOP, SWP))
            except No:
                R.bad(where, str(e))


def loops(r):
    C = stmt()
    C.fn('statement')
    for zero in (0, 1):
        t2, t1 = refs(C, 2, zero), refs(C, 1, zero)
        simple(r, C, ['IF', '(', 'E', ')', 'S', 'ID'], 'if', [iftrue(K(2), 'y'), B('n'), L('y'),
               body(), L('n')], types=t1)
        simple(r, C, ['IF', '(', 'E', ')', 'S', 'ELSE', 'S', 'ID'], 'if else', [
            iftrue(K(2), 'y'), B('n'), L('y'), body(), B('x'), L('n'), body(), L('x')],
            types=t1)
        simple(r, C, ['WHILE', '(', 'E', ')', 'S', 'ID'], 'while', [
            L('c'), iftrue(K(2), 'y'), B('x'), L('y'), body('c', 'x'), B('c'), L('x')], types=t2)
        simple(r, C, ['DO', 'S', 'WHILE', '(', 'E', ')', ';', 'ID'], 'do', [
            L('b'), body('c', 'x'), L('c'), iftrue(K(4), 'b'), L('x')], types=t2)
        for e1 in (0, 1):
            for e2 in (0, 1):
                for e3 in (0, 1):
                    for once in ((0, 1) if e1 and e2 else (0,)):
                        toks = ['FOR', '('] + ['E'] * e1 + [';'] + ['E'] * e2 + [';'] + \
                            ['E'] * e3 + [')', 'S', 'ID']
                        i2 = 3 + e1
                        i3 = i2 + e2 + 1
                        # a first test that is true can be left out
                        w, w2 = [[ev(E(2))] * e1 + [B('t')] * t + [
                            L('b'), body('c', 'x'), L('c')] + [ev(E(i3))] * e3 + [L('t')] +
                            ([iftrue(K(i2), 'b')] if e2 else [B('b')]) + [L('x')]
                            for t in ((1, 0) if once else (e2, e2))]

                        def fold(pol, eng, st, a, once=once, e1=e1, i2=i2):
                            if list(a) != [E(2) if e1 else Z, K(i2)]:
                                st.ev += (('syntax', 'decides on the first test from the wrong '
                                           'expressions'),)
                            return con(once, 32)
                        simple(r, C, toks, 'for (%s;%s;%s)%s' % (
                            'e1' if e1 else '', 'e2' if e2 else '', 'e3' if e3 else '',
                            ', first test true' if once else ''), w, types=t2,
                            returns={'foldcond': fold}, other=w2 if once else None)


def jumps(r):
    """break, continue, return, goto, labels, expression statements"""
    C = stmt()
    o = C.o
    # where break and continue lead
    for lp in (0, 1):
        for sw in (0, 1, 2):          # no switch; switch inside the loop; loop inside the switch
            if sw == 2 and not lp:
                continue
            loop, swp = LOOP if lp else O, SWP if sw else Z
            t = {('swp', o['swtch', 'lab']): sym('swlab', 32)}
            facts = [icmp('sgt', sym('swlab', 32), O), icmp('slt', sym('swlab', 32), con(1 << 30, 32)),
                     icmp('slt', LOOP, con(1 << 30, 32))]
            if lp:
                facts.append(icmp('sgt', LOOP, O))
                if sw:
                    facts.append(icmp('sgt' if sw == 1 else 'slt', sym('swlab', 32), LOOP))
            for w in ('BREAK', 'CONTINUE'):
                to = addc(LOOP, 1) if w == 'CONTINUE' else addc(sym('swlab', 32), 1) \
                    if sw == 1 else addc(LOOP, 2)
                ok = lp or w == 'BREAK' and sw
                T, R = run_stmt(r, C, [w, ';', 'ID'], w.lower() + (' in a loop' if lp else '') + (
                    '', ' in a switch', ' around a switch')[sw], loop, swp, t, facts,
                    live=('swp',) if sw else ())
                finish(T, R, [B(to)] if ok else None, (loop, swp), not ok)
    cf = {'cfunc': N('cfunc')}
    for void in (0, 1):
        for e in (0, 1):
            rty = N('voidtype') if void else N('rty')
            t = {('cfunc', o['symbol', 'u.f.label']): sym('exit', 32)}
            T, R = run_stmt(r, C, ['RETURN'] + ['E'] * e + [';', 'ID'], 'return%s in a %sfunction' % (
                ' e' * e, 'void ' * void), types=t, globals_=cf, facts=[
                    icmp('ne', N('rty'), N('voidtype'))],
                returns={'freturn': lambda p, en, st, a, rty=rty: rty})
            finish(T, R, None if void and e else [('retcode', E(1) if e else Z), B(sym('exit', 32))],
                   (LOOP, SWP), void and e)
    lab = sym('userlab', 32)
    t = {('known', o['symbol', 'u.l.label']): lab}
    b, bit = C.flag('symbol', 'defined', True)
    for known_ in (0, 1):
        for defd in (0, 1):
            if defd and not known_:
                continue
            sy = N('known') if known_ else Z
            t2 = dict(t)
            t2['known', b] = con(bit if defd else 0, 8)
            h = {'lookup': lambda p, en, st, a, sy=sy: sy,
                 'install': lambda p, en, st, a: N('installed'),
                 'getchr': lambda p, en, st, a: con(ord(':'), 32)}
            g = {'stmtlabs': N('stmtlabs'), 'token': N('token')}
            for form, toks in (('goto', ['GOTO', 'ID', ';', 'ID']), ('label', ['ID', ':', 'S', 'ID'])):
                if form == 'label':
                    t2['installed', b] = O
                T, R = run_stmt(r, C, toks, '%s with a label %s' % (form, (
                    'that is known' if known_ else 'seen first') + (', defined' * defd)),
                    types=t2, globals_=g, returns=h, live=('known', 'installed'))
                new = sym('lab0', 32)
                l = lab if known_ else new
                want = [B(l)] if form == 'goto' else [L(l), body()]
                bad = form == 'label' and defd

                def more(ctx, st, R=R, known_=known_, form=form):
                    look = [e[2] for e in st.ev if e[0] == 'call' and e[1] == 'lookup']
                    if look != [(N('token'), N('stmtlabs'))]:
                        raise No('looks the label up in the wrong place')
                    if not known_:
                        ins = [e[2] for e in st.ev if e[0] == 'call' and e[1] == 'install']
                        if len(ins) != 1 or tuple(ins[0][:3]) != (N('token'), ('l', 64, 0, (
                                (('b', 'g', 'stmtlabs'), 1),)), O) or \
                                ins[0][3] != con(C.c['FUNC'], 32):
                            raise No('does not enter the label')
                        if not eq(ctx, rd(R, st, N('installed'), o['symbol', 'u.l.label'], 32),
                                  sym('lab0', 32)):
                            raise No('the label entered has another number')
                        expect_no(ctx, 'its scope', rd(R, st, N('installed'), o['symbol', 'scope'], 32),
                                  con(C.c['LABELS'], 32))
                    if form == 'label':
                        v = rd(R, st, N('known' if known_ else 'installed'), b, 8)
                        x = bitvec(v)
                        if x is None or x[bit.bit_length() - 1] != 1:
                            raise No('the label is not marked as defined')
                finish(T, R, None if bad else want, (LOOP, SWP), bad, None if bad else more,
                       made=(lab,))
    for toks, want in ((['ID', ';', 'ID'], None),):
        pass
    simple(r, C, [';', 'ID'], 'an empty statement', [])
    simple(r, C, ['{', 'ID'], 'a compound statement', [body()])
    for n in (0, 5, 300):
        for gl in (0, 3):
            T, R = run_stmt(r, C, ['E', ';', 'ID'], 'an expression statement', globals_={
                'nodecount': con(n, 32), 'glevel': con(gl, 32)},
                returns={'getchr': lambda p, en, st, a: con(ord(' '), 32)})
            finish(T, R, [ev(E(0))], (LOOP, SWP), False)
    conds(r, C)


def expect_no(ctx, what, got, want):
    if not eq(ctx, got, want):
        raise No('%s is %s' % (what, show(got)))


def finish(T, R, want, outer, errors, more=None, made=()):
    for ctx, evs, val, where, st in R.paths():
        try:
            judge(T, R, want, ctx, where, st, outer, errors=bool(errors), extra=made)
            if more:
                more(ctx, st)
        except No as e:
            R.bad(where, str(e))


def conds(r, C):
    """the condition of a statement; the first test of a for statement"""
    o, K = C.o, C.c
    T, R = run_stmt(r, C, ['E', ')', 'ID'], 'a condition', fn='conditional', args=[con(ord(')'), 32)])
    for ctx, evs, val, where, st in R.paths():
        try:
            judge(T, R, None, ctx, where, st, (LOOP, SWP))
            expect_no(ctx, 'the condition', val, N('cond(E0)'))
        except No as e:
            R.bad(where, str(e))
    C = stmt(('foldcond',))
    cmps = ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE')
    # e1: v = constant; e2: v <op> constant. Anything else is tested
    for op in cmps + ('AND', 'ADD', 'OR'):
        for e1 in ('asgn', 'other', 'asgnx', 'asgnind', 'none'):
            for lhs in ('v', 'w', 'deep'):
                for c2 in ('same', 'type', 'var'):
                    for res in ('CNST', 'EQ'):
                        t = {('e1', o['tree', 'op']): con(K['ASGN' if e1[:4] == 'asgn' else 'CALL'] + K['I'], 32),
                             ('e1', o['tree', 'kids']): N('a'), ('e1', o['tree', 'kids'] + 8): N('k'),
                             ('a', o['tree', 'op']): con(K['INDIR' if e1 == 'asgnind' else 'ADDRL'] + K['P'], 32),
                             ('a', o['tree', 'u.sym']): N('v'),
                             ('k', o['tree', 'op']): con(K['ADD' if e1 == 'asgnx' else 'CNST'] + K['I'], 32),
                             ('e2', o['tree', 'op']): con(K[op] + K['I'], 32),
                             ('e2', o['tree', 'type']): N('T'),
                             ('e2', o['tree', 'kids']): N('l'), ('e2', o['tree', 'kids'] + 8): N('r'),
                             ('l', o['tree', 'op']): con(K['CVI' if lhs == 'deep' else 'INDIR'] + K['I'], 32),
                             ('l', o['tree', 'kids']): N('la'),
                             ('la', o['tree', 'u.sym']): N('v' if lhs != 'w' else 'w'),
                             ('la', o['tree', 'op']): con(K['ADDRL'] + K['P'], 32),
                             ('r', o['tree', 'op']): con(K['INDIR' if c2 == 'var' else 'CNST'] +
                                                        K['U' if c2 == 'type' else 'I'], 32),
                             ('fold', o['tree', 'op']): con(K[res] + K['I'], 32),
                             ('fold', o['tree', 'u.v']): sym('value', 64)}

                        def folded(pol, eng, st, a):
                            return N('fold')
                        R = running(r, C, 'foldcond', [Z if e1 == 'none' else N('e1'), N('e2')],
                                    'the first test of a for statement (%s, %s of %s, %s)' % (
                                        e1, op, lhs, c2), types=t, facts=[icmp('ne', N('v'), N('w'))],
                                    returns={'simplify': folded}, rule='flow', pure=tuple(
                                        x for x in lccdag.PURE if x != 'simplify'))
                        good = op in cmps and e1 == 'asgn' and lhs == 'v' and c2 == 'same'
                        for ctx, evs, val, where, st in R.paths():
                            try:
                                if eq(ctx, val, O):
                                    continue
                                if not good:
                                    raise No('is left out')
                                cs = [e[2] for e in st.ev if e[0] == 'call' and e[1] == 'simplify']
                                if cs != [(con(K[op], 32), N('T'), N('k'), N('r'))]:
                                    raise No('is decided from something else')
                                if res != 'CNST' or not eq(ctx, val, trunc(sym('value', 64), 32)):
                                    raise No('is decided by something else than the constant')
                            except No as e:
                                R.bad(where, str(e))


def labels_(r):
    """case and default"""
    C = stmt()
    o, K = C.o, C.c
    for sw in (0, 1):
        swp = SWP if sw else Z
        for cases in (1, 2, 3):
            for uns in (0, 1):
                for good in (1, 0):
                    t = {('swp', o['swtch', 'sym']): N('swsym'),
                         ('swsym', o['symbol', 'type']): N('swty'),
                         ('swty', o['type', 'op']): con(K['UNSIGNED' if uns else 'INT'], 32),
                         ('swty', o['type', 'size']): con(4, 32)}
                    for k in range(cases):
                        e, c = 'E%d' % (1 + 3 * k), 'cast(E%d,swty)' % (1 + 3 * k)
                        t[e, o['tree', 'op']] = con(K['CNST' if good else 'INDIR'] + K['I'], 32)
                        t[e, o['tree', 'type']] = N('T')
                        t['T', o['type', 'op']] = con(K['INT'], 32)
                        t[c, o['tree', 'type']] = N('swty')
                        t[c, o['tree', 'op']] = con(K['CNST'] + K['U' if uns else 'I'], 32)
                        t[c, o['tree', 'u.v']] = zext(sym('u%d' % k, 32), 64) if uns else \
                            sext(sym('i%d' % k, 32), 64)
                    toks = ['CASE', 'E', ':'] * cases + ['S', 'ID']
                    what = '%d case labels (%s%s)%s' % (
                        cases, 'unsigned' if uns else 'int', '' if good else ', not constant',
                        '' if sw else ' outside a switch')
                    T, R = run_stmt(r, C, toks, what, LOOP, swp, t, live=('swp',) if sw else (),
                                    globals_={'needconst': O})
                    for ctx, evs, val, where, st in R.paths():
                        try:
                            judge(T, R, [L(sym('lab0', 32)), ('body', LOOP, swp)] if sw and good else
                                  None, ctx, where, st, (LOOP, swp), errors=not (sw and good))
                            if not (sw and good):
                                continue
                            cl = [e[2] for e in st.ev if e[0] == 'call' and e[1] == 'caselabel']
                            if len(cl) != cases:
                                raise No('enters %d labels' % len(cl))
                            for k, a in enumerate(cl):
                                v = sext(sym(('u%d' if uns else 'i%d') % k, 32), 64)
                                if a[0] != SWP or not eq(ctx, a[2], sym('lab0', 32)):
                                    raise No('enters the wrong label')
                                if not eq(ctx, a[1], v) and not bits_eq(
                                        ctx, a[1], v, sym('u%d' % k, 32)):
                                    raise No('the value of label %d is %s instead of %s' % (
                                        k + 1, show(a[1]), show(v)))
                            if glob(R, st, 'needconst', 32) not in (O, None):
                                raise No('constants are needed from here on')
                        except No as e:
                            R.bad(where, str(e))
        for extra in (0, 1):
            t = {('swp', o['swtch', 'deflab']): N('before') if extra else Z,
                 ('swp', o['swtch', 'lab']): sym('swlab', 32)}
            n = 'findlabel(swlab)'
            t[n, o['symbol', 'u.l.label']] = sym('swlab', 32)
            T, R = run_stmt(r, C, ['DEFAULT', ':', 'S', 'ID'], 'default' + ', the second one' * extra,
                            LOOP, swp, t, live=(('swp',) if sw else ()) + (n,) + (
                                ('before',) if extra else ()))
            ok = sw and not extra

            def more(ctx, st, R=R):
                expect_no(ctx, 'the default label', rd(R, st, SWP, o['swtch', 'deflab']),
                          sym('findlabel(swlab)', 64))
            finish(T, R, [L(sym('swlab', 32)), ('body', LOOP, swp)] if ok else None, (LOOP, swp),
                   not ok, more if ok else None, made=(sym('swlab', 32),))


def bits_eq(ctx, a, b, leaf):
    """equal bits, with what the path knows about the sign of leaf"""
    x, y = bitvec(a), bitvec(b)
    top = and_(zext(leaf, 64), con(1 << 31, 64))
    s = 0 if known(ctx, icmp('eq', top, Z)) else 1 if known(ctx, icmp('ne', top, Z)) else None
    if x is None or y is None:
        return False
    m = (single(leaf), 31)

    def f(v):
        return [s if b == m and s is not None else b for b in v]
    return f(x) == f(y)


def switches(r):
    C = stmt()
    o, K = C.o, C.c
    S = {f: o['swtch', f] for f in SWTCH}
    e = 'cast(E2,promote(ET))'
    SWTOKS = ['SWITCH', '(', 'E', ')', 'S', 'ID']
    cell = [Code_(C, SWTOKS)]
    for form in ('var', 'param', 'global', 'other type', 'volatile', 'deref', 'computed', 'not int'):
        for deflab in (0, 1):
            for ncases in (0, 1, 2):
                for zero in (0, 1):
                    vt = 'XT' if form == 'other type' else 'VT' if form == 'volatile' else 'ET2'
                    t = {('E2', o['tree', 'type']): N('ET'),
                         ('ET', o['type', 'op']): con(K['STRUCT' if form == 'not int' else 'INT'], 32),
                         # values have unqualified types
                         (e, o['tree', 'type']): N('ET2'),
                         (e, o['tree', 'op']): con(K['ADD' if form == 'computed' else 'INDIR'] + K['I'], 32),
                         (e, o['tree', 'kids']): N('A'),
                         ('A', o['tree', 'op']): con(K[{'param': 'ADDRF', 'global': 'ADDRG',
                                                       'deref': 'INDIR'}.get(form, 'ADDRL')] + K['P'], 32),
                         ('A', o['tree', 'u.sym']): N('v'),
                         ('v', o['symbol', 'type']): N(vt),
                         ('ET2', o['type', 'op']): con(K['INT'], 32),
                         ('XT', o['type', 'op']): con(K['INT'], 32),
                         ('VT', o['type', 'op']): con(K['VOLATILE'], 32),
                         ('VT', o['type', 'type']): N('ET2')}
                    t.update(refs(C, 1, zero))

                    def statement(pol, eng, st, a, deflab=deflab, ncases=ncases):
                        T = cell[0]
                        T.eat(pol, eng, st, 'S')
                        b, off = eng.split_addr(a[1])
                        got = {}
                        for f in SWTCH:
                            w = 8 if f in ('sym', 'deflab', 'values', 'labels') else 4
                            got[f] = eng.mem_load(st, b, addc(off, S[f]), w,
                                                  llir.PTR if w == 8 else ('i', 32))
                        st.ev += (('sw', got, a[1]),)
                        # the labels of the statement
                        eng.mem_store(st, b, addc(off, S['deflab']), 8, N('deflab') if deflab else Z)
                        eng.mem_store(st, b, addc(off, S['ncases']), 4, con(ncases, 32))
                        T.emit(pol, eng, st, ('body', a[0], a[1]))
                        return 'done'

                    def swgen(pol, eng, st, a):
                        b, off = eng.split_addr(a[0])
                        d = eng.mem_load(st, b, addc(off, S['deflab']), 8, llir.PTR)
                        y = eng.mem_load(st, b, addc(off, S['sym']), 8, llir.PTR)
                        cell[0].emit(pol, eng, st, ('swgen', d, y))
                        return 'done'
                    h = {'statement.rec': statement, 'swgen': swgen,
                         'genident': lambda p, en, st, a: N('temp'),
                         'promote': lambda p, en, st, a: N('promote(%s)' % show(a[0])),
                         'retype': lambda p, en, st, a: a[0],
                         'newarray': lambda p, en, st, a: p.fresh(en, 'array')}
                    T, R = run_stmt(r, C, SWTOKS, 'switch (%s%s, %s)' % (
                        form, ', default' * deflab, '%d cases' % ncases), types=t, returns=h, live=('deflab',),
                        facts=[icmp('ne', N(a), N(b)) for a, b in (
                            ('XT', 'ET2'), ('VT', 'ET2'), ('XT', 'VT'))])
                    direct = form in ('var', 'param', 'global')
                    for ctx, evs, val, where, st in R.paths():
                        try:
                            if form == 'not int':
                                judge(T, R, None, ctx, where, st, None, errors=True)
                                continue
                            sw = [x for x in st.ev if x[0] == 'sw']
                            if len(sw) != 1:
                                raise No('reads no statement')
                            got, addr = sw[0][1:]
                            if not eq(ctx, got['lab'], sym('lab0', 32)) or got['deflab'] != Z or \
                                    got['ncases'] != O:
                                raise No('starts with %s' % ', '.join(
                                    '%s %s' % (f, show(got[f])) for f in ('lab', 'deflab', 'ncases')))
                            room(ctx, st, got)
                            vs = got['sym']
                            if vs != N('v') and vs != N('temp') or vs == N('v') and not direct:
                                raise No('decides by the value of %s' % show(vs))
                            dl = N('deflab') if deflab else sym('findlabel(lab0)', 64)
                            want = []
                            if vs == N('temp'):
                                # the value is kept in a variable of its own
                                asgn_ = sym('asgn(temp,%s)' % e, 64)
                                want.append(ev(asgn_))
                                gi = [x[2] for x in st.ev if x[0] == 'call' and x[1] == 'genident']
                                if len(gi) != 1 or gi[0][1] != N('ET2'):
                                    raise No('makes a variable of the wrong type')
                                al = [x[2] for x in st.ev if x[0] == 'call' and x[1] == 'addlocal']
                                if al != [(N('temp'),)]:
                                    raise No('the variable is not a local one')
                            if ncases:
                                want.append(('swgen', dl, vs))
                            want += [B('d'), ('body', LOOP, addr, 'x')]
                            if deflab:
                                want[-2] = B(sym('lab0', 32))
                            else:
                                want += [L('d')]
                            want += [L('x')]
                            judge(T, R, want, ctx, where, st, (LOOP, SWP))
                        except No as x:
                            R.bad(where, str(x))


def room(ctx, st, got):
    """the tables have the size that is noted"""
    for f, w in (('values', 8), ('labels', 8)):
        c = [x for x in st.ev if x[0] == 'call' and x[1] in ('newarray', 'allocate') and
             x[3] == got[f]]
        if len(c) != 1:
            raise No('the table %s is not allocated' % f)
        a = c[0][2]
        n = cval(a[0]) * (cval(a[1]) if c[0][1] == 'newarray' else 1) if is_con(a[0]) else 0
        if not is_con(got['size']) or n < cval(got['size']) * w:
            raise No('the table %s is too small' % f)
    if got['values'] == got['labels']:
        raise No('values and labels share a table')


# ---------------------------------------------------------------- selection of a case
def selection(r):
    C = stmt(('swcode', 'cmp'))
    o, K = C.o, C.c
    n = 0
    for lo in (0, 2):
        for sizes in ((1,), (2,), (3,), (4,), (6,), (1, 1), (2, 5), (5, 1), (3, 2), (4, 4), (1, 1, 1),
                      (2, 3, 1), (1, 5, 2), (6, 4, 5), (1, 1, 1, 1), (5, 1, 4, 2), (1, 2, 4, 1, 1)):
            for uns in (0, 1):
                dispatch(r, C, lo, sizes, uns)
                n += 1
    return n


def dispatch(r, C, lo, sizes, uns):
    o, K = C.o, C.c
    W = {f: o['swtch', f] for f in SWTCH}
    first = 3 if lo else 0
    bs = [first]
    for s in sizes:
        bs.append(bs[-1] + s)
    ub = lo + len(sizes) - 1
    t = {('swp', W['sym']): N('x'), ('swp', W['deflab']): N('deflab'), ('swp', W['values']): N('v'),
         ('swp', W['labels']): N('labels'), ('swp', W['ncases']): con(bs[-1] + 2, 32),
         ('swp', W['size']): con(512, 32),
         ('x', o['symbol', 'type']): N('XT'), ('XT', o['type', 'op']): con(K['UNSIGNED' if uns else 'INT'], 32),
         ('XT', o['type', 'size']): con(4, 32),
         ('deflab', o['symbol', 'u.l.label']): sym('dl', 32)}
    facts = [icmp('ne', sym('dl', 32), sym('lab%d' % k, 32)) for k in range(3)]
    for i, b in enumerate(bs):
        t['b', 4 * (lo + i)] = con(b, 32)
    for j in range(bs[-1]):
        t['v', 8 * j] = sext(sym('v%d' % j, 32), 64)
        t['labels', 8 * j] = N('case%d' % j)
        t['case%d' % j, o['symbol', 'u.l.label']] = sym('cl%d' % j, 32)
        if j:
            facts.append(icmp('slt', sext(sym('v%d' % (j - 1), 32), 64), sext(sym('v%d' % j, 32), 64)))
    for m in METHODS:
        t['IR', o['interface', m]] = N('IR.' + m)
    t['sub', o['tree', 'type']] = N('ST')
    terms = {}

    def pure_(name):
        def f(pol, eng, st, a):
            v = N('%s(%s)' % (name, ','.join(show(x) for x in a)))
            pol.terms[single(v)] = (name, tuple(a))
            if name == 'op-':
                pol.types[single(v)[1], o['tree', 'type']] = N('ST')
                pol.types['ST', o['type', 'size']] = con(4, 32)
            return v
        return f
    ps = ('eqtree', 'signedint', 'pointer', 'op+', 'op-', 'array')
    g = {('optree', 8 * ord('+')): N('op+'), ('optree', 8 * ord('-')): N('op-'), 'IR': N('IR'),
         'unsignedptr': N('unsignedptr'), 'unsignedlong': N('unsignedlong')}
    t['unsignedptr', o['type', 'size']] = con(4, 32)
    h = {p: pure_(p) for p in ps}
    h['genident'] = lambda p, en, st, a: N('table')
    h['genlabel'] = None
    T, R = run_stmt(r, C, ['ID'], 'selection among %s cases%s' % ('+'.join(map(str, sizes)),
                    ' of an unsigned value' * uns), fn='swcode', types=t, facts=facts, globals_=g,
                    returns={k: v for k, v in h.items() if v}, args=[SWP, N('b'), con(lo, 32), con(ub, 32)])
    D = Dispatch(C, R, lo, bs)
    for ctx, evs, val, where, st in R.paths():
        try:
            items = T.listing(R, st)
            D.run(ctx, st, items)
        except No as e:
            R.bad(where, str(e))


class Dispatch:
    """where the code of a selection leads, for each place of the value among the cases"""

    def __init__(self, C, R, lo, bs):
        self.C, self.R, self.lo, self.bs = C, R, lo, bs

    def run(self, ctx, st, items):
        R = self.R
        F = Flow(ctx, items, (LOOP, SWP))
        for l in F.labels:
            if not single(l) or not str(single(l)[1]).startswith('lab'):
                raise No('defines label %s, which it has not made' % show(l))
        self.var = [e for e in st.ev if e[0] == 'call' and e[1] == 'genident']
        for pos in range(2 * self.bs[0], 2 * self.bs[-1] + 1):
            j = pos // 2
            # pos even: below v[j] and above v[j-1]; odd: equal to v[j]
            want = sym('cl%d' % j, 32) if pos & 1 else sym('dl', 32)
            got = self.follow(ctx, st, F, items, pos)
            if not eq(ctx, got, want):
                what = 'equal to case %d' % (j + 1) if pos & 1 else \
                    'below case %d and above the one before it' % (j + 1) if j < self.bs[-1] else \
                    'above all cases'
                raise No('a value %s leads to %s' % (what, show(got)))

    def index(self, ctx, c):
        for j in range(self.bs[-1]):
            if c == sext(sym('v%d' % j, 32), 64):
                return j
        raise No('compares with %s' % show(c))

    def follow(self, ctx, st, F, items, pos):
        C, R = self.C, self.R
        K = C.c
        p = F.norm(1)          # behind what was there before
        for _ in range(200):
            if p[0] == 'to':
                return p[1]
            if p[0] != 'at':
                raise No('the code runs on')
            i = p[1]
            x = items[i]
            if x[0] == 'swcode':
                if x[1:3] != (SWP, N('b')) or not is_con(x[3]) or not is_con(x[4]):
                    raise No('goes on with other buckets')
                a, b = cval(x[3]) - self.lo, cval(x[4]) - self.lo
                if not 0 <= a <= b < len(self.bs) - 1 or b - a >= len(self.bs) - 2:
                    raise No('goes on with buckets %d to %d' % (a, b))
                if pos & 1 and self.bs[a] <= pos // 2 < self.bs[b + 1]:
                    return sym('cl%d' % (pos // 2), 32)
                return sym('dl', 32)
            if x[0] not in ('walk', 'listnodes'):
                raise No('contains %s' % x[0])
            e = R.pol.terms.get(single(x[1]))
            if e and e[0] == 'tree' and e[1][0] == con(K['JUMP'], 32):
                return self.table(ctx, st, F, items, i, e, pos)
            if not e or e[0] != 'eqtree' or not is_con(e[1][0]):
                raise No('tests %s' % show(x[1]))
            op, l, c = e[1]
            ty = sym('signedint(XT)', 64)
            if l != sym('cast(idtree(x),%s)' % show(ty), 64):
                raise No('compares %s' % show(l))
            c = R.pol.terms.get(single(c))
            if not c or c[0] != 'cnsttree' or c[1][0] != ty:
                raise No('compares with another type')
            j = self.index(ctx, c[1][1])
            q = 2 * j + 1
            name = [n for n in ('EQ', 'NE', 'LT', 'LE', 'GT', 'GE') if K[n] == cval(op)]
            if not name:
                raise No('is no comparison')
            v = {'EQ': pos == q, 'NE': pos != q, 'LT': pos < q, 'LE': pos <= q, 'GT': pos > q,
                 'GE': pos >= q}[name[0]]
            tl, fl = x[2:4]
            if tl != O and fl != O or tl == O and fl == O:
                raise No('compares without using the result')
            p = F.at(tl) if tl != O and v else F.at(fl) if fl != O and not v else F.next(i)
        raise No('the code does not end')

    def table(self, ctx, st, F, items, i, e, pos):
        C, R = self.C, self.R
        o, K = C.o, C.c
        if items[i][2:4] != (O, O):
            raise No('jumps with labels')
        sw = [n for n, x in enumerate(items) if n > i and x[0] == 'code']
        if not sw or sw[0] != i + 1 or items[i + 1][1] != con(K['Switch'], 32):
            raise No('does not say what the table contains')
        nm = [x[1] for x in st.ev if x[0] == 'emit' and x[2] is items[i + 1] or
              x[0] == 'emit' and x[2] == items[i + 1]]
        k = nm[[x for x in items[:i + 1] if x == items[i + 1]].__len__()]
        vals = rd(R, st, N(k), o['code', 'u.swtch.values'])
        labs = rd(R, st, N(k), o['code', 'u.swtch.labels'])
        size = rd(R, st, N(k), o['code', 'u.swtch.size'], 32)
        lo = sub(vals, N('v'))
        if not is_con(lo) or not is_con(size) or sub(labs, N('labels')) != lo or scval(lo) % 8:
            raise No('the table is made of %s, %s, %s' % (show(vals), show(labs), show(size)))
        a = scval(lo) // 8
        b = a + cval(size) - 1
        for f, w in (('table', N('table')), ('deflab', N('deflab'))):
            if rd(R, st, N(k), o['code', 'u.swtch.' + f]) != w:
                raise No('the table is noted as %s' % f)
        if not (self.bs[0] <= a <= b < self.bs[-1]):
            raise No('the table has the cases %d to %d' % (a, b))
        # the index counts from the first value of the table
        base = R.pol.terms.get(single(e[1][2]))
        ty = 'signedint(XT)'
        sb = sym('op-(%d,cast(idtree(x),%s),cnsttree(%s,%s))' % (
            K['SUB'], ty, ty, show(sext(sym('v%d' % a, 32), 64))), 64)
        ok = [sym('rvalue(op+(%d,pointer(idtree(table)),%s))' % (K['ADD'], show(x)), 64)
              for x in (sb, sym('cast(%s,unsignedlong)' % show(sb), 64))]
        if e[1][2] not in ok:
            raise No('the table is indexed by %s' % show(e[1][2]))
        if not any(x[0] == 'call' and x[1] == 'IR.defsymbol' and x[2] == (N('table'),) for x in st.ev):
            raise No('the back end does not know the table')
        if len(self.var) != 1 or self.var[0][2][0] != con(K['STATIC'], 32) or \
                self.var[0][2][2] != con(K['GLOBAL'], 32):
            raise No('the table is no static object')
        if not 2 * a + 1 <= pos <= 2 * b + 1:
            raise No('a value %s case %d is looked up in the table of cases %d to %d' % (
                ('below', 'equal to')[pos & 1], pos // 2 + 1, a + 1, b + 1))
        return sym('cl%d' % (pos // 2), 32) if pos & 1 else sym('dl', 32)


def partition(r):
    """the cases are divided into buckets without gaps"""
    C = stmt(('swgen',))
    o = C.o
    W = {f: o['swtch', f] for f in SWTCH}
    for n in range(1, 6):
        t = {('swp', W['ncases']): con(n, 32), ('swp', W['values']): N('v'),
             ('swp', W['sym']): N('x'), ('swp', W['deflab']): N('deflab'),
             ('swp', W['labels']): N('labels')}
        for j in range(n):
            t['v', 8 * j] = sext(sym('v%d' % j, 32), 64)
        R = running(r, C, 'swgen', [SWP], 'buckets for %d cases' % n, types=t, rule='flow',
                    returns={'newarray': lambda p, en, st, a: allocate(p, en, st, a)})
        for ctx, evs, val, where, st in R.paths():
            try:
                c = [e for e in st.ev if e[0] == 'call' and e[1].startswith('swcode')]
                al = [e for e in st.ev if e[0] == 'call' and e[1] in ('newarray', 'allocate')]
                if len(c) != 1 or len(al) != 1:
                    raise No('makes %d selections' % len(c))
                a = c[0][2]
                if a[0] != SWP or a[1] != al[0][3] or a[2] != O or not is_con(a[3]):
                    raise No('selects among %s' % ', '.join(show(x) for x in a[1:]))
                k = scval(a[3])
                size = cval(al[0][2][0]) * (cval(al[0][2][1]) if al[0][1] == 'newarray' else 1)
                b = [rd(R, st, a[1], 4 * i, 32) for i in range(k + 2)]
                if not all(is_con(x) for x in b):
                    raise No('leaves a bucket undefined')
                b = [cval(x) for x in b]
                if b[0] != 0 or b[-1] != n or any(x >= y for x, y in zip(b, b[1:])):
                    raise No('makes the buckets %s' % b)
                if size < 4 * (k + 2) or any(
                        e[0] == 'store' and e[1] == single(a[1]) and not (
                            is_con(e[2]) and 0 <= scval(e[2]) <= size - 4) for e in st.ev):
                    raise No('writes behind the buckets')
            except No as e:
                R.bad(where, str(e))


def caselabels(r):
    """a case is entered in order"""
    C = stmt(('caselabel',))
    o, K = C.o, C.c
    W = {f: o['swtch', f] for f in SWTCH}
    for n in range(0, 4):
        for full in (0, 1):
            t = {('swp', W['ncases']): con(n, 32), ('swp', W['values']): N('v'),
                 ('swp', W['labels']): N('labels'), ('swp', W['size']): con(n if full else 512, 32)}
            facts = []
            V = [sext(sym('v%d' % j, 32), 64) for j in range(n)]
            val = sym('val', 64)
            for j in range(n):
                t['v', 8 * j] = V[j]
                t['labels', 8 * j] = N('case%d' % j)
                if j:
                    facts.append(icmp('slt', V[j - 1], V[j]))
            if full and not n:
                continue
            R = running(r, C, 'caselabel', [SWP, val, sym('lab', 32)], 'the case after %d others%s' % (
                n, ', no room' * full), types=t, facts=facts, rule='flow', globals_={'Aflag': O},
                returns={'newarray': lambda p, en, st, a: allocate(p, en, st, a)})
            for ctx, evs, v_, where, st in R.paths():
                try:
                    errs = [e for e in st.ev if e[0] == 'call' and e[1] == 'error']
                    vs = rd(R, st, SWP, W['values'])
                    ls = rd(R, st, SWP, W['labels'])
                    size = rd(R, st, SWP, W['size'], 32)
                    al = {e[3]: e[2] for e in st.ev if e[0] == 'call' and e[1] in ('newarray', 'allocate')}
                    for a, old in ((vs, N('v')), (ls, N('labels'))):
                        if a != old:
                            if a not in al or not is_con(size) or cval(al[a][0]) * (
                                    cval(al[a][1]) if len(al[a]) == 3 else 1) < 8 * cval(size):
                                raise No('the tables are smaller than noted')
                    if is_con(size) and cval(size) < n + 1 or full and N('v') in (vs, ls) or vs == ls:
                        raise No('writes behind the tables')
                    if any(known(ctx, icmp('eq', val, x)) for x in V):
                        if not errs:
                            raise No('a second label for the same value is not diagnosed')
                        continue
                    if errs:
                        if not any(ctx_may_equal(ctx, val, x) for x in V):
                            raise No('is called a duplicate')
                        raise No('is called a duplicate without being one')
                    if not eq(ctx, rd(R, st, SWP, W['ncases'], 32), con(n + 1, 32)):
                        raise No('counts %s cases' % show(rd(R, st, SWP, W['ncases'], 32)))
                    gv = [rd(R, st, vs, 8 * j) for j in range(n + 1)]
                    gl = [rd(R, st, ls, 8 * j) for j in range(n + 1)]
                    ps = [p for p in range(n + 1) if gv == V[:p] + [val] + V[p:]]
                    if len(ps) != 1:
                        raise No('leaves the values %s' % ', '.join(show(x) if x else '?' for x in gv))
                    p = ps[0]
                    L_ = [N('case%d' % j) for j in range(n)]
                    if gl != L_[:p] + [sym('findlabel(lab)', 64)] + L_[p:]:
                        raise No('leaves the labels %s' % ', '.join(show(x) if x else '?' for x in gl))
                    if p and not known(ctx, icmp('slt', V[p - 1], val)) or \
                            p < n and not known(ctx, icmp('slt', val, V[p])):
                        raise No('is entered at the wrong place')
                except No as e:
                    R.bad(where, str(e))


def ctx_may_equal(ctx, a, b):
    return not known(ctx, icmp('ne', a, b))


def returns_(r):
    """the value of a function"""
    C = stmt(('retcode',))
    o, K = C.o, C.c
    for given in (0, 1):
        for ok in (0, 1):
            for kind_ in ('INT', 'UNSIGNED', 'POINTER', 'FLOAT', 'STRUCT'):
                if not given and (ok or kind_ != 'INT'):
                    continue
                e = 'cast(pointer(p),RT)'
                f = 'cast(%s,promote(ET))' % e
                res = e if kind_ == 'FLOAT' else f
                t = {(e, o['tree', 'type']): N('ET'), (f, o['tree', 'type']): N('FT'),
                     ('ET', o['type', 'op']): con(K[kind_], 32), ('FT', o['type', 'op']): con(K[kind_], 32),
                     ('ET', o['type', 'size']): con(4, 32), ('FT', o['type', 'size']): con(4, 32),
                     ('pointer(p)', o['tree', 'type']): N('PT')}
                suffix = K[{'INT': 'I', 'UNSIGNED': 'U', 'POINTER': 'P', 'FLOAT': 'F', 'STRUCT': 'B'}[kind_]]
                R = running(r, C, 'retcode', [N('p') if given else Z], 'return of %s value%s' % (
                    kind_.lower() if given else 'no', '' if ok or not given else ' of the wrong type'),
                    types=t, rule='flow', live=('p',) if given else (),
                    globals_={'retv': Z, ('events', 0): Z, 'cfunc': N('cfunc'), 'Aflag': O},
                    returns={'pointer': lambda p, en, st, a: N('pointer(%s)' % show(a[0])),
                             'freturn': lambda p, en, st, a: N('FRT'),
                             'assign': lambda p, en, st, a, ok=ok: N('RT') if ok and list(a) == [
                                 N('FRT'), N('pointer(p)')] else Z,
                             'promote': lambda p, en, st, a: N('promote(%s)' % show(a[0])),
                             'ttob': lambda p, en, st, a: con(suffix + (4 << 10), 32),
                             'localaddr': lambda p, en, st, a: Z},
                    facts=[icmp('ne', N(x), Z) for x in ('RT', 'ET', 'FT', e, f)], pure=tuple(
                        x for x in lccdag.PURE if x != 'ttob'))
                for ctx, evs, val, where, st in R.paths():
                    try:
                        errs = [x for x in st.ev if x[0] == 'call' and x[1] == 'error']
                        if bool(errs) != bool(given and not ok):
                            raise No('is %sdiagnosed' % ('' if errs else 'not '))
                        ws = [x[2] for x in st.ev if x[0] == 'call' and x[1] == 'walk' and x[2][0] != Z]
                        if not given or not ok:
                            if ws:
                                raise No('returns a value')
                            continue
                        if [x for x in st.ev if x[0] == 'call' and x[1] == 'apply']:
                            continue
                        if len(ws) != 1 or ws[0][1:] != (O, O):
                            raise No('is not evaluated once')
                        w = R.pol.terms.get(single(ws[0][0]))
                        ty = N('ET' if res == e else 'FT')
                        if not w or w[0] != 'tree' or w[1][1:] != (ty, N(res), Z) or \
                                not is_con(w[1][0]) or cval(w[1][0]) & 0x3ff != K['RET'] + suffix:
                            raise No('is returned as %s' % show(ws[0][0]))
                    except No as x:
                        R.bad(where, str(x))


# ---------------------------------------------------------------- the list of code
SHAPES = ('Gen', 'Jp', 'Jq', 'Ji', 'Lq', 'Lr', 'Defpoint', 'Switch')
ITEMS_ = ('Gen', 'Blockbeg', 'Blockend', 'Local', 'Address', 'Defpoint', 'Switch')


def codelists(r):
    """labels and jumps that are appended to the code"""
    C = stmt(('definelab', 'branch', 'code', 'reachable', 'equatelab', 'equal', 'jump'))
    import itertools
    n = 0
    for k in range(0, 4):
        for ks in itertools.product(SHAPES, repeat=k):
            if ks.count('Lq') > 1 or ks.count('Lr') > 1:
                continue
            if k == 3 and len([x for x in ks if x in ('Gen', 'Defpoint', 'Switch', 'Ji')]) > 1:
                continue
            for fn in ('definelab', 'branch'):
                for chain in ((0, 1) if fn == 'branch' and 'Lq' in ks else (0,)):
                    shape(r, C, fn, ks, chain)
                    n += 1
    for ks in (('Lq', 'Defpoint', 'Lr', 'Local'), ('Jp', 'Local', 'Lq', 'Blockend'),
               ('Blockbeg', 'Lq', 'Address', 'Lr'), ('Lp', 'Gen'), ('Lp',), ('Gen', 'Lp', 'Lq'),
               ('Lq', 'Lp', 'Defpoint'), ('Jp', 'Defpoint', 'Jp', 'Blockend'),
               ('Jp', 'Blockend', 'Lq', 'Local', 'Jp')):
        for fn in ('definelab', 'branch'):
            if 'Lp' in ks and fn == 'definelab':
                continue
            shape(r, C, fn, ks, 0)
    small(r, C)
    return n


def shape(r, C, fn, ks, chain):
    o, K = C.o, C.c
    P = sym('findlabel(lab)', 64)
    names = ['c%d' % i for i in range(len(ks) + 1)]
    sy = {'p': P, 'q': N('q'), 'r': N('r')}
    t = {}
    for i, x in enumerate(('Start',) + tuple(ks)):
        c = names[i]
        kind_ = 'Jump' if x[0] == 'J' else 'Label' if x[0] == 'L' and x != 'Local' else x
        t[c, o['code', 'kind']] = con(K[kind_], 32)
        t[c, o['code', 'prev']] = N(names[i - 1]) if i else N('nothing')
        t[c, o['code', 'next']] = N(names[i + 1]) if i + 1 < len(names) else Z
        f = c + '.f'
        t[c, o['code', 'u.forest']] = N(f)
        if kind_ == 'Jump':
            t[f, o['node', 'op']] = con(K['JUMP'] + K['V'], 16)
            t[f, o['node', 'kids']] = N(c + '.a')
            t[c + '.a', o['node', 'op']] = con(K['INDIR' if x == 'Ji' else 'ADDRG'] + K['P'] + (4 << 10), 16)
            t[c + '.a', o['node', 'syms']] = sy.get(x[1], Z)
        elif kind_ == 'Label':
            t[f, o['node', 'op']] = con(K['LABEL'] + K['V'], 16)
            t[f, o['node', 'syms']] = sy[x[1]]
            t[f, o['node', 'kids']] = Z
        else:
            t[f, o['node', 'op']] = con(K['ASGN'] + K['I'] + (4 << 10), 16)
            t[f, o['node', 'kids']] = Z
    for n, s in sy.items():
        a = single(s)[1]
        t[a, o['symbol', 'u.l.label']] = sym('lab', 32) if n == 'p' else sym('lab.' + n, 32)
        t[a, o['symbol', 'u.l.equatedto']] = N('q') if chain and n == 'p' else Z
        # as many references as there are, and one from elsewhere
        t[a, o['symbol', 'ref']] = ('fc', str(1 + sum(1 for x in ks if x == 'J' + n)), 32)
    t['nothing', o['code', 'kind']] = con(K['Switch'], 32)
    live = tuple({k[0] for k in t})
    for m in METHODS:
        t['IR', o['interface', m]] = N('IR.' + m)
    R = running(r, C, fn, [sym('lab', 32)], '%s behind %s%s' % (
        {'definelab': 'a label', 'branch': 'a jump'}[fn], ', '.join(('Start',) + tuple(ks)),
        ', label equal to q' * chain), types=t, rule='list', live=live,
        globals_={'codelist': N(names[-1]), 'voidptype': N('voidptype')},
        facts=[icmp('ne', sym('lab', 32), O), icmp('ne', P, N('q')), icmp('ne', P, N('r')),
               icmp('ne', N('q'), N('r'))],
        returns={'walk': lambda p, en, st, a: 'done',
                 'ttob': lambda p, en, st, a: con(K['P'] + (4 << 10), 32)},
        pure=tuple(x for x in lccdag.PURE if x != 'ttob'))
    for ctx, evs, val, where, st in R.paths():
        try:
            ws = [e for e in st.ev if e[0] == 'call' and e[1] == 'walk']
            if any(e[2][0] != Z for e in ws):
                raise No('evaluates something')
            first = [i for i, e in enumerate(st.ev) if e[0] == 'store' or e[0] == 'call' and e[1] == 'allocate']
            if not ws or first and st.ev.index(ws[0]) > first[0]:
                raise No('is put in front of the nodes made before')
            old = [(x, names[i + 1]) for i, x in enumerate(ks)]
            new, eqs = newlist(R, C, ctx, st, names, ks, sy)
            want = old + [('Lp' if fn == 'definelab' else 'Jp', 'new')]
            compare(want, new, {'p': 'q'} if chain else {}, eqs)
            kept = [n for x, n in new if x in ITEMS_]
            if kept != [n for x, n in want if x in ITEMS_]:
                raise No('code is lost or changes places')
            for n in sy:
                v = rd(R, st, sy[n], o['symbol', 'ref'], 32)
                need = 1 + sum(1 for x, c in new if x == 'J' + n) + sum(
                    1 for a, b in eqs.items() if b == n and not (chain and a == 'p'))
                fv = refvalue(st, single(sy[n]), o['symbol', 'ref'], 1 + sum(1 for x in ks if x == 'J' + n))
                if fv is None:
                    raise Incomplete('count of references %s' % (v,))
                if fv < need:
                    raise No('counts %d references to %s instead of %d' % (fv - 1, n, need - 1))
        except No as e:
            R.bad(where, str(e))


def refvalue(st, b, off, start):
    """references are counted by adding and subtracting constants"""
    v = start
    for e in st.ev:
        if e[0] == 'store' and e[1] == b and e[2] == con(off, 64):
            v = fvalue(e[4])
            if v is None:
                return None
    return v


def fvalue(x):
    if x[0] == 'l':
        a = single(x)
        return fvalue(a[1]) if a and a[0] == 'f2i' else None
    if x[0] == 'fc':
        return float(x[1])
    if x[0] == 'fop' and x[1] in ('fadd', 'fsub'):
        a, b = fvalue(x[3]), fvalue(x[4])
        return None if a is None or b is None else a + b if x[1] == 'fadd' else a - b
    return None


def newlist(R, C, ctx, st, names, ks, sy):
    o, K = C.o, C.c
    rev = {v: k for k, v in sy.items()}
    kinds = {K[k]: k for k in CODES_ALL}
    out, cur = [], N('c0')
    while True:
        nxt = rd(R, st, cur, o['code', 'next'])
        if nxt is None or nxt == Z:
            break
        if rd(R, st, nxt, o['code', 'prev']) != cur:
            raise No('the list does not lead back')
        if len(out) > 10 or not single(nxt):
            raise No('the list does not end')
        k = rd(R, st, nxt, o['code', 'kind'], 32)
        if not is_con(k):
            raise No('code of unknown kind')
        k = kinds.get(cval(k), '?')
        n = single(nxt)[1]
        if n in names:
            x = ks[names.index(n) - 1]
            if {'J': 'Jump', 'L': 'Label'}.get(x[0] if x != 'Local' else '', x) != k:
                raise No('%s becomes %s' % (x, k))
        else:
            f = rd(R, st, nxt, o['code', 'u.forest'])
            op = rd(R, st, f, o['node', 'op'], 16)
            if k == 'Label' and op == con(K['LABEL'] + K['V'], 16):
                s = rd(R, st, f, o['node', 'syms'])
                x = 'L' + rev.get(s, '?')
            elif k == 'Jump' and op == con(K['JUMP'] + K['V'], 16):
                a = rd(R, st, f, o['node', 'kids'])
                aop = rd(R, st, a, o['node', 'op'], 16)
                if not is_con(aop) or cval(aop) & 0x3ff != K['ADDRG'] + K['P']:
                    raise No('jumps to no address')
                x = 'J' + rev.get(rd(R, st, a, o['node', 'syms']), '?')
            else:
                raise No('a code of kind %s with %s' % (k, show(op)))
        out.append((x, n if n in names else 'new'))
        cur = nxt
    if glob(R, st, 'codelist') != cur:
        raise No('the end of the list is lost')
    eqs = {}
    for n, s in sy.items():
        v = rd(R, st, s, o['symbol', 'u.l.equatedto'])
        if v != Z:
            if v not in rev:
                raise No('a label is made equal to %s' % show(v))
            eqs[n] = rev[v]
    return out, eqs


CODES_ALL = ('Blockbeg', 'Blockend', 'Local', 'Address', 'Defpoint', 'Label', 'Start', 'Gen', 'Jump',
             'Switch')


def compare(a, b, eqa, eqb):
    """both lists do the same, from the start and from each label"""
    def find(l, eqs, n):
        seen = set()
        while True:
            for i, (x, c) in enumerate(l):
                if x == 'L' + n:
                    return norm(l, eqs, i)
            if n in seen:
                return ('cycle',)
            seen.add(n)
            if n not in eqs:
                return ('to', n)
            n = eqs[n]

    def norm(l, eqs, i):
        seen = 0
        while seen < 50:
            seen += 1
            if i >= len(l):
                return ('end',)
            x, c = l[i]
            if x in ('Jp', 'Jq', 'Jr'):
                return jumpto(l, eqs, x[1], seen)
            if x == 'Ji' or x == 'Switch':
                return ('stop', c)
            if x == 'Gen':
                return ('at', i, c)
            i += 1
        return ('loop',)
    depth = [0]

    def jumpto(l, eqs, n, seen):
        depth[0] += 1
        try:
            return ('loop',) if depth[0] > 20 else find(l, eqs, n)
        finally:
            depth[0] -= 1

    def same(x, y):
        seen = set()
        while (x, y) not in seen:
            seen.add((x, y))
            if x[0] != y[0] or x[0] in ('to', 'stop') and x != y:
                raise No('leads to %s instead of %s' % (y, x))
            if x[0] != 'at':
                return
            if x[2] != y[2]:
                raise No('leads to %s instead of %s' % (y[2], x[2]))
            x, y = norm(a, eqa, x[1] + 1), norm(b, eqb, y[1] + 1)
    same(norm(a, eqa, 0), norm(b, eqb, 0))
    for n in 'pqr':
        if any(x == 'L' + n for x, c in a) or n == 'p':
            same(find(a, eqa, n), find(b, eqb, n))


def small(r, C):
    """code, reachable, addlocal, jump, equatelab"""
    o, K = C.o, C.c
    order = [K[k] for k in CODES_ALL]
    for k in CODES_ALL:
        for before in (('Start',), ('Gen',), ('Jump',), ('Switch',), ('Jump', 'Defpoint'),
                       ('Switch', 'Local', 'Blockend'), ('Jump', 'Label'), ('Gen', 'Defpoint')):
            t = {}
            for i, x in enumerate(('Start',) + before):
                t['c%d' % i, o['code', 'kind']] = con(K[x], 32)
                t['c%d' % i, o['code', 'prev']] = N('c%d' % (i - 1)) if i else N('nothing')
            t['nothing', o['code', 'kind']] = con(K['Switch'], 32)
            R = running(r, C, 'reachable', [con(K[k], 32)], 'whether %s is reached behind %s' % (
                k, ', '.join(before)), types=t, rule='list', globals_={'codelist': N('c%d' % len(before))})
            real = [x for x in before if x in ('Start', 'Gen', 'Jump', 'Switch', 'Label')]
            dead = real[-1] in ('Jump', 'Switch')
            for ctx, evs, val, where, st in R.paths():
                if k in ('Gen', 'Jump', 'Switch') and eq(ctx, val, O) != dead or \
                        k not in ('Gen', 'Jump', 'Switch') and not known(ctx, icmp('ne', val, O)):
                    R.bad(where, 'is said to be %s' % show(val))
        R = running(r, C, 'code', [con(K[k], 32)], 'new code of kind ' + k, rule='list', types={
            ('c1', o['code', 'kind']): con(K['Gen'], 32), ('c1', o['code', 'next']): Z},
            globals_={'codelist': N('c1')})
        for ctx, evs, val, where, st in R.paths():
            try:
                expect_no(ctx, 'the end of the list', glob(R, st, 'codelist'), val)
                expect_no(ctx, 'the kind', rd(R, st, val, o['code', 'kind'], 32), con(K[k], 32))
                expect_no(ctx, 'the code before it', rd(R, st, val, o['code', 'prev']), N('c1'))
                expect_no(ctx, 'its successor', rd(R, st, val, o['code', 'next']), Z)
                expect_no(ctx, 'the successor of the one before', rd(R, st, N('c1'), o['code', 'next']), val)
                if len([e for e in st.ev if e[0] == 'call' and e[1] == 'allocate' and
                        is_con(e[2][0]) and cval(e[2][0]) >= 48 and e[2][1] == con(K['FUNC'], 32)]) != 1:
                    raise No('is not allocated for the function')
            except No as e:
                R.bad(where, str(e))


RULE = """the code of each statement, as a graph of evaluations, tests, statements and jumps taken from
what its function emits on every path, equals the graph the language defines"""


def C39(tier):
    r = Result()
    r.rule = RULE
    loops(r)
    jumps(r)
    labels_(r)
    switches(r)
    selection(r)
    partition(r)
    caselabels(r)
    returns_(r)
    codelists(r)
    return r
