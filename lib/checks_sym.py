"""C25: the symbol table of q3asm."""
import re
import checks_asm as K
from checks_asm import CODE, CURRENT, TRUST, SEGNAMES, tname
from report import Result
from asmsym import *
import lccops

class View:
    """reads fields of objects in a state"""

    def __init__(self, S, pol, eng, st):
        self.S, self.pol, self.eng, self.st = S, pol, eng, st

    def f(self, t, struct, member):
        return self.at(t, *self.S.F[struct][member])

    def at(self, t, off, size):
        b, o = self.eng.split_addr(t)
        if b is None:
            self.eng.ptr_atoms.update(a for a, k in t[3] if k == 1)
            b, o = self.eng.split_addr(t)
        if b is None:
            return con(0, 8 * size)
        return self.eng.mem_load(self.st, b, addc(o, off), size, ('int', 8 * size))

    def g(self, name, size=8):
        return self.eng.mem_load(self.st, ('b', 'g', name), con(0, 64), size, ('int', 8 * size))

    def text(self, t):
        return self.pol.canon(self.pol.content(self.eng, self.st, t)) if t is not None else None



def null(ctx, t):
    return ctx.entails(icmp('eq', t, con(0, 64)))


def nonnull(ctx, t):
    return ctx.entails(icmp('ne', t, con(0, 64)))


class Run:
    """one function of the symbol table, in one pass"""

    def __init__(self, S, name, facts):
        self.S, self.name = S, name
        self.pol, self.eng = S.run(name, facts)
        self.start = View(S, self.pol, self.eng, self.pol.st0)
        c = self.eng.mem_load(self.pol.st0, single(sym('SYM', 64)), con(0, 64), 1, ('int', 8))
        self.dollar = icmp('eq', c, con(ord('$'), 8))
        self.chains = [c for c in self.pol.chains if c.node is not None]
        # loops whose node is never null (they stop in front of the last node)
        self.never = [c.node for c in self.chains if nonnull(c.state.ctx, c.first) and c.nexts and
                      all(t is not None and nonnull(s.ctx, t) for s, t in c.nexts)]

    def view(self, st):
        return View(self.S, self.pol, self.eng, st)

    def possible(self, ctx):
        nodes = {c.node for c in self.chains}
        for f in ctx.facts:
            a = single(f[1]) if isinstance(f, tuple) and f[0] == 'eq' else None
            if a and a[0] == 'ld' and a[1] in nodes and a[2] == con(self.S.dataoff, 64):
                return False       # what is filed in a chain is an object
        return not any(null(ctx, atom(a)) for a in self.never) and not ctx.contradictory()

    def kind(self, ctx):
        """is the symbol local to its file?"""
        if ctx.entails(self.dollar):
            return 'local'
        if ctx.entails(neg(self.dollar)):
            return 'global'
        return None

    def key_ok(self, ctx, c):
        """is this the name the symbol is filed under?"""
        k = self.kind(ctx)
        if k == 'global':
            return c == ('str', show_atom(single(sym('SYM', 64))), con(0, 64))
        if k == 'local':
            return local_key(self, c)
        return False

    def keyof(self, ctx):
        """the names this path hashed"""
        out = set()
        for n, k in self.S.asm.info.items():
            if k[0] == self.S.hash and k[1]:
                if self.key_ok(ctx, k[1][0]):
                    out.add((n, k[1][0]))
        return out

    def equal(self, v, ctx, node):
        """conditions under which the list node holds the symbol: (data, [strcmp], [hash])"""
        D = v.f(atom(node), 'hashchain_t', 'data')
        name = v.text(v.f(D, 'symbol_t', 'name'))
        h = v.f(D, 'symbol_t', 'hash')
        cs, hs = [], []
        for n, k in list(self.S.asm.info.items()):
            if k[0] == 'strcmp' and name in k[1][:2]:
                a, b = k[1][:2]
                if self.key_ok(ctx, b if a == name else a):
                    cs.append(icmp('eq', sym(n, 32), con(0, 32)))
        for n, key in self.keyof(ctx):
            hs.append(icmp('eq', h, sym(n, 32)))
        return D, cs, hs

    def bucket_loop(self, c):
        """does this loop walk the list of one bucket?"""
        return c.first is not None and self.S.hash + '~' in repr(c.first)


def local_key(run, c):
    """file number and name, in a form that keeps different pairs apart"""
    if not (isinstance(c, tuple) and c and c[0] in ('sprintf', 'snprintf')):
        return False
    a = c[1]
    fmt = [x for x in a if isinstance(x, tuple) and x and x[0] == 'lit']
    rest = [x for x in a if not (isinstance(x, tuple) and x and x[0] == 'lit') and
            not (isinstance(x, tuple) and x[0] == 'l' and is_con(x))]
    S0 = ('str', show_atom(single(sym('SYM', 64))), con(0, 64))
    if len(fmt) != 1 or len(rest) != 2 or S0 not in rest:
        return False
    o = [x for x in rest if x != S0][0]
    if o != run.start.g('currentFileIndex', 4):
        return False
    f = fmt[0][1].decode('latin-1')
    first = rest[0] == S0
    return bool(re.fullmatch(r'[^%]*%s[^%0-9][^%]*%[iud][^%]*' if first else
                             r'[^%]*%[iud][^%0-9][^%]*%s[^%]*', f))


def local(b):
    return b[0] == 'b' and b[1] == 'alloca'


def C25(tier):
    r = Result()
    A = K.asm()
    S = Symbols(A)
    r.rule = ('All paths of DefineSymbol and LookupSymbol with their loops over the hash chain '
              'generalised, of InitTables and of the lines that define symbols. Defining and '
              'looking up use the same name (file number added to $ labels) and the same chain; a '
              'node is passed over only where its name differs; a match gives value plus base of '
              'the segment of that symbol, the end of the chain an error; a definition files one '
              'new symbol unless the name is there, which is an error. Trusted: '
              'host allocations succeed; ' + TRUST)
    L1 = Run(S, LOOKUP, [('ne', 0)])
    D0 = Run(S, DEFINE, [('eq', 0)])
    buckets = {'local': set(), 'global': set()}
    c25_lookup(r, S, L1, buckets)
    c25_define(r, S, D0, buckets)
    for k, v in buckets.items():
        r.obligations += 1
        r.samples.append('%s names: chain %s' % (k, '; '.join(sorted(show(t) for t in v))[:160]))
        if len(v) != 1:
            r.add([Finding('bucket', L1.chains[0].where if L1.chains else '?',
                           'definitions and lookups of %s names do not use the same chain' % k)])
    c25_other(r, S)
    c25_lines(r, A)
    c25_tables(r, S)
    return r


def chains_ok(r, R, ch, bad):
    """what holds for every loop over a chain"""
    for s, t in ch.nexts:
        r.obligations += 1
        if t is None or t != R.view(s).f(atom(ch.node), 'hashchain_t', 'next'):
            bad(ch.where, 'the search does not go on to the next node of the chain')


def passed_over(r, R, ch, bad):
    for s, t in ch.nexts:
        for ctx in s.by_cases():
            if not R.possible(ctx):
                continue
            r.obligations += 1
            D, cs, hs = R.equal(R.view(s), ctx, ch.node)
            if not any(ctx.entails(neg(c)) for c in cs + hs):
                bad(ch.where, 'a node is passed over though its name was not found different')


def compares(R, ch):
    """does the loop compare names?"""
    for s in [n[0] for n in ch.nexts] + [x[0] for x in ch.exits]:
        for ctx in s.by_cases():
            D, cs, hs = R.equal(R.view(s), ctx, ch.node)
            if any(ctx.entails(c) or ctx.entails(neg(c)) for c in cs + hs):
                return True
    return False


def exhausted(R, ctx, loops, firsts):
    """the whole chain was looked at"""
    return any(null(ctx, atom(c.node)) for c in loops) or any(null(ctx, t) for t in firsts)


def c25_lookup(r, S, R, buckets):
    bad = lambda w, t: r.add([Finding('lookup', w, t)], 'LookupSymbol in the second pass')
    loops = [c for c in R.chains if R.bucket_loop(c)]
    if not loops:
        raise Incomplete('LookupSymbol has no loop over a hash chain')
    for c in loops:
        chains_ok(r, R, c, bad)
        passed_over(r, R, c, bad)
        k = R.kind(c.state.ctx)
        if k is None:
            bad(c.where, 'global and local names are looked up in the same way')
        else:
            buckets[k].add(c.first)
    firsts = {c.first for c in loops}
    pn = R.start.g('passNumber', 4)
    found = 0
    for st, val, w in R.pol.rets:
        err = [e for e in st.ev if e[0] == 'error']
        for e in st.ev:
            if e[0] == 'store' and not local(e[1]) and e[1] != ('b', 'g', 'passNumber'):
                bad(e[5], 'changes something')
        for ctx in st.by_cases():
            if not R.possible(ctx):
                continue
            r.obligations += 1
            r.count('paths', 1)
            v = R.view(st)
            p1 = v.g('passNumber', 4)
            if p1 != pn and not ctx.entails(icmp('eq', p1, con(1, 32))) and \
                    not ctx.entails(icmp('eq', p1, pn)):
                bad(w, 'leaves another pass number behind')
            if err:
                if not exhausted(R, ctx, loops, firsts):
                    bad(err[0][2], 'a symbol is reported as undefined before the chain is at its '
                        'end')
                continue
            ok = False
            for c in loops:
                if null(ctx, atom(c.node)):
                    continue
                D, cs, hs = R.equal(v, ctx, c.node)
                if not any(ctx.entails(x) for x in cs):
                    continue
                seg = v.f(D, 'symbol_t', 'segment')
                want = add(v.f(D, 'symbol_t', 'value'),
                           v.at(seg, S.asm.seg['F']['segmentBase'][0], 4))
                if val == want:
                    ok = True
                    found += 1
            if not ok:
                bad(w, 'a value is returned that is not the address of the symbol of this name')
    r.obligations += 1
    if not found:
        bad(R.pol.rets[0][2] if R.pol.rets else '?', 'never finds a symbol')


def c25_define(r, S, R, buckets):
    bad = lambda w, t: r.add([Finding('define', w, t)], 'DefineSymbol in the first pass')
    all_ = [c for c in R.chains if R.bucket_loop(c)]
    search = [c for c in all_ if compares(R, c)]
    if not search:
        raise Incomplete('DefineSymbol has no loop that compares names')
    for c in all_:
        chains_ok(r, R, c, bad)
        k = R.kind(c.state.ctx)
        if k is None:
            bad(c.where, 'global and local names are filed in the same way')
        else:
            buckets[k].add(c.first)
    for c in search:
        passed_over(r, R, c, bad)
    firsts = {c.first for c in all_}
    layout = K.layout_globals() | {'symtable', 'passNumber', 'optable', 'currentFileIndex'}
    layout -= {'symbols', 'lastSymbol'}
    new = 0
    for st, val, w in R.pol.rets:
        err = [e for e in st.ev if e[0] == 'error']
        for ctx in st.by_cases():
            if not R.possible(ctx):
                continue
            r.obligations += 1
            r.count('paths', 1)
            v = R.view(st)
            if err:
                if any(e[0] == 'store' and not local(e[1]) for e in st.ev):
                    bad(w, 'defines a symbol after an error')
                if not any(any(ctx.entails(x) for x in R.equal(v, ctx, c.node)[1])
                           for c in search):
                    bad(err[0][2], 'reports a second definition of a name that was not found')
                continue
            if not exhausted(R, ctx, search, firsts):
                bad(w, 'files a symbol before the whole chain was searched for its name')
                continue
            ent = c25_filed(R, st, ctx, v, all_)
            if isinstance(ent, str):
                bad(w, ent)
                continue
            obj, node, own, slot = ent
            own = own | {R.eng.split_addr(obj)[0]}
            new += 1
            cur = R.start.g('currentSegment')
            name = v.text(v.f(obj, 'symbol_t', 'name'))
            val_ = v.f(obj, 'symbol_t', 'value')
            hs = [sym(n, 32) for n, k in R.keyof(ctx)]
            for ok, t in ((R.key_ok(ctx, name), 'its name is not the name that is looked up'),
                          (val_ == sym('VALUE1', 32), 'its value is not the value given'),
                          (v.f(obj, 'symbol_t', 'segment') == cur,
                           'its segment is not the current segment'),
                          (v.f(obj, 'symbol_t', 'hash') in hs, 'its hash is not that of its name'),
                          (null(ctx, v.f(obj, 'symbol_t', 'next')),
                           'it is not the last symbol of the list'),
                          (v.g('lastSymbol') == obj, 'lastSymbol is another symbol')):
                r.obligations += 1
                if not ok:
                    bad(w, 'a symbol is filed but ' + t)
            head, last = R.start.g('symbols'), R.start.g('lastSymbol')
            r.obligations += 1
            empty = null(ctx, head) or null(ctx, last)
            if empty:
                if v.g('symbols') != obj:
                    bad(w, 'the first symbol does not start the list')
            elif v.g('symbols') != head or v.f(last, 'symbol_t', 'next') != obj:
                bad(w, 'the symbol is not linked behind the last one')
            # nothing else is written
            lo = R.eng.split_addr(last)
            if lo[0] is None:
                R.eng.ptr_atoms.add(single(last))
                lo = R.eng.split_addr(last)
            for e in st.ev:
                if e[0] != 'store' or local(e[1]):
                    continue
                b = e[1]
                if b in own or (b[0] == 'b' and b[1] == 'g' and b[2] not in layout):
                    continue
                if (b, e[2]) == (lo[0], addc(lo[1], S.F['symbol_t']['next'][0])) and not empty:
                    continue
                if slot == (b, e[2]):
                    continue
                bad(e[5], 'writes something else')
    r.obligations += 1
    if not new:
        bad(R.pol.rets[0][2] if R.pol.rets else '?', 'never defines a symbol')


def c25_filed(R, st, ctx, v, loops, base0=None, ev=None, slots=()):
    """the object, its node and where the node was linked in; or what is wrong"""
    base0 = base0 or R.pol.st0
    ev = st.ev if ev is None else ev
    news = [e[1] for e in ev if e[0] == 'new']
    S = R.S
    linked = []
    for e in ev:
        if e[0] != 'store' or e[3] != 8 or local(e[1]):
            continue
        a = single(e[4])
        if a not in news or e[1] in news:
            continue
        # where is it linked in?
        off, _ = S.F['hashchain_t']['next']
        old = R.eng.mem_load(base0.fork(), e[1], e[2], 8, ('int', 64))
        if any(old == c.first for c in loops) or old in slots:
            nx = v.f(atom(a), 'hashchain_t', 'next')
            if nx == old or (null(ctx, old) and null(ctx, nx)):
                linked.append((a, e))
        elif is_con(e[2]) and scval(e[2]) == off and any(e[1] == c.node for c in loops):
            if not null(ctx, v.f(atom(a), 'hashchain_t', 'next')):
                continue
            if null(ctx, R.eng.mem_load(base0.fork(), e[1], e[2], 8, ('int', 64))):
                linked.append((a, e))
    if len(linked) != 1:
        return 'a new symbol is not linked into its hash chain' if not linked else \
            'a new symbol is linked in twice'
    a, e = linked[0]
    obj = v.f(atom(a), 'hashchain_t', 'data')
    return obj, a, set(news), (e[1], e[2])


def c25_other(r, S):
    for name, facts, text in ((DEFINE, [('eq', 1)], 'DefineSymbol in the second pass'),
                              (LOOKUP, [('eq', 0)], 'LookupSymbol in the first pass')):
        R = Run(S, name, facts)
        for st, val, w in R.pol.rets:
            if not R.possible(st.ctx):
                continue
            r.obligations += 1
            for e in st.ev:
                if e[0] == 'error' or e[0] == 'define' or (e[0] == 'store' and not local(e[1])):
                    r.add([Finding('pass', e[-1], 'has an effect')], text)


def c25_lines(r, A):
    e = K.entry()
    for seg in CURRENT:
        for tok in K.tokens() + lccops.EXACT + [p + 'V' for p in lccops.STARTS]:
            if tok is None:
                continue
            kind = 'LABEL' if tok.startswith('LABEL') else tok
            for x in K.run(tok, seg):
                r.obligations += 1
                r.count('paths', 1)
                ds = x.calls(DEFINE)
                bad = lambda t: r.add([Finding('line', ds[0][-1] if ds else K.where(x), t)],
                                      tname(tok, seg))
                if kind in ('LABEL', 'proc', 'equ') and \
                        x.cell('currentSegment', 0, 8) != A.seg_base(seg):
                    bad('%s selects another segment' % kind)
                if kind not in ('LABEL', 'proc', 'equ'):
                    if ds:
                        bad('%s defines a symbol' % tok)
                    continue
                if x.err:
                    continue
                if len(ds) != 1:
                    bad('%s defines %d symbols' % (kind, len(ds)))
                    continue
                c, cur = ds[0][2], ds[0][4]
                r.obligations += 1
                if c[0] != ('tok', '2', 0):
                    bad('%s does not define the symbol it names' % kind)
                if kind == 'equ':
                    if not any(c[1] == n for n in K.nums(x, 3)):
                        bad('the value of the symbol is not the number given')
                    if cur != A.seg_base(CODE):
                        bad('the number is taken as an address in a segment')
                    continue
                if kind == 'proc' and seg != CODE:
                    continue
                want = e.cell('instructionCount') if seg == CODE else e.used(seg)
                if c[1] != want:
                    bad('%s gives the symbol another value than its position' % kind)
                if cur != A.seg_base(seg):
                    bad('%s defines the symbol in another segment' % kind)


def c25_tables(r, S):
    """the table of mnemonics holds each row where AssembleLine looks for it"""
    name = S.init[0]
    R = Run(S, name, [])
    A = S.asm
    bad = lambda w, t: r.add([Finding('optable', w, t)], name)
    at = lambda st, t, n: R.view(st).f(t, 'hashtable_t', n)
    loops = [l for l in R.pol.loops if any(
        e[0] == 'store' and e[1] == ('b', 'g', 'opcodesHash') for b, _ in l[3]
        for e in b.ev[len(l[2].ev):])]
    if len(loops) != 1:
        raise Incomplete('the loop that fills opcodesHash was not found')
    header, st, gs, back, exits = loops[0]
    w = S.mod.where(header.term)
    tab = R.view(gs).g('optable')
    table, buckets = at(gs, tab, 'table'), at(gs, tab, 'buckets')
    inner = [c for c in R.chains if R.bucket_loop(c)]
    index = None
    for b, bp in back:
        ev = b.ev[len(gs.ev):]
        hs = [e for e in ev if e[0] == 'store' and e[1] == ('b', 'g', 'opcodesHash')]
        for ctx in b.by_cases():
            if not R.possible(ctx):
                continue
            r.obligations += 1
            if len(hs) != 1:
                bad(w, 'the hash is not kept under the number of the row')
                continue
            tb, to = R.eng.split_addr(table)
            m = {('s', 'hash~' + FIRST(A), 32): hs[0][4], BUCKETS(S): buckets}
            slots = [R.eng.mem_load(gs.fork(), tb, add(to, subst(t, m)), 8, ('int', 64))
                     for t in searched(A)]
            ent = c25_filed(R, b, ctx, R.view(b), [c for c in inner if c.first in slots], gs, ev,
                            slots)
            if isinstance(ent, str):
                bad(w, ent.replace('symbol', 'mnemonic'))
                continue
            obj, node, own, slot = ent
            base, off = R.eng.split_addr(obj)
            if base != ('b', 'g', 'sourceOps'):
                bad(w, 'the entry is no row of the table sourceOps')
                continue
            if len(hs) != 1 or scale(hs[0][2], A.rowsize // 4) != off:
                bad(w, 'the hash is not kept under the number of the row')
                continue
            nm = R.eng.mem_load(b, base, off, 8, ('int', 64))
            R.eng.ptr_atoms.add(single(nm))
            want = R.view(b).text(nm)
            h = single(hs[0][4])
            if h is None or A.info.get(h[1], (None,))[:2] != (S.hash, (want,)):
                bad(w, 'the hash kept is not that of the name of the row')
                continue
            # the rows visited: from the first one in steps of one
            X = index = hs[0][2]
            m0, m1 = {}, {}
            for i in header.instrs:
                if i.op == 'phi' and i in gs.env and gs.env[i][0] == 'l' and single(gs.env[i]):
                    for v, p in zip(i.ops, i.x['blocks']):
                        if p is bp:
                            m1[single(gs.env[i])] = R.eng.value(b, v)
                        elif p not in R.eng.cfg(header.func).loops[header]:
                            m0[single(gs.env[i])] = R.eng.value(st, v)
            nxt = subst(X, m1)
            if subst(X, m0) != con(0, 64):
                bad(w, 'the first row of the table is left out')
            if nxt != addc(X, 4) and not ctx.entails(icmp('eq', nxt, addc(X, 4))):
                bad(w, 'a row of the table is left out')
    r.obligations += 1
    if index is None:
        bad(w, 'the rows of the table are not all entered')
    else:
        for x in exits:
            for ctx in x[0].by_cases():
                r.obligations += 1
                if not ctx.contradictory() and not ctx.entails(
                        icmp('ule', con(4 * len(A.rows), 64), index)):
                    bad(w, 'the last rows of the table are left out')
    r.count('mnemonics', len(A.rows))
    # the tables are filled before the first line
    E = A.eff
    done = {name}
    grown = True
    while grown:
        grown = False
        for f in A.m0.funcs.values():
            if f.name in done or not f.blocks or f.name == 'main':
                continue
            cfg = CFG(f)
            if any(n in done and all(cfg.dominates(i.block, b) for b in f.blocks
                                     if b.term.op == 'ret') for i, n in E.calls.get(f.name, ())):
                done.add(f.name)
                grown = True
    main = A.m0.funcs['main']
    cfg = CFG(main)
    ini = [i for i, n in E.calls['main'] if n in done]
    for i, n in E.calls['main']:
        if n in A.m0.funcs and n not in done and 'AssembleLine' in E.transitive_calls(n):
            r.obligations += 1
            if not any(cfg.dominates(k.block, i.block) and (
                    k.block is not i.block or k.block.instrs.index(k) < i.block.instrs.index(i))
                    for k in ini):
                bad(A.m0.where(i), 'lines are assembled before the tables are filled')


def FIRST(A):
    return next(n for n, o in A.rows if n).decode('latin-1')


def BUCKETS(S):
    o, z = S.F['hashtable_t']['buckets']
    return ('ld', ('ld', ('b', 'g', 'optable'), con(0, 64), 64, '0'), con(o, 64), 8 * z, '0')


def searched(A):
    """offsets into the table at which AssembleLine starts to search"""
    out = set()

    class P(LinePolicy):
        def loaded(self, eng, st, a):
            ref, root = eng.ptype.get(a, (None, None))
            if root == 'optable' and ref and str(eng.di.tag(ref)).startswith('hashchain') and \
                    not str(eng.di.tag(eng.ptype.get(a[1], (None,))[0]) if
                            eng.ptype.get(a[1], (None,))[0] else '').startswith('hashchain'):
                out.add(a[2])
            super().loaded(eng, st, a)
    pol = P(A, FIRST(A).encode('latin-1'))
    eng = TypedEngine(A.mod, pol, A.di)
    st = State()
    eng.mem_store(st, ('b', 'g', 'currentSegment'), con(0, 64), 8, A.seg_base(CODE))
    eng.run_function(A.mod.funcs['AssembleLine'], st)
    if not out:
        raise Incomplete('AssembleLine does not search a hash chain for the mnemonic')
    return out
