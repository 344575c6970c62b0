"""Expression trees to nodes in rcc (lcc/src/dag.c): what each function does, as a sequence of
events over its arguments, by abstract interpretation."""
import lccback as B_
from lccback import *
from checks_asm import Finding

SRC = 'lcc/src/dag.c'
OPAQUE = ('node', 'newnode', 'list', 'reset', 'kill', 'labelnode', 'unlist', 'cvtconst', 'visit',
          'undag', 'walk', 'equated', 'fixup', 'prune', 'replace', 'listnodes')
# calls without effects: their result stands for function and arguments
PURE = ('findlabel', 'intconst', 'constant', 'bittree', 'shtree', 'cast', 'tree', 'lvalue',
        'rvalue', 'idtree', 'asgn', 'cvtconst', 'simplify', 'ttob', 'btot', 'equated', 'cnsttree')
OFF = {'tree': ('op', 'type', 'kids', 'node', 'u.v', 'u.sym', 'u.field'),
       'node': ('op', 'count', 'syms', 'kids', 'link'),
       'symbol': ('name', 'scope', 'sclass', 'type', 'ref', 'u.c.loc', 'u.l.label',
                  'u.l.equatedto', 'u.f.ncalls', 'u.t.cse', 'u.t.replace', 'x.name', 'u.s.flist', 'u.limits.max.i',
                  'u.seg', 'u.c.v', 'u.alias', 'u.limits.min.i', 'u.limits.max.d',
                  'u.limits.min.d', 'u.limits.max.u', 'u.limits.min.u'),
       'type': ('op', 'type', 'align', 'size', 'u.sym', 'u.f.proto'),
       'field': ('name', 'type', 'offset', 'bitsize', 'lsb', 'link'),
       'code': ('kind', 'next', 'prev', 'u', 'u.block.locals', 'u.block.x', 'u.begin', 'u.var',
                'u.addr.sym', 'u.addr.base', 'u.addr.offset', 'u.forest', 'u.swtch.table',
                'u.swtch.deflab', 'u.swtch.size', 'u.swtch.values', 'u.swtch.labels',
                'u.point.src'),
       'interface': METHODS + ('structmetric', 'charmetric', 'shortmetric', 'intmetric', 'longmetric',
                              'longlongmetric', 'floatmetric', 'doublemetric',
                              'longdoublemetric', 'ptrmetric')}
NAMES = ['ADDRF', 'ADDRG', 'ADDRL', 'ADD', 'AND', 'ARG', 'ASGN', 'BAND', 'BCOM', 'BOR', 'BXOR',
         'CALL', 'CNST', 'COND', 'CVF', 'CVI', 'CVP', 'CVU', 'DIV', 'EQ', 'FIELD', 'GE', 'GT',
         'INDIR', 'JUMP', 'LABEL', 'LE', 'LSH', 'LT', 'MOD', 'MUL', 'NE', 'NEG', 'NOT', 'OR',
         'RET', 'RIGHT', 'RSH', 'SUB', 'F', 'I', 'U', 'P', 'V', 'B',
         'INT', 'UNSIGNED', 'FLOAT', 'POINTER', 'STRUCT', 'UNION', 'FUNCTION', 'ARRAY', 'VOID',
         'CONST', 'VOLATILE', 'ENUM', 'CODE', 'LIT', 'STATIC', 'AUTO', 'REGISTER', 'GLOBAL',
         'FUNC', 'STMT', 'EXTERN',
         'Blockbeg', 'Blockend', 'Local', 'Address', 'Defpoint', 'Label', 'Start', 'Gen', 'Jump',
         'Switch']
Z = con(0, 64)


def N(n):
    return sym(n, 64)


class Dag:
    def __init__(self, src=SRC, opaque=OPAQUE, entries=()):
        tag = {'interface': 'Interface'}
        ex = ['offsetof(%s, %s)' % (tag.get(k, 'struct ' + k), f) for k, v in OFF.items()
              for f in v]
        c = consts(NAMES + ex)
        self.c = {n: c[n] for n in NAMES}
        self.o = {}
        for k, v in OFF.items():
            for f in v:
                self.o[k, f] = c['offsetof(%s, %s)' % (tag.get(k, 'struct ' + k), f)]
        self.unit = Unit(src, opaque=opaque, entries=entries)
        self.mod = self.unit.mod
        import checks_back
        back = checks_back.back()
        self.flags = back.flags
        self.hlink = [b // 8 for n, b, w in self.mod.struct_fields('dag') or () if n == 'hlink']
        if self.hlink:
            self.hlink = self.hlink[0]
        elif src == SRC:
            raise Anchor('struct dag')
        self.bits = {(t, n): b for t, m in (('symbol', self.mod), ('interface', back.mod))
                     for n, b, w in m.struct_fields(t) or ()}

    def fn(self, n):
        f = self.mod.funcs.get(n)
        if f is None or not f.blocks:
            raise Anchor('function %s not found' % n)
        return f

    def flag(self, t, name, on):
        """types entries for a bit-field byte of struct t"""
        b = self.bits.get((t, name))
        if b is None:
            raise Anchor('struct %s.%s' % (t, name))
        return b // 8, 1 << (b % 8) if on else 0


class Events(Rec):
    """the calls of a path; the globals the front end keeps change with the calls that may do so"""

    def __init__(self, C, mod, types=None, returns=None, globals_=None, changing=('forest',),
                 pure=PURE):
        self.C = C
        self.changing = changing
        self.terms = {}
        ret = {n: self.pure(n) for n in pure}
        ret.update({'newnode': self.newnode, 'list': self.listed, 'labelnode': self.havoc,
                    'unlist': self.havoc, 'jump': self.jump, 'listnodes.rec': self.listnodes,
                    'listnodes': self.listnodes})
        ret.update(returns or {})
        super().__init__(mod, types, ret, globals_)

    def load_hook(self, eng, st, ins, b, off, size):
        t = self.tables.get(b[2]) if b[0] == 'b' and b[1] == 'g' else None
        if t is not None and size == 8 and not any(
                w[0] == off or not (isinstance(t, dict) and is_con(w[0]) and is_con(off))
                for w in self.written(st, b)):
            v = t.get(scval(off)) if isinstance(t, dict) and is_con(off) else t
            if isinstance(v, tuple):
                if single(v):
                    eng.ptr_atoms.add(single(v))
                return v
        return super().load_hook(eng, st, ins, b, off, size)

    def pure(self, n):
        def f(pol, eng, st, args):
            a = tuple(args)
            if n == 'cnsttree':
                a = tuple(args[:2])
            t = sym('%s(%s)' % (n, ','.join(self.text(x) for x in a)), 32 if n == 'ttob' else 64)
            self.terms[single(t)] = (n, a)
            return t
        return f

    def text(self, x):
        return show(x) if x is not None else '?'

    def setg(self, eng, st, n, v):
        if single(v):
            eng.ptr_atoms.add(single(v))
        eng.mem_store(st, ('b', 'g', n), con(0, 64), 8, v)
        st.ev += (('store', ('b', 'g', n), con(0, 64), 8, v, ''),)

    def havoc(self, pol, eng, st, args):
        self.n += 1
        for g in self.changing:
            v = N('%s#%d' % (g, self.n))
            eng.ptr_atoms.add(single(v))
            self.setg(eng, st, g, v)
        return 'done'

    def fresh(self, eng, name):
        self.n += 1
        v = N('%s@%d' % (name, self.n))
        eng.ptr_atoms.add(single(v))
        return v

    def listnodes(self, pol, eng, st, args):
        self.havoc(pol, eng, st, args)
        return self.fresh(eng, 'L')

    def newnode(self, pol, eng, st, args):
        v = self.fresh(eng, 'new')
        o, n = self.C.o, single(v)[1]
        st.ctx.assume(icmp('ne', v, Z))
        self.types[n, o['node', 'link']] = Z
        self.types[n, o['node', 'op']] = trunc(args[0], 16)
        self.types[n, o['node', 'syms']] = args[3]
        self.types[n, o['node', 'syms'] + 8] = Z
        self.types[n, o['node', 'syms'] + 16] = Z
        self.types[n, o['node', 'kids']] = args[1]
        self.types[n, o['node', 'kids'] + 8] = args[2]
        return v

    def jump(self, pol, eng, st, args):
        v = self.fresh(eng, 'jumpnode')
        st.ctx.assume(icmp('ne', v, Z))
        self.types[single(v)[1], self.C.o['node', 'link']] = Z
        return v

    def listed(self, pol, eng, st, args):
        a = single(args[0])
        if a and a[0] == 's' and a[1].split('@')[0] in ('new', 'jumpnode'):
            self.setg(eng, st, 'forest', args[0])
        else:
            self.havoc(pol, eng, st, args)
        return 'done'


class DRun:
    def __init__(self, r, C, fname, args, what, types=None, returns=None, globals_=None, facts=(),
                 live=(), rule='nodes', changing=('forest',), pure=PURE, tables=None, cls=Events):
        self.r, self.C, self.what, self.rule, self.fname = r, C, what, rule, fname
        f = C.fn(fname)
        self.mod = C.mod
        pol = self.pol = cls(C, C.mod, types, returns, globals_, changing, pure)
        pol.tables = tables or {}
        eng = self.eng = Unroll(C.mod, pol)
        st = State()
        if len(f.args) != len(args):
            raise Anchor('%s has %d parameters' % (fname, len(f.args)))
        for a, v in zip(f.args, args):
            st.env[a] = v
            if v[0] == 'l' and v[1] == 64 and single(v) and a.ty == llir.PTR:
                eng.ptr_atoms.add(single(v))
        for x in sorted({k[0] for k in types or ()} | set(live)):
            st.ctx.assume(icmp('ne', N(x), Z))
        for x in facts:
            st.ctx.assume(x)
        eng.run_function(f, st)
        if not pol.rets:
            r.obligations += 1
            self.bad(self.at(f), 'never returns')

    def at(self, f):
        for b in f.blocks:
            for i in (f.blocks[b] if isinstance(f.blocks, dict) else b).instrs:
                w = self.mod.where(i)
                if w and not w.endswith(':0'):
                    return w
        return SRC + ':1'

    def bad(self, where, what):
        self.r.add([Finding(self.rule, where, '%s: %s' % (self.what, what), ())], self.fname)

    def paths(self):
        for st, val, where in self.pol.rets:
            for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
                if ctx.contradictory():
                    continue
                self.r.obligations += 1
                yield ctx, self.events(st), val, where, st

    def events(self, st):
        out = []
        for e in st.ev:
            if e[0] != 'call':
                continue
            n = e[1]
            if n in PURE:
                continue
            out.append((n[:-4] if n.endswith('.rec') else n, e[2], e[3]))
        return out

    def final(self, st, base, off, size=None):
        """the last value stored at base+off, or None"""
        v = None
        b = single(base) if base[0] == 'l' else base
        for e in st.ev:
            if e[0] == 'store' and e[1] == b and e[2] == con(off, 64):
                v = e[4]
        return v


# calls that neither use nor change the table of common subexpressions
NEUTRAL = ('list', 'newnode', 'equatelab', 'unlist', 'addlocal', 'jump', 'genlabel')


class No(Exception):
    pass


def match(want, got, ctx, same=None):
    """unify the events wanted with those there are. Elements of `want`: (name, args, result) where
    strings are variables; ('R',): the table of common subexpressions is emptied here; ('K', s):
    what was loaded from s is forgotten here; ('?', [...]): optional events"""
    env = {}
    _match(list(want), list(got), ctx, env, False, ())
    return env


def eq(ctx, a, b):
    if a == b:
        return True
    if a is None or b is None or a[0] != 'l' or b[0] != 'l' or a[1] != b[1]:
        return False
    return known(ctx, icmp('eq', a, b))


def known(ctx, c):
    return c if isinstance(c, bool) else bool(ctx.entails(c))


def unify(ctx, w, g, env):
    if isinstance(w, str):
        if w == '_':
            return
        if w in env:
            if not eq(ctx, env[w], g):
                raise No('%s instead of %s' % (show(g), show(env[w])))
        else:
            env[w] = g
        return
    if callable(w):
        w = w(env)
    if isinstance(w, list):
        if not any(eq(ctx, x, g) for x in w):
            raise No('%s instead of %s' % (show(g) if g else g, ' or '.join(show(x) for x in w)))
        return
    if not eq(ctx, w, g):
        raise No('%s instead of %s' % (show(g) if g else g, show(w)))


def _match(want, got, ctx, env, reset, kills):
    while want:
        w = want[0]
        if w[0] == '?':
            for opt in (w[1], []):
                e2 = dict(env)
                try:
                    _match(list(opt) + want[1:], got, ctx, e2, reset, kills)
                    env.clear()
                    env.update(e2)
                    return
                except No as x:
                    err = x
            raise err
        if w[0] == 'or':
            err = None
            for opt in w[1:]:
                e2 = dict(env)
                try:
                    _match(list(opt) + want[1:], got, ctx, e2, reset, kills)
                    env.clear()
                    env.update(e2)
                    return
                except No as x:
                    err = err or x
            raise err
        # resets in front of the next event
        while got and got[0][0] in ('reset', 'kill') and w[0] not in ('reset', 'kill'):
            if got[0][0] == 'reset':
                reset = True
            else:
                kills = kills + (got[0][1][0],)
            got = got[1:]
        if w[0] == 'R':
            if not reset:
                raise No('common subexpressions are not forgotten %s' % (
                    'in front of %s' % evtext(got[0]) if got else 'at the end'))
            want = want[1:]
            continue
        if w[0] == 'K':
            if not reset and not any(eq(ctx, w[1], k) for k in kills):
                raise No('values loaded are not forgotten after the assignment')
            want = want[1:]
            continue
        if not got:
            raise No('%s is missing' % w[0])
        g = got[0]
        if g[0] != w[0]:
            raise No('%s instead of %s' % (evtext(g), w[0]))
        if len(g[1]) < len(w[1]):
            raise No('arguments of ' + w[0])
        for a, b in zip(w[1], g[1]):
            try:
                unify(ctx, a, b, env)
            except No as x:
                raise No('%s: %s' % (evtext(g), x))
        if len(w) > 2:
            unify(ctx, w[2], g[2], env)
        if g[0] not in NEUTRAL:
            reset, kills = g[0] == 'labelnode', ()
        want, got = want[1:], got[1:]
    while got and got[0][0] in ('reset', 'kill'):
        got = got[1:]
    if got:
        raise No('%s is too much' % evtext(got[0]))


def evtext(g):
    return '%s(%s)' % (g[0], ', '.join(show(x) if x else '?' for x in g[1]))
