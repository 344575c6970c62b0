"""C41: declarations of rcc (decl.c)."""
import itertools
import lccdag
from checks_data import *
from checks_data import unit as dunit
from lccback import single
from engine import Incomplete

NAMESD = ('SHORT', 'LONG', 'SIGNED', 'DOUBLE', 'TYPEDEF', 'IF', 'ELLIPSIS', 'INT', 'LOCAL', 'PARAM', 'PERM', 'EOI')
BASE = {'VOID': 'voidtype', 'CHAR': 'chartype', 'INT': 'inttype', 'FLOAT': 'floattype', 'DOUBLE': 'doubletype'}
ALLT = ('signedchar', 'unsignedchar', 'shorttype', 'unsignedshort', 'longtype', 'unsignedlong', 'longlong',
        'unsignedlonglong', 'longdouble', 'unsignedtype', 'voidtype', 'chartype', 'inttype', 'floattype', 'doubletype')
WORDS = ('VOID', 'CHAR', 'INT', 'FLOAT', 'DOUBLE', 'SHORT', 'LONG', 'SIGNED', 'UNSIGNED', 'TYPE')
TAGS = ('STRUCT', 'UNION', 'ENUM')
CLASSES = ('AUTO', 'REGISTER', 'STATIC', 'EXTERN', 'TYPEDEF')


def unit(opaque):
    lccdag.NAMES[:] = lccdag.NAMES + [n for n in NAMESD if n not in lccdag.NAMES]
    for f in ('u.value', 'u.idlist', 'src'):
        if f not in lccdag.OFF['symbol']:
            lccdag.OFF['symbol'] = lccdag.OFF['symbol'] + (f,)
    return dunit('decl.c', opaque)


class Stream(Toks):
    """tokens with their text and symbol"""

    def __init__(self, C, toks, syms=None):
        super().__init__(C, [t.split(':')[0] for t in toks])
        self.full, self.syms = toks, syms or {}

    def code(self, x):
        return super().code('ID' if x == 'TYPE' else x)

    def attach(self, eng, st, i):
        if i < len(self.toks):
            for g, v in (('tsym', self.sym(i)), ('token', self.text(i))):
                if single(v):
                    eng.ptr_atoms.add(single(v))
                eng.mem_store(st, ('b', 'g', g), Z, 8, v)
                st.ev += (('store', ('b', 'g', g), Z, 8, v, ''),)

    def sym(self, i):
        t = self.toks[i]
        return self.syms[i] if i in self.syms else N('sym.' + t) if t in BASE else N('sym.type') if t == 'TYPE' else Z

    def text(self, i):
        return N('tok%d' % i)

    def gettok(self, pol, eng, st, args):
        v = super().gettok(pol, eng, st, args)
        self.attach(eng, st, self.at(st))
        return v

    def step(self, pol, eng, st, k=1):
        v = super().step(pol, eng, st, k)
        self.attach(eng, st, self.at(st))
        return v

    def globals(self):
        C = self.C
        g = {'t': self.code(self.toks[0]), 'tsym': self.sym(0), 'token': self.text(0), 'Aflag': O, 'xref': O}
        for t in set(self.toks) | {'EOI', ')', ']', ',', ';', '*', '(', '[', '{', '}'}:
            k = ('ID' if t in ('TYPE', 'ID', 'ICON', '*', '(', '!') else 'CHAR' if t in BASE or t in (
                'SHORT', 'LONG', 'SIGNED', 'UNSIGNED', 'CONST', 'VOLATILE', 'STRUCT', 'UNION', 'ENUM') else
                'STATIC' if t in CLASSES else None)
            if k:
                g['kind', cval(self.code(t))] = con(C.c[k], 8)
            else:
                g['kind', cval(self.code(t))] = con(cval(self.code(t)) & 127, 8)
        for x in ALLT:
            g[x] = N(x)
        return g

    def types(self):
        o, C = self.C.o, self.C
        t = {}
        for w, ty in BASE.items():
            t['sym.' + w, o['symbol', 'type']] = N(ty)
            t['sym.' + w, o['symbol', 'sclass']] = O
        t['sym.type', o['symbol', 'type']] = N('T')
        t['sym.type', o['symbol', 'sclass']] = con(C.c['TYPEDEF'], 32)
        t['T', o['type', 'op']] = con(C.c['STRUCT'], 32)
        return t


VALID = ('VOID', 'CHAR', 'SIGNED CHAR', 'UNSIGNED CHAR', 'SHORT', 'UNSIGNED SHORT', 'INT', 'UNSIGNED', 'UNSIGNED INT', 'LONG',
         'UNSIGNED LONG', 'LONG LONG', 'UNSIGNED LONG LONG', 'FLOAT', 'DOUBLE', 'LONG DOUBLE', 'TYPE', 'STRUCT', 'UNION', 'ENUM')


def c_type(ws):
    """the type a multiset of words means, None if none"""
    s = tuple(sorted(ws))
    tab = {}
    for k, alts in (
            ('voidtype', ['VOID']), ('chartype', ['CHAR']), ('signedchar', ['SIGNED CHAR']),
            ('unsignedchar', ['UNSIGNED CHAR']),
            ('shorttype', ['SHORT', 'SIGNED SHORT', 'SHORT INT', 'SIGNED SHORT INT']),
            ('unsignedshort', ['UNSIGNED SHORT', 'UNSIGNED SHORT INT']),
            ('inttype', ['', 'INT', 'SIGNED', 'SIGNED INT']), ('unsignedtype', ['UNSIGNED', 'UNSIGNED INT']),
            ('longtype', ['LONG', 'SIGNED LONG', 'LONG INT', 'SIGNED LONG INT']),
            ('unsignedlong', ['UNSIGNED LONG', 'UNSIGNED LONG INT']),
            ('longlong', ['LONG LONG', 'SIGNED LONG LONG', 'LONG LONG INT', 'SIGNED LONG LONG INT']),
            ('unsignedlonglong', ['UNSIGNED LONG LONG', 'UNSIGNED LONG LONG INT']),
            ('floattype', ['FLOAT']), ('doubletype', ['DOUBLE']), ('longdouble', ['LONG DOUBLE']), ('T', ['TYPE']),
            ('tagSTRUCT', ['STRUCT']), ('tagUNION', ['UNION']), ('tagENUM', ['ENUM'])):
        for a in alts:
            tab[tuple(sorted(a.split()))] = k
    return tab.get(s)


def quals(x):
    """the type without the qualifiers applied, and these"""
    q = []
    while x.startswith('qual('):
        op, x = x[5:-1].split(',', 1)
        q.append(op)
    return x, sorted(q)


def specifiers(r):
    C = unit(('enumdcl', 'structdcl', 'use'))
    o, K = C.o, C.c
    n = 0
    seqs = [()]
    for k in (1, 2, 3):
        seqs += itertools.product(WORDS, repeat=k)
    seqs += set(itertools.permutations(('UNSIGNED', 'LONG', 'LONG', 'INT')))
    seqs += set(itertools.permutations(('SIGNED', 'LONG', 'LONG', 'INT')))
    # three words that make no type are so in any order
    seqs = [s for s in seqs if len(s) != 3 or c_type(s) or list(s) == sorted(s)]
    seqs += [p for w in ('STRUCT', 'UNION', 'ENUM') for v in WORDS for p in ((w, v), (v, w))]
    cases = [(s, True) for s in seqs]
    for a in CLASSES + ('CONST', 'VOLATILE'):
        for w in (('INT',), ('TYPE',), ('UNSIGNED', 'CHAR'), ()):
            for i in range(len(w) + 1):
                cases.append((w[:i] + (a,) + w[i:], True))
                if a in CLASSES and i == 0:
                    cases.append((w[:i] + (a,) + w[i:], False))
        for b in CLASSES + ('CONST', 'VOLATILE'):
            cases.append(((a, 'INT', b), True))
            cases.append(((a, b, 'INT'), True))
    # every type with every qualifier and class, before and after
    for w in sorted({tuple(v.split()) for v in VALID}):
        for a in CLASSES + ('CONST', 'VOLATILE'):
            cases += [((a,) + w, True), (w + (a,), True)]
    cases += [(('INT',), False), (('CONST', 'VOLATILE', 'STATIC', 'INT'), True)]
    for seq, out in cases:
        for lev in (('GLOBAL', 'PARAM', 'LOCAL') if any(c in seq for c in ('AUTO', 'REGISTER')) else ('LOCAL',)):
            spec(r, C, seq, out, lev)
            n += 1
    r.cover['specifiers'] = n


def qual(p, en, st, a):
    return N('qual(%s,%s)' % (show(a[0]), show(a[1])))


def spec(r, C, seq, out, lev):
    o, K = C.o, C.c
    end = 'ID' if 'TYPE' not in seq and not any(w in seq for w in WORDS) else '*'
    T = Stream(C, list(seq) + ['*'])
    def tagged(p, en, st, a, i):
        for w in ('STRUCT', 'UNION'):
            if a[0] == con(K[w], 32):
                return N('tag' + w)
        return N('tag?')
    R = running(r, C, 'specifier', [N('cls') if out else Z], '%s%s' % (
        ' '.join(seq).lower() or 'no specifier', '' if out else ' (no storage class allowed)'), types=T.types(),
        globals_={**T.globals(), 'level': con(K[lev], 32)}, live=('cls',) if out else (), rule='specifiers',
        returns={'gettok': T.gettok, 'qual': qual, 'enumdcl': T.item(lambda p, e, s, a, i: N('tagENUM')),
                 'enumdcl.rec': T.item(lambda p, e, s, a, i: N('tagENUM')), 'structdcl': T.item(tagged), 'structdcl.rec': T.item(tagged)})
    ws = [x for x in seq if x in WORDS + TAGS]
    # a name that follows type specifiers is the declarator
    stop = None
    got = []
    for i, x in enumerate(seq):
        if x == 'TYPE' and any(w in WORDS + TAGS for w in seq[:i]):
            stop = i
            break
    used = seq if stop is None else seq[:stop]
    ws = [x for x in used if x in WORDS + TAGS]
    cl = [x for x in used if x in CLASSES]
    qs = [x for x in used if x in ('CONST', 'VOLATILE')]
    want = c_type(ws)
    bad = want is None or len(cl) > (1 if out else 0) or len(set(qs)) != len(qs) or \
        lev == 'GLOBAL' and out and bool(cl) and cl[0] in ('AUTO', 'REGISTER')
    for ctx, ev, val, where, st in R.paths():
        try:
            err = any(e[0] == 'error' for e in ev)
            if err != bad:
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            if consumed(st) != len(used):
                raise No('reads the wrong tokens')
            if err:
                continue
            ty, q = quals(show(val))
            if ty != want:
                raise No('is %s' % ty)
            if q != sorted(str(K[x]) for x in qs):
                raise No('has other qualifiers')
            if out:
                w = R.final(st, N('cls'), 0)
                if w != con(K[cl[0]] if cl else 0, 32):
                    raise No('its storage class is %s' % (show(w) if w else 'not given'))
        except No as e:
            R.bad(where, str(e))


def enums(r):
    C = unit(('install', 'lookup', 'append', 'ltov', 'newstruct', 'use', 'stringd', 'genlabel'))
    o, K = C.o, C.c
    n = 0
    E = N('enum')
    for tag in (0, 1):
        for vals in [()] + [p for k in (1, 2, 3) for p in itertools.product((0, 1), repeat=k)]:
            for trail in ((0, 1) if vals else (0,)):
                for lev in ('GLOBAL', 'PARAM', 'LOCAL') if len(vals) == 2 else ('LOCAL',):
                    for dup in [None] + (list(range(len(vals))) if len(vals) == 2 and not tag else []):
                        enum1(r, C, tag, vals, trail, lev, dup)
                        n += 1
    # references to tags
    for tag in (0, 1):
        for known_ in (None, 'ENUM', 'STRUCT'):
            for end in (';', '*'):
                T = Stream(C, ['ENUM'] + (['ID'] if tag else []) + [end])
                t = T.types()
                t['old', o['symbol', 'type']] = N('oldty')
                t['oldty', o['type', 'op']] = con(K[known_ or 'ENUM'], 32)
                t['oldty', o['type', 'u.sym']] = N('old')
                t['new', o['type', 'u.sym']] = N('newsym')
                R = running(r, C, 'enumdcl', [], 'enum%s %s (%s)' % (' tag' if tag else '', end, known_), types=t,
                            globals_={**T.globals(), 'types': N('types')}, rule='enumerations', live=('old', 'new', 'newsym'),
                            returns={'gettok': T.gettok, 'lookup': lambda p, e, s, a: N('old') if known_ and a[0] == N('tok1') and
                                     a[1] == N('types') else Z, 'newstruct': lambda p, e, s, a: N('new')})
                for ctx, ev, val, where, st in R.paths():
                    err = any(e[0] == 'error' for e in ev)
                    found = tag and known_ == 'ENUM'
                    if err != (not found or end == ';'):
                        R.bad(where, 'is %sdiagnosed' % ('' if err else 'not '))
                    if found and val != N('oldty'):
                        R.bad(where, 'is another type')
                n += 1
    r.cover['enumerations'] = n


def enum1(r, C, tag, vals, trail, lev, dup):
    o, K = C.o, C.c
    toks = ['ENUM'] + (['ID'] if tag else []) + ['{']
    syms, names = {}, []
    for i, v in enumerate(vals):
        if i:
            toks.append(',')
        syms[len(toks)] = N('old') if dup == i else N('outer') if i % 2 else Z
        names.append(N('tok%d' % len(toks)))
        toks.append('ID')
        if v:
            toks += ['=', 'ICON']
    toks += [','] * trail + ['}', ';']
    T = Stream(C, toks, syms)
    t = T.types()
    t['old', o['symbol', 'scope']] = con(K[lev], 32)
    t['outer', o['symbol', 'scope']] = con(K[lev] - 1, 32)
    t['enum', o['type', 'u.sym']] = N('enumsym')
    t['enumsym', C.flag('symbol', 'defined', True)[0]] = con(0, 8)
    t['inttype', o['type', 'size']] = t['inttype', o['type', 'align']] = con(4, 32)
    made = lambda st: [e for e in st.ev if e[0] == 'made']

    def install(p, en, st, a):
        i = len(made(st))
        st.ev += (('made', tuple(a)),)
        st.ctx.assume(icmp('ne', N('c%d' % i), Z))
        return N('c%d' % i)

    def intexpr(p, en, st, a, i):
        return sym('v%d' % i, 32)

    def append(p, en, st, a):
        return N('[%s%s]' % (show(a[1])[1:-1] + ';' if a[1] != Z else '', show(a[0])))

    def ltov(p, en, st, a):
        b, off = en.split_addr(a[0])
        v = en.mem_load(st, b, off, 8, llir.PTR)
        en.mem_store(st, b, off, 8, Z)
        return N('vec' + show(v))
    R = running(r, C, 'enumdcl', [], 'enum%s { %s }%s (%s)' % (' tag' if tag else '', ' '.join(toks[2 + tag:-2]), ' again %s' %
                dup if dup is not None else '', lev.lower()), types=t, rule='enumerations', live=('enum', 'enumsym', 'old', 'outer'),
                globals_={**T.globals(), 'level': con(K[lev], 32), 'types': N('types'), 'identifiers': N('ids')},
                returns={'gettok': T.gettok, 'install': install, 'intexpr': T.item(intexpr), 'append': append, 'ltov': ltov,
                         'newstruct': lambda p, e, s, a: N('enum'), 'test': closing(T)})
    for ctx, ev, val, where, st in R.paths():
        try:
            err = [e for e in ev if e[0] == 'error']
            # what the constants are
            want, k, over = [], None, False
            for i, v in enumerate(vals):
                if v:
                    j = len([x for x in vals[:i] if x])
                    k = sext(sym('v%d' % j, 32), 64)
                elif k is None:
                    k = con(0, 64)
                else:
                    if not known(ctx, icmp('ne', k, con((1 << 31) - 1, 64))):
                        over = True
                        if not known(ctx, icmp('eq', k, con((1 << 31) - 1, 64))):
                            raise No('a constant may be too large for int')
                    k = addc(k, 1)
                want.append(k)
            bad = dup is not None or not vals or over
            if bool(err) != bad:
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            if val != N('enum') or [a for n_, a, w in ev if n_ == 'newstruct'][0][0] != con(K['ENUM'], 32):
                raise No('is another type')
            if err:
                continue
            got = made(st)
            if len(got) != len(vals):
                raise No('has %d constants' % len(got))
            for i, e in enumerate(got):
                a = e[1]
                if a[0] != names[i] or single(a[1]) != ('b', 'g', 'identifiers') or a[2] != con(K[lev], 32) or \
                        a[3] != con(K['PERM' if lev in ('GLOBAL', 'PARAM') else 'FUNC'], 32):
                    raise No('constant %d is entered otherwise' % (i + 1))
                c = N('c%d' % i)
                v = rd(R, st, c, o['symbol', 'u.value'], 32)
                if not eq(ctx, sext(v, 64), want[i]) and not eq(ctx, v, trunc(want[i], 32)):
                    raise No('constant %d is %s' % (i + 1, show(v)))
                if rd(R, st, c, o['symbol', 'type']) != N('enum') or \
                        rd(R, st, c, o['symbol', 'sclass'], 32) != con(K['ENUM'], 32):
                    raise No('constant %d has another type' % (i + 1))
            if rd(R, st, N('enum'), o['type', 'type']) != N('inttype') or \
                    rd(R, st, N('enum'), o['type', 'size'], 32) != con(4, 32):
                raise No('its values are not ints')
            al = rd(R, st, N('enum'), o['type', 'align'], 32)
            if al != con(4, 32):
                raise No('its alignment is %s' % show(al))
            df, bit = C.flag('symbol', 'defined', True)
            w = R.final(st, N('enumsym'), df)
            if w is None or not known(ctx, icmp('ne', and_(w, con(bit, 8)), con(0, 8))):
                raise No('is not defined')
            il = rd(R, st, N('enumsym'), o['symbol', 'u.idlist'])
            if show(il) != 'vec[%s]' % ';'.join('c%d' % i for i in range(len(vals))):
                raise No('its constants are %s' % show(il))
            if consumed(st) != len(toks) - 1:
                raise No('reads the wrong tokens')
        except No as e:
            R.bad(where, str(e))


def stale(r):
    """a qualified incomplete type whose name stands for what is complete by now"""
    C = unit(('enumdcl', 'structdcl', 'use'))
    o, K = C.o, C.c
    for q in ('CONST', 'VOLATILE', 'CONST+VOLATILE'):
        for old, new in ((0, 8), (8, 8)):
            T = Stream(C, ['TYPE', '*'])
            t = T.types()
            typetree(C, t, 'T', q, 'S', old)
            typetree(C, t, 'S', 'STRUCT', None, new)
            R = running(r, C, 'specifier', [N('cls')], 'a name of a %s type that was %scomplete' % (
                q.lower(), '' if old else 'in'), types=t, globals_={**T.globals(), 'level': con(K['LOCAL'], 32)},
                live=('cls', 'T', 'S'), rule='specifiers', returns={'gettok': T.gettok, 'qual': qual})
            for ctx, ev, val, where, st in R.paths():
                ty, qs = quals(show(val))
                ok = val == N('T') if old == new else False
                if not ok and (ty != 'S' or qs != sorted(str(K[x]) for x in q.split('+'))):
                    R.bad(where, 'is %s' % show(val))
                if any(e[0] == 'error' for e in ev):
                    R.bad(where, 'is diagnosed')


SUFFIX = {'ARRAY': ['[', 'ICON', ']'], 'COMPUTED': ['[', '(', ']'], 'NAMED': ['[', 'ID', ']'], 'OPEN': ['[', ']'], 'FUNCTION': ['(', 'PARAMS']}


def declarators(r):
    C = unit(('parameters', 'exitparams', 'enterscope', 'exitscope', 'structdcl', 'enumdcl', 'dclparam'))
    o, K = C.o, C.c
    n = 0
    subs = (None, 'ID', '(', '*', '()', '()CHAR', '()REGISTER', '()TYPE')
    for head in subs:
        for sfx in [()] + [p for k in (1, 2) for p in itertools.product(('ARRAY', 'OPEN', 'FUNCTION'), repeat=k)] + [('COMPUTED',), ('NAMED',)]:
            if head == '*' and sfx:
                continue
            for qs in ((), ('CONST',), ('VOLATILE',), ('CONST', 'VOLATILE'), ('VOLATILE', 'CONST')) if head == '*' else ((),):
                for id_, abstract, prm in ((1, 0, 1), (1, 0, 0), (0, 1, 0), (1, 1, 0), (1, 0, 2)):
                    if head and head[:2] == '()' and not abstract or prm and not any(x == 'FUNCTION' for x in sfx) and prm != 1:
                        continue
                    if head is None and sfx and sfx[0] == 'FUNCTION' and (abstract or True):
                        continue            # a parenthesis that is first is not a suffix
                    for lev in ('GLOBAL', 'LOCAL') if 'FUNCTION' in sfx or head and head[:2] == '()' else ('GLOBAL',):
                        for inner in (0, 1, 2) if head in ('*', '(') else (0,):
                            declarator(r, C, head, sfx, qs, id_, abstract, prm, lev, inner)
                            n += 1
    # the type they make of a base type
    C = unit(('dclr1', 'parameters', 'exitparams'))
    kinds = ('POINTER', 'FUNCTION', 'ARRAY', 'CONST', 'VOLATILE')
    for k in (0, 1, 2, 3):
        for ops in itertools.product(kinds, repeat=k):
            T = Stream(C, [';'])
            t = T.types()
            for i, op in enumerate(ops):
                t['d%d' % i, o['type', 'op']] = con(K[op], 32)
                t['d%d' % i, o['type', 'size']] = sym('n%d' % i, 32)
                t['d%d' % i, o['type', 'u.f.proto']] = N('proto%d' % i)
                t['d%d' % i, o['type', 'u.sym']] = con((i + k) % 2, 8)
                t['d%d' % i, o['type', 'type']] = N('d%d' % (i + 1)) if i + 1 < k else Z
            R = running(r, C, 'dclr', [N('base'), N('id'), N('params'), sym('abs', 32)], 'a declarator: %s' % ' '.join(
                ops).lower(), types=t, rule='declarators', live=('base', 'id', 'params'), globals_=T.globals(),
                returns={'dclr1': lambda p, e, s, a, k=k: N('d0') if k else Z, 'qual': qual,
                         'ptr': lambda p, e, s, a: N('ptr(%s)' % show(a[0])),
                         'func': lambda p, e, s, a: N('func(%s)' % ','.join(show(x) for x in a)),
                         'array': lambda p, e, s, a: N('array(%s)' % ','.join(show(x) for x in a))})
            want = 'base'
            for i, op in enumerate(ops):
                want = {'POINTER': 'ptr(%s)' % want, 'FUNCTION': 'func(%s,proto%d,%d)' % (want, i, (i + k) % 2),
                        'ARRAY': 'array(%s,n%d,0)' % (want, i)}.get(op, 'qual(%d,%s)' % (K[op], want))
            for ctx, ev, val, where, st in R.paths():
                if show(val) != want and quals(show(val)) != quals(want):
                    R.bad(where, 'is %s' % show(val))
                a = [a for n_, a, w in ev if n_ == 'dclr1']
                if a != [(N('id'), N('params'), sym('abs', 32))]:
                    R.bad(where, 'is read otherwise')
            n += 1
    r.cover['declarators'] = n


def declarator(r, C, head, sfx, qs, id_, abstract, prm, lev, inner):
    """inner: kind of the declarator inside: none, a pointer, a function with parameters"""
    o, K = C.o, C.c
    toks = []
    if head == 'ID':
        toks.append('ID')
    elif head == '*':
        toks += ['*'] + list(qs) + ['INNER']
    elif head == '(':
        toks += ['(', 'INNER', ')']
    elif head and head[:2] == '()':
        toks += ['(', head[2:] or ')']       # parameters of a nameless function
        head = '()'
    for s in sfx:
        toks += SUFFIX[s]
    toks.append(';')
    # what a call reads is one token; a parameter list includes its parenthesis
    toks = ['!' if x == 'INNER' else 'CHAR' if x == 'PARAMS' else x for x in toks]
    T = Stream(C, toks)
    t = T.types()
    t['in1', o['type', 'op']] = con(K['POINTER'], 32)
    t['in1', o['type', 'type']] = Z
    t['in2', o['type', 'op']] = con(K['FUNCTION'], 32)
    t['in2', o['type', 'type']] = Z
    t['params', 0] = N('former') if prm == 2 else Z
    named = {'done': 0}

    def rec(p, en, st, a, i):
        if a[0] != Z:
            b, off = en.split_addr(a[0])
            if inner or head == '(':
                en.mem_store(st, b, off, 8, N('inner.id'))
                st.ev += (('store', b, off, 8, N('inner.id'), ''),)
        if inner == 2 and a[1] != Z:
            b, off = en.split_addr(a[1])
            st.ev += (('store', b, off, 8, N('inner.params'), ''),)
            en.mem_store(st, b, off, 8, N('inner.params'))
        return N('in%d' % inner) if inner else Z

    def params(p, en, st, a, i):
        k = len([e for e in st.ev if e[0] == 'plist'])
        st.ev += (('plist', a[0]),)
        st.ctx.assume(icmp('ne', N('plist%d' % k), Z))
        return N('plist%d' % k)

    def scope(d):
        def f(p, en, st, a):
            v = en.mem_load(st, ('b', 'g', 'level'), Z, 4, ('i', 32))
            w = [e for e in st.ev if e[0] == 'store' and e[1] == ('b', 'g', 'level')]
            v = addc(w[-1][4] if w else con(K[lev], 32), d)
            st.ev += (('store', ('b', 'g', 'level'), Z, 4, v, ''),)
            en.mem_store(st, ('b', 'g', 'level'), Z, 4, v)
            return 'done'
        return f
    what = 'a declarator %s%s%s' % (' '.join(toks[:-1]), ' (abstract)' if abstract else '', ', '.join(
        ['', 'no name' if not id_ else '', 'inside: %d' % inner, lev.lower()]))
    sizes = sym('size', 32)
    R = running(r, C, 'dclr1', [N('id') if id_ else Z, N('params') if prm else Z, con(abstract, 32)], what, types=t,
                rule='declarators', live=('id', 'params', 'in1', 'in2', 'former', 'inner.params', 'inner.id'),
                globals_={**T.globals(), 'level': con(K[lev], 32)},
                returns={'gettok': T.gettok, 'dclr1.rec': T.item(rec), 'dclr1': T.item(rec), 'parameters': T.item(params),
                         'intexpr': T.item(lambda p, e, s, a, i: sym('size%d' % i, 32), 2), 'expect': closing(T),
                         'enterscope': scope(1), 'exitparams': lambda p, e, s, a: 'done'})
    for ctx, ev, val, where, st in R.paths():
        try:
            err = [e for e in ev if e[0] == 'error']
            bad = head == 'ID' and not id_
            # what it should be, from the outside in
            want = [(x, None) for x in ('POINTER',) * (head == '*') + ()] + [(q, None) for q in qs]
            if head in ('*', '('):
                want += [('in%d' % inner, None)] if inner else []
            if head == '()':
                want = [('FUNCTION', N('plist0'))]
            # a nameless "()"
            lone = head == '(' and abstract and not inner and (not id_)
            if lone:
                continue
            pl, item = (1 if head == '()' else 0), (1 if head in ('*', '(', '()') else 0)
            outer, first = [], prm == 1 and not (inner == 2 and head in ('*', '('))
            for s in sfx:
                if s == 'FUNCTION':
                    outer.insert(0, ('FUNCTION', N('plist%d' % pl)))
                    pl += 1
                    item += 1
                elif s == 'OPEN':
                    outer.insert(0, ('ARRAY', con(0, 32)))
                else:
                    v = sym('size%d' % item, 32)
                    item += 1
                    if known(ctx, icmp('sle', v, O)):
                        bad = True
                        v = con(1, 32)
                    elif not known(ctx, icmp('slt', O, v)):
                        raise No('a size that may be negative or zero is not diagnosed')
                    outer.insert(0, ('ARRAY', v))
            want = outer + want
            for m, a, w in ev:
                if m in ('dclr1', 'dclr1.rec') and a != (N('id') if id_ else Z, N('params') if prm else Z, con(abstract, 32)):
                    raise No('the declarator inside is read otherwise')
            if bool(err) != bad:
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            got, x = [], val
            while x != Z and len(got) < 9:
                if x in (N('in1'), N('in2')):
                    got.append((show(x), None))
                    x = Z
                    continue
                op = rd(R, st, x, o['type', 'op'], 32)
                name = [q for q in ('POINTER', 'ARRAY', 'FUNCTION', 'CONST', 'VOLATILE') if op == con(K[q], 32)]
                if not name:
                    raise No('contains %s' % show(op))
                v = None
                if name[0] == 'ARRAY':
                    v = rd(R, st, x, o['type', 'size'], 32)
                if name[0] == 'FUNCTION':
                    p = [k for k, e in enumerate([e for e in st.ev if e[0] == 'plist']) if e[1] == x]
                    v = N('plist%d' % p[0]) if len(p) == 1 else None
                got.append((name[0], v))
                x = rd(R, st, x, o['type', 'type'])
            def norm(l):
                return [(y[0], show(y[1]) if y[1] else None) for y in l]
            g, w = norm(got), norm(want)
            if head == '*' and len(qs) == 2:
                g[1:3], w[1:3] = sorted(g[1:3]), sorted(w[1:3])
            if g != w:
                raise No('is %s' % ' of '.join(y[0].lower() + (' %s' % y[1] if y[1] else '') for y in g))
            if consumed(st) != len(toks) - 1:
                raise No('reads the wrong tokens')
            # the name
            if id_:
                w = R.final(st, N('id'), 0)
                if head == 'ID' and w != N('tok0'):
                    raise No('its name is %s' % (show(w) if w else 'lost'))
            # the parameters of the function declared are kept, other lists are closed
            n_ = len([e for e in st.ev if e[0] == 'plist'])
            closed = [a[0] for m, a, w in ev if m == 'exitparams']
            kept = N('plist%d' % (0 if head != '()' else 1)) if first and 'FUNCTION' in sfx else None
            if kept is not None:
                if R.final(st, N('params'), 0) != kept:
                    raise No('its parameters are lost')
            elif prm and inner != 2 and R.final(st, N('params'), 0) not in (None,):
                raise No('its parameters are those of another declarator')
            if closed != [N('plist%d' % i) for i in range(n_) if N('plist%d' % i) != kept]:
                raise No('the scopes of its parameters are not closed')
            # a scope of their own
            lvl = K[lev]
            for e in st.ev:
                if e[0] == 'store' and e[1] == ('b', 'g', 'level'):
                    lvl = cval(e[4])
            opened = len([1 for m, a, w in ev if m == 'enterscope'])
            l, k = K[lev], 0
            for i in range(n_):
                l, k = l + 1, k + 1
                if l > K['PARAM']:
                    l, k = l + 1, k + 1
            if opened != k:
                raise No('opens %d scopes' % opened)
        except No as e:
            R.bad(where, str(e))


def tags(r):
    C = unit(('newstruct', 'lookup', 'fields', 'use'))
    o, K = C.o, C.c
    n = 0
    for op in ('STRUCT', 'UNION'):
        for tag in (0, 1):
            for body in (0, 1, 2):               # none, members, none between braces
                for old in (None, 'STRUCT', 'UNION', 'ENUM'):
                    for end in (';', '*', 'ID'):
                        for inner in (0, 1):
                            if body and (old or inner or end != '*') or old is None and inner or end == 'ID' and not tag:
                                continue
                            tags1(r, C, op, tag, body, old, end, inner)
                            n += 1
    r.cover['tags'] = n


def tags1(r, C, op, tag, body, old, end, inner):
    o, K = C.o, C.c
    toks = [op] + ['ID'] * tag + (['{', 'CHAR', '}'] if body == 1 else ['{', '}'] if body else []) + [end]
    T = Stream(C, toks)
    t = T.types()
    lev = K['LOCAL']
    t['old', o['symbol', 'type']] = N('oldty')
    t['old', o['symbol', 'scope']] = con(lev - 1 if inner else lev, 32)
    t['oldty', o['type', 'op']] = con(K[old or 'STRUCT'], 32)
    t['oldty', o['type', 'u.sym']] = N('old')
    t['new', o['type', 'u.sym']] = N('newsym')
    db, bit = C.flag('symbol', 'defined', True)
    t['newsym', db] = con(0, 8)
    t['tok1', 0] = con(ord('x'), 8)
    R = running(r, C, 'structdcl', [con(K[op], 32)], '%s (%s%s)' % (' '.join(toks).lower(), old, ' outside' if inner else ''),
                types=t, rule='tags', live=('old', 'oldty', 'new', 'newsym'), facts=[],
                globals_={**T.globals(), 'level': con(lev, 32), 'types': N('types')},
                returns={'gettok': T.gettok, 'lookup': lambda p, e, s, a: N('old') if old and a == [N('tok1'), N('types')] or
                         old and tuple(a) == (N('tok1'), N('types')) else Z, 'newstruct': lambda p, e, s, a: N('new'),
                         'fields': T.item(lambda p, e, s, a, i: 'done'), 'test': closing(T)})
    for ctx, ev, val, where, st in R.paths():
        try:
            err = any(e[0] == 'error' for e in ev)
            if err != (body == 2 or not tag and not body):
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            new = [a for m, a, w in ev if m == 'newstruct']
            same_ = tag and not body and old == op and not (end == ';' and inner)
            if same_:
                if val != N('oldty') or new:
                    raise No('is another type')
            elif val != N('new') or len(new) != 1 or new[0][0] != con(K[op], 32) or tag and new[0][1] != N('tok1'):
                raise No('is not a new type')
            if not tag and new and single(new[0][1]) and single(new[0][1])[0] == 's' and 'tok' in show(new[0][1]):
                raise No('has a tag')
            f = [a for m, a, w in ev if m == 'fields']
            if f != ([(N('new'),)] if body == 1 else []):
                raise No('has the wrong members')
            w = R.final(st, N('newsym'), db)
            if bool(w is not None and known(ctx, icmp('ne', and_(w, con(bit, 8)), con(0, 8)))) != bool(body):
                raise No('is %scomplete' % ('in' if body else ''))
            if body == 1:
                i = [k for k, e in enumerate(st.ev) if e[0] == 'store' and e[1] == single(N('newsym')) and e[2] == con(db, 64)]
                j = [k for k, e in enumerate(st.ev) if e[0] == 'item']
                if consumed(st) != len(toks) - 1:
                    raise No('reads the wrong tokens')
            elif not body and consumed(st) != len(toks) - 1:
                raise No('reads the wrong tokens')
        except No as e:
            R.bad(where, str(e))


class Lists:
    """lists and the vectors made of them"""

    def __init__(self):
        self.of = {Z: ()}

    def append(self, p, en, st, a):
        if a[1] not in self.of:
            raise Incomplete('an element is appended to an unknown list')
        l = self.of[a[1]] + (a[0],)
        v = N('list(%s)' % ','.join(show(x) if x[0] == 'l' else str(x) for x in l))
        self.of[v] = l
        st.ctx.assume(icmp('ne', v, Z))
        return v

    def length(self, p, en, st, a):
        if a[0] not in self.of:
            raise Incomplete('the length of an unknown list is taken')
        return con(len(self.of[a[0]]), 32)

    def ltov(self, p, en, st, a):
        b, off = en.split_addr(a[0])
        l = en.mem_load(st, b, off, 8, llir.PTR)
        en.mem_store(st, b, off, 8, Z)
        if l not in self.of:
            raise Incomplete('a vector is made of an unknown list')
        v = N('vec' + show(l))
        en.ptr_atoms.add(single(v))
        st.ctx.assume(icmp('ne', v, Z))
        for i, x in enumerate(self.of[l] + (Z,)):
            p.types[show(v), 8 * i] = x
            if single(x):
                en.ptr_atoms.add(single(x))
        return v


def params(r):
    C = unit(('dclr', 'specifier', 'dclparam', 'append', 'ltov', 'length', 'newarray', 'stringd'))
    n = 0
    for ps in [p for k in (1, 2, 3) for p in itertools.product('tn', repeat=k)] + \
            ['v', 'w', 'vt', 'tv', 'tw', 'wt', 'tvt', 'r', 'tr', 'rr', 'ntr']:
        for dots in (0, 1):
            param1(r, C, ''.join(ps), dots)
            n += 1
    for k in (0, 1, 2, 3):
        param1(r, C, 'o' * k, 0)
        n += 1
    r.cover['parameter lists'] = n


def param1(r, C, ps, dots):
    """t type, n type and name, v void, w void with a name, r register, o name only"""
    o, K = C.o, C.c
    old = ps == '' or ps[0] == 'o'
    toks = []
    for i, x in enumerate(ps):
        toks += [','] * (i > 0) + ['ID' if x == 'o' else 'REGISTER' if x == 'r' else 'CHAR']
    toks += [',', 'ELLIPSIS'] * dots + [')', ';']
    T = Stream(C, toks)
    t = T.types()
    L = Lists()
    for i, x in enumerate(ps):
        t['p%d' % i, o['symbol', 'type']] = N('A%d' % i)
        t['A%d' % i, o['type', 'op']] = con(K['INT'], 32)
    t['fty', o['type', 'u.sym']] = con(0 if old else 255, 8)
    df = C.flag('symbol', 'defined', True)[0]
    for i in range(len(ps)):
        t['p%d' % i, df] = con(255, 8)
    statics = [g for g, x in C.mod.globals.items() if not x.const and g.startswith('parameters.')]

    def specifier(p, en, st, a, i):
        if a[0] != Z:
            put(p, en, st, a[0], sym('class%d' % i, 32), 4)
        return N('base%d' % i)

    def dclr(p, en, st, a):
        i = len([e for e in st.ev if e[0] == 'dclr'])
        st.ev += (('dclr', tuple(a)),)
        if i < len(ps) and ps[i] in 'nw':
            put(p, en, st, a[1], N('id%d' % i), 8)
        return N('voidtype') if i < len(ps) and ps[i] in 'vw' else N('P%d' % i)

    def dclparam(p, en, st, a):
        i = len([e for e in st.ev if e[0] == 'param'])
        st.ev += (('param', tuple(a)),)
        j = [k for k, x in enumerate(ps) if x not in 'vw']
        q = N('p%d' % (j[i] if i < len(j) else 9))
        st.ctx.assume(icmp('ne', q, Z))
        return q

    def vec(p, en, st, a):
        st.ev += (('newarray', tuple(a)),)
        v = N('protos')
        en.ptr_atoms.add(single(v))
        st.ctx.assume(icmp('ne', v, Z))
        return v
    for init in (Z, N('voidtype')):
        if init != Z and not dots:
            continue
        g = {**T.globals()}
        for x in statics:
            g[x, o['symbol', 'type']] = init
            g[x, o['symbol', 'sclass']] = O
        R = running(r, C, 'parameters', [N('fty')], 'parameters (%s%s' % (ps, ' ...' * dots), types=t, rule='parameters',
                    live=['fty', 'voidtype', 'inttype'] + ['id%d' % i for i in range(4)] + ['P%d' % i for i in range(4)], globals_=g,
                    facts=[icmp('ne', N('P%d' % i), N('voidtype')) for i in range(4)] + [icmp('ne', N('voidtype'), Z)],
                    returns={'gettok': T.gettok, 'specifier': T.item(specifier), 'specifier.rec': T.item(specifier), 'dclr': dclr, 'dclr.rec': dclr, 'dclparam': dclparam,
                             'append': L.append, 'length': L.length, 'ltov': L.ltov, 'newarray': vec, 'expect': closing(T),
                             'stringd': lambda p, e, s, a: N('number(%s)' % show(a[0]))})
        for ctx, ev, val, where, st in R.paths():
            try:
                err = any(e[0] == 'error' for e in ev)
                voids = [i for i, x in enumerate(ps) if x in 'vw']
                bad = bool(voids) and (ps != 'v' or dots)
                if bool(err) != bool(bad):
                    raise No('is %sdiagnosed' % ('' if err else 'not '))
                if consumed(st) != len(toks) - 1:
                    raise No('reads the wrong tokens')
                if err:
                    continue
                js = [i for i, x in enumerate(ps) if x not in 'vw']
                got = [e[1] for e in st.ev if e[0] == 'param']
                if len(got) != len(js):
                    raise No('declares %d parameters' % len(got))
                for a, i in zip(got, js):
                    nm = {'n': N('id%d' % i), 'o': N('tok%d' % (2 * i))}.get(ps[i], N('number(%d)' % (i + 1)))
                    want = (O if old else sym('class%d' % i, 32), nm, N('inttype') if old else N('P%d' % i))
                    if tuple(a[:3]) != want:
                        raise No('parameter %d is %s' % (i + 1, ' '.join(show(x) for x in a[:3])))
                d = [e[1] for e in st.ev if e[0] == 'dclr']
                if not old and any(x[0] != N('base%d' % i) or x[3] == O for i, x in enumerate(d)):
                    raise No('is read otherwise')
                # what is returned
                vs, k = [], 0
                while k < 6:
                    x = rd(R, st, val, 8 * k)
                    if x == Z:
                        break
                    vs.append(x)
                    k += 1
                if vs[:len(js)] != [N('p%d' % i) for i in js] or len(vs) != len(js) + dots:
                    raise No('the parameters are %s' % ','.join(show(x) for x in vs))
                proto = rd(R, st, N('fty'), o['type', 'u.f.proto'])
                w = [e for e in st.ev if e[0] == 'store' and e[1] == single(N('fty')) and e[2] == con(o['type', 'u.sym'], 64)]
                style = w and w[-1][4]
                if not style or not known(ctx, icmp('eq', and_(style, con(1, style[1])), con(1 if old else 0, style[1]))):
                    raise No('is a declaration of the %s style' % ('new' if old else 'old'))
                if old:
                    if proto != Z:
                        raise No('has types of parameters')
                    df, bit = C.flag('symbol', 'defined', True)
                    for i in js:
                        w = R.final(st, N('p%d' % i), df)
                        if w is None or not known(ctx, icmp('eq', and_(w, con(bit, 8)), con(0, 8))):
                            raise No('a name alone defines a parameter')
                    continue
                if proto != N('protos'):
                    raise No('has no types of parameters')
                tys = [rd(R, st, proto, 8 * i) for i in range(len(js) + dots + 1)]
                if tys[-1] != Z or tys[:len(js)] != [N('A%d' % i) for i in js] or dots and tys[-2] != N('voidtype'):
                    raise No('its type is that of %s' % ','.join(show(x) for x in tys))
                a = [e[1] for e in st.ev if e[0] == 'newarray']
                if len(a) != 1 or not known(ctx, icmp('sle', con(8 * len(tys), 64), terms.mul(a[0][0], a[0][1]))) or \
                        a[0][2] != con(K['PERM'], 32):
                    raise No('there is no room for the types')
            except No as e:
                R.bad(where, str(e))


def param(r):
    """one parameter"""
    C = unit(('lookup', 'install', 'atop', 'ptr', 'expr1', 'stringf'))
    o, K = C.o, C.c
    n = 0
    lev = K['PARAM']
    base = lev
    for top, lev in [(x, base) for x in ('INT', 'POINTER', 'STRUCT', 'UNION', 'FUNCTION', 'ARRAY', 'CONST', 'VOLATILE', 'CONST+VOLATILE')] + [
            ('INT', base + 2), ('INT', base + 3)]:
        for cls in (None,) + CLASSES:
            for old in (None, lev - 1, lev):
                for end in (',', '='):
                    if (old is not None or end == '=') and (top != 'INT' or cls not in (None, 'REGISTER')):
                        continue
                    T = Stream(C, [end, '!', ','] if end == '=' else [end])
                    t = T.types()
                    typetree(C, t, 'ty', top, 'in', 4)
                    typetree(C, t, 'in', 'INT', None, 4)
                    typetree(C, t, 'adj', 'POINTER', 'in', 4)
                    t['old', o['symbol', 'scope']] = con(old or 0, 32)
                    t['pos', 0] = sym('pos0', 64)
                    for x in ('new', 'old'):
                        t[x, C.flag('symbol', 'defined', True)[0]] = con(0, 8)
                    R = running(r, C, 'dclparam', [con(K[cls] if cls else 0, 32), N('id'), N('ty'), N('pos')],
                                'a %s parameter of type %s%s%s' % ((cls or '').lower(), top.lower(), '' if end == ',' else ' initialised',
                                '' if old is None else ', declared in level %d' % old), types=t, rule='parameters',
                                live=('id', 'ty', 'in', 'adj', 'old', 'pos', 'new'),
                                globals_={**T.globals(), 'level': con(lev, 32), 'identifiers': N('ids')},
                                returns={'gettok': T.gettok, 'lookup': lambda p, e, s, a: N('old') if old is not None else Z,
                                         'install': lambda p, e, s, a: N('new'), 'ptr': lambda p, e, s, a: N('adj'),
                                         'atop': lambda p, e, s, a: N('adj'), 'expr1': T.item(lambda p, e, s, a, i: N('e'))})
                    n += 1
                    for ctx, ev, val, where, st in R.paths():
                        try:
                            err = any(e[0] == 'error' for e in ev)
                            bad = cls not in (None, 'AUTO', 'REGISTER') or cls == 'AUTO' or old == lev or end == '='
                            if err != bad:
                                raise No('is %sdiagnosed' % ('' if err else 'not '))
                            if consumed(st) != len(T.toks) - 1:
                                raise No('reads the wrong tokens')
                            a = [(m, a) for m, a, w in ev if m in ('ptr', 'atop')]
                            if top in ('FUNCTION', 'ARRAY'):
                                if a != [('ptr' if top == 'FUNCTION' else 'atop', (N('ty'),))]:
                                    raise No('is no pointer')
                            elif a:
                                raise No('is another type')
                            i = [a for m, a, w in ev if m == 'install']
                            if old != lev:
                                if val != N('new') or len(i) != 1 or i[0][0] != N('id') or i[0][2] != con(lev, 32) or \
                                        single(i[0][1]) != ('b', 'g', 'identifiers') or i[0][3] != con(K['FUNC'], 32):
                                    raise No('is entered otherwise')
                            if rd(R, st, val, o['symbol', 'type']) != N('adj' if top in ('FUNCTION', 'ARRAY') else 'ty'):
                                raise No('has another type')
                            vol = 'VOLATILE' in top or top in ('STRUCT', 'UNION')
                            c = rd(R, st, val, o['symbol', 'sclass'], 32)
                            if c != con(K['REGISTER' if cls == 'REGISTER' and not vol else 'AUTO'], 32):
                                raise No('its storage class is %s' % show(c))
                            df, bit = C.flag('symbol', 'defined', True)
                            w = R.final(st, val, df)
                            if w is None or not known(ctx, icmp('ne', and_(w, con(bit, 8)), con(0, 8))):
                                raise No('is not defined')
                        except No as e:
                            R.bad(where, str(e))
    # the scopes of a parameter list that declares no function end
    C = unit(('exitscope',))
    lev = base
    for lv in (lev, lev + 1, lev + 3):
        for first in (None, 0, 1):
            t = {('ps', 0): Z if first is None else N('p0')}
            df, bit = C.flag('symbol', 'defined', True)
            t['p0', df] = con(bit if first else 0, 8)
            R = running(r, C, 'exitparams', [N('ps')], 'the end of a parameter list', types=t, live=('p0', 'ps'), rule='parameters',
                        globals_={'level': con(lv, 32)})
            n += 1
            for ctx, ev, val, where, st in R.paths():
                err = any(e[0] == 'error' for e in ev)
                if err != (first == 0):
                    R.bad(where, 'is %sdiagnosed' % ('' if err else 'not '))
                if len([1 for e in ev if e[0] == 'exitscope']) != (1 if lv == lev else 2):
                    R.bad(where, 'does not end its scopes')
    r.cover['parameters'] = n


def newtags(r):
    """newstruct(): one type per tag and scope"""
    C = dunit('types.c', ('type', 'install', 'lookup', 'stringd', 'genlabel'))
    o, K = C.o, C.c
    lev = K['LOCAL']
    df, bit = C.flag('symbol', 'defined', True)
    n = 0
    for tag in (0, 1):
        for old in (None,) + tuple((op, d, s) for op in ('STRUCT', 'UNION') for d in (0, 1) for s in (lev - 1, lev, lev - 2)):
            if old and not tag:
                continue
            for lv in (lev, lev + 1):
                t = {('tag', 0): con(ord('x') if tag else 0, 8)}
                if old:
                    t['old', o['symbol', 'type']] = N('oldty')
                    t['old', o['symbol', 'scope']] = con(old[2], 32)
                    t['old', df] = con(bit * old[1], 8)
                    t['oldty', o['type', 'op']] = con(K[old[0]], 32)
                R = running(r, C, 'newstruct', [con(K['STRUCT'], 32), N('tag')], 'a type%s, %s known in level %s' % (
                    ' with a tag' if tag else '', old, lv), types=t, live=('tag', 'old', 'oldty', 'new', 'newty', 'number'),
                    rule='tags', globals_={'level': con(lv, 32), 'types': N('types')},
                    returns={'lookup': lambda p, e, s, a: N('old') if old else Z, 'install': lambda p, e, s, a: N('new'),
                             'type': lambda p, e, s, a: N('newty'), 'stringd': lambda p, e, s, a: N('number'),
                             'genlabel': lambda p, e, s, a: sym('lab', 32)})
                n += 1
                for ctx, ev, val, where, st in R.paths():
                    try:
                        err = any(e[0] == 'error' for e in ev)
                        # the parameters of a function and its outermost block are one scope
                        here = old and (old[2] == lv or old[2] == K['PARAM'] and lv == K['PARAM'] + 1)
                        same_ = here and old[0] == 'STRUCT' and not old[1]
                        if err != bool(here and not same_):
                            raise No('is %sdiagnosed' % ('' if err else 'not '))
                        if same_:
                            if val != N('oldty'):
                                raise No('is another type')
                            continue
                        i = [a for m, a, w in ev if m == 'install']
                        if val != N('newty') or len(i) != 1 or single(i[0][1]) != ('b', 'g', 'types') or \
                                i[0][2] != con(lv, 32) or i[0][0] != N('tag' if tag else 'number') or \
                                i[0][3] != con(K['PERM'], 32):
                            raise No('is entered otherwise')
                        y = [a for m, a, w in ev if m == 'type']
                        if len(y) != 1 or y[0][0] != con(K['STRUCT'], 32) or y[0][1] != Z or y[0][2] != O or \
                                y[0][4] != N('new') or rd(R, st, N('new'), o['symbol', 'type']) != N('newty'):
                            raise No('is made otherwise')
                        g = [x for x, y in C.mod.globals.items() if x == 'maxlevel']
                    except No as e:
                        R.bad(where, str(e))
    r.cover['new tags'] = n


def put(p, en, st, q, v, w):
    b, off = en.split_addr(q)
    en.mem_store(st, b, off, w, v)
    st.ev += (('store', b, off, w, v, ''),)


def both(d):
    """under the name of a recursive call, too"""
    return {**d, **{k + '.rec': v for k, v in d.items()}}


def decls(r):
    """declarations and type names"""
    C = unit(('specifier', 'dclr', 'funcdefn', 'exitparams', 'exitscope', 'install', 'lookup'))
    o, K = C.o, C.c
    n = 0
    for lev in ('GLOBAL', 'PARAM', 'LOCAL', 'INNER'):
        for cls in (None, 'STATIC', 'EXTERN', 'TYPEDEF', 'REGISTER'):
            for k in (1, 2, 3):
                for noname in (None, k - 1):
                    for old in (None, 0, 1) if cls == 'TYPEDEF' else (None,):
                        for first in ('ID', '*', '(') if noname is None else ('ID',):
                            decl1(r, C, lev, cls, k, noname, old, first)
                            n += 1
    # a list of parameters
    for cls in (None, 'STATIC', 'TYPEDEF'):
        for end in ('{', 'CHAR', 'STATIC', 'REGISTER', 'AUTO', 'EXTERN', 'TYPEDEF', ';', ',', '='):
            for top in ('FUNCTION', 'POINTER'):
                for style in (0, 1):
                    for named in (0, 1):
                        definition(r, C, cls, end, top, style, named)
                        n += 1
    # no declarator
    for top in ('INT', 'STRUCT', 'UNION', 'ENUM', 'CONST'):
        for num in (0, 1):
            T = Stream(C, ['CHAR', ';', 'CHAR'])
            t = T.types()
            typetree(C, t, 'base', top, 'in', 4)
            typetree(C, t, 'in', 'STRUCT', None, 4)
            for x in ('base', 'in'):
                t[x, o['type', 'u.sym']] = N('tag')
            t['tag', o['symbol', 'name']] = N('str')
            t['str', 0] = con(ord('1' if num else 's'), 8)
            R = running(r, C, 'decl', [N('dcl')], 'a declaration of no name of type %s%s' % (top.lower(), ' without a tag' * num),
                        types=t, rule='declarations', live=('base', 'in', 'dcl', 'tag', 'str'), globals_={**T.globals(), 'level': con(K['LOCAL'], 32)},
                        returns=both({'gettok': T.gettok, 'specifier': T.item(lambda p, e, s, a, i: N('base')), 'test': closing(T)}))
            n += 1
            for ctx, ev, val, where, st in R.paths():
                bad = top == 'INT' or num and top != 'ENUM'
                if any(e[0] == 'error' for e in ev) != bool(bad):
                    R.bad(where, 'is %sdiagnosed' % ('not ' if bad else ''))
                if any(m in ('dcl', 'install') for m, a, w in ev):
                    R.bad(where, 'declares something')
    r.cover['declarations'] = n
    # type names
    for end in ('*', '(', '[', ')', ','):
        T = Stream(C, ['CHAR'] + ([end, ')'] if end in '*([' else [end]))
        R = running(r, C, 'typename', [], 'a type name in front of %s' % end, types=T.types(), rule='declarations', globals_=T.globals(),
                    returns=both({'gettok': T.gettok, 'specifier': T.item(lambda p, e, s, a, i: N('base')),
                                  'dclr': T.item(lambda p, e, s, a, i: N('made'))}))
        for ctx, ev, val, where, st in R.paths():
            d = [a for m, a, w in ev if m in ('dclr', 'dclr.rec')]
            sp = [a for m, a, w in ev if m in ('specifier', 'specifier.rec')]
            if sp != [(Z,)] or d != ([(N('base'), Z, Z, con(1, 32))] if end in '*([' else []) or \
                    val != N('made' if end in '*([' else 'base'):
                R.bad(where, 'is %s' % show(val))
    oldparams(r)


def classed(T, cls, K):
    def f(p, en, st, a, i):
        put(p, en, st, a[0], con(K[cls] if cls else 0, 32), 4)
        return N('base')
    return T.item(f)


def decl1(r, C, lev, cls, k, noname, old, first):
    o, K = C.o, C.c
    at = K['LOCAL'] + 1 if lev == 'INNER' else K[lev]
    T = Stream(C, ['CHAR'] + [first, ','] * (k - 1) + [first, ';', 'CHAR'])
    t = T.types()
    for i in range(k):
        typetree(C, t, 'ty%d' % i, 'CONST', 'int%d' % i, 4)
        typetree(C, t, 'int%d' % i, 'INT', None, 4)
    t['old', o['symbol', 'scope']] = con(at - (not old), 32)

    def dclr(p, en, st, a, i):
        i -= 1
        if i != noname:
            put(p, en, st, a[1], N('id%d' % i), 8)
        return N('ty%d' % i)
    R = running(r, C, 'decl', [N('dcl')], '%s%d declarators%s%s' % ((cls or '').lower() + ' ' if cls else '', k, ' (%s)' % lev.lower(),
                '' if noname is None else ', the last without a name') + ('' if old is None else ', known'), types=t, rule='declarations',
                live=['dcl', 'old'] + ['ty%d' % i for i in range(k)] + ['int%d' % i for i in range(k)] + ['id%d' % i for i in range(3)] + ['new%d' % i for i in range(3)],
                globals_={**T.globals(), 'level': con(at, 32), 'identifiers': N('ids')},
                returns=both({'gettok': T.gettok, 'specifier': classed(T, cls, K), 'dclr': T.item(dclr), 'test': closing(T),
                              'lookup': lambda p, e, s, a: N('old') if old is not None else Z, 'dcl': lambda p, e, s, a: N('declared'),
                              'install': lambda p, e, s, a: N('new%s' % show(a[0])[-1])}))
    for ctx, ev, val, where, st in R.paths():
        try:
            err = any(e[0] == 'error' for e in ev)
            bad = noname is not None or old == 1
            if err != bad:
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            if consumed(st) != len(T.toks) - 1:
                raise No('reads the wrong tokens')
            d = [a for m, a, w in ev if m in ('dclr', 'dclr.rec')]
            if len(d) != k or any(a[0] != N('base') or a[3] != O or a[1] == Z or i and a[2] != Z for i, a in enumerate(d)):
                raise No('its declarators are read otherwise')
            ids = [i for i in range(k) if i != noname]
            got = [a for m, a, w in ev if m == ('install' if cls == 'TYPEDEF' else 'dcl')]
            other = [a for m, a, w in ev if m == ('dcl' if cls == 'TYPEDEF' else 'install')]
            if len(got) != len(ids) or other:
                raise No('declares %d names' % len(got))
            for i, a in zip(ids, got):
                if cls != 'TYPEDEF':
                    if tuple(a[:3]) != (con(K[cls] if cls else 0, 32), N('id%d' % i), N('ty%d' % i)):
                        raise No('name %d is %s' % (i + 1, ' '.join(show(x) for x in a[:3])))
                    continue
                if a[0] != N('id%d' % i) or single(a[1]) != ('b', 'g', 'identifiers') or a[2] != con(at, 32) or \
                        a[3] != con(K['FUNC' if lev in ('LOCAL', 'INNER') else 'PERM'], 32):
                    raise No('name %d is entered otherwise' % (i + 1))
                v = N('new%d' % i)
                if rd(R, st, v, o['symbol', 'type']) != N('ty%d' % i) or \
                        rd(R, st, v, o['symbol', 'sclass'], 32) != con(K['TYPEDEF'], 32):
                    raise No('name %d is no name of the type' % (i + 1))
        except No as e:
            R.bad(where, str(e))


def definition(r, C, cls, end, top, style, named):
    """a declarator with parameters in file scope"""
    o, K = C.o, C.c
    T = Stream(C, ['CHAR', 'ID', end, 'ID', ';', 'CHAR'])
    t = T.types()
    typetree(C, t, 'ty', top, 'in', 4)
    typetree(C, t, 'in', 'INT', None, 4)
    t['ty', o['type', 'u.sym']] = con(style, 8)
    t['ty1', o['type', 'op']] = con(K['INT'], 32)

    def dclr(p, en, st, a, i):
        if i != 1:
            put(p, en, st, a[1], N('id1'), 8)
            return N('ty1')
        if named:
            put(p, en, st, a[1], N('id'), 8)
        if a[2] != Z:
            put(p, en, st, a[2], N('params'), 8)
        return N('ty')
    R = running(r, C, 'decl', [N('dcl')], 'a declarator of type %s with parameters%s in front of %s%s%s' % (
                top.lower(), ' (old style)' * style, end.lower(), ', ' + cls.lower() if cls else '', '' if named else ', no name'), types=t,
                rule='declarations', live=('dcl', 'id', 'id1', 'params', 'ty', 'ty1', 'in', 'new'),
                globals_={**T.globals(), 'level': con(K['GLOBAL'], 32), 'identifiers': N('ids')},
                returns=both({'gettok': T.gettok, 'specifier': classed(T, cls, K), 'dclr': T.item(dclr), 'test': closing(T),
                              'lookup': lambda p, e, s, a: Z, 'dcl': lambda p, e, s, a: N('declared'),
                              'install': lambda p, e, s, a: N('new')}))
    fn = named and top == 'FUNCTION' and end in ('{', 'CHAR', 'STATIC', 'REGISTER', 'AUTO', 'EXTERN')
    for ctx, ev, val, where, st in R.paths():
        try:
            err = any(e[0] == 'error' for e in ev)
            if err != (not named or bool(fn) and cls == 'TYPEDEF'):
                raise No('is %sdiagnosed' % ('' if err else 'not '))
            f = [a for m, a, w in ev if m in ('funcdefn', 'funcdefn.rec')]
            if len(f) != bool(fn):
                raise No('is %sa definition' % ('' if f else 'not '))
            out = [a for m, a, w in ev if m == 'exitscope']
            ex = [a[0] for m, a, w in ev if m == 'exitparams']
            if fn:
                c = con(K['EXTERN' if cls == 'TYPEDEF' else cls] if cls else 0, 32)
                if tuple(f[0][:4]) != (c, N('id'), N('ty'), N('params')):
                    raise No('defines %s' % ' '.join(show(x) for x in f[0][:4]))
                if len(out) != style or ex:
                    raise No('leaves %d scopes' % len(out))
                if any(m in ('dcl', 'install') for m, a, w in ev):
                    raise No('is declared as well')
            elif ex != [N('params')] or out:
                raise No('does not end the scopes of the parameters')
            elif named and not any(m == ('install' if cls == 'TYPEDEF' else 'dcl') for m, a, w in ev):
                raise No('is not declared')
        except No as e:
            R.bad(where, str(e))


def oldparams(r):
    """declarations of old-style parameters"""
    C = unit(())
    o, K = C.o, C.c
    for k in (0, 1, 2, 3):
        for at in [None] + list(range(k)):
            t = {}
            for i in range(k + 1):
                t['list', 8 * i] = N('c%d' % i) if i < k else Z
                t['c%d' % i, o['symbol', 'name']] = N('n%d' % i)
            t['p', o['symbol', 'name']] = N('n%d' % at) if at is not None else N('other')
            names = ['n%d' % i for i in range(k)] + ['other']
            R = running(r, C, 'oldparam', [N('p'), N('list')], 'a declaration of parameter %s of %d' % (at, k), types=t,
                        rule='declarations', live=['p', 'list'] + ['c%d' % i for i in range(3)],
                        facts=[icmp('ne', N(x), N(y)) for x, y in itertools.combinations(names, 2)])
            for ctx, ev, val, where, st in R.paths():
                if any(e[0] == 'error' for e in ev) != (at is None):
                    R.bad(where, 'is not diagnosed' if at is None else 'is diagnosed')
                for i in range(k):
                    if rd(R, st, N('list'), 8 * i) != N('p' if i == at else 'c%d' % i):
                        R.bad(where, 'changes parameter %d' % (i + 1))


def blocks(r):
    """the variables of a block"""
    for f in ('u.block.level', 'u.block.identifiers', 'u.block.types'):
        if f not in lccdag.OFF['code']:
            lccdag.OFF['code'] = lccdag.OFF['code'] + (f,)
    C = unit(('decl', 'statement', 'code', 'walk', 'apply', 'append', 'length', 'ltov', 'expect', 'reachable', 'definept', 'getchr', 'foreach'))
    o, K = C.o, C.c
    n = 0
    for g in ('autos', 'registers'):
        if g not in C.mod.globals:
            raise Anchor('variable %s of decl.c' % g)
    vs = [''.join(x) for k in (0, 1, 2, 3) for x in itertools.product('ar', repeat=k)] + ['aaaa', 'raaa']
    for lev in ('LOCAL', 'inner'):
        for vars_ in vs:
            for stmts in (('ID',), ('TYPE', 'IF')) if len(vars_) < 2 else ((),):
                block(r, C, lev, vars_, stmts)
                n += 1
    r.cover['blocks'] = n


def block(r, C, lev, vars_, stmts):
    o, K = C.o, C.c
    level = K['LOCAL'] + (lev == 'inner')
    toks = ['{'] + [('CHAR', 'STATIC', 'TYPE')[i % 3] for i in range(len(vars_))] + list(stmts) + ['}', ';']
    T = Stream(C, toks)
    t = T.types()
    L = Lists()
    t['rty', o['type', 'op']] = con(K['VOID'], 32)
    t['cfunc', o['symbol', 'type']] = N('fty')
    t['fty', o['type', 'type']] = N('rty')
    t['fty', o['type', 'op']] = con(K['FUNCTION'], 32)
    for i in range(4):
        t['v%d' % i, o['symbol', 'ref']] = sym('ref%d' % i, 32)

    def decl(p, en, st, a, i):
        if i >= len(vars_):
            return 'done'
        g = {'a': 'autos', 'r': 'registers'}[vars_[i]]
        l = en.mem_load(st, ('b', 'g', g), Z, 8, llir.PTR)
        w = [e for e in st.ev if e[0] == 'store' and e[1] == ('b', 'g', g)]
        l = w[-1][4] if w else Z
        v = L.append(p, en, st, (N('v%d' % i), l))
        en.mem_store(st, ('b', 'g', g), Z, 8, v)
        st.ev += (('store', ('b', 'g', g), Z, 8, v, ''),)
        return 'done'

    def code(p, en, st, a):
        return N('begin') if a[0] == con(K['Blockbeg'], 32) else N('end')

    def scope(p, en, st, a):
        en.mem_store(st, ('b', 'g', 'level'), Z, 4, con(level, 32))
        st.ev += (('store', ('b', 'g', 'level'), Z, 4, con(level, 32), ''),)
        return 'done'

    def getchr(p, en, st, a):
        i = T.at(st)
        return con(ord(':' if i > len(vars_) else ' '), 32)
    g = {**T.globals(), 'level': con(level - 1, 32), 'identifiers': N('ids'), 'types': N('tags'), 'cfunc': N('cfunc'), 'IR': N('IR'), 'autos': Z, 'registers': Z}
    for i in range(0, 128, 8):
        g['events', i] = Z
    R = running(r, C, 'compound', [con(0, 32), Z, con(0, 32)], 'a block at %s with variables %s and %s' % (lev.lower(), vars_ or '-', ' '.join(stmts) or 'no statements'),
                types=t, rule='blocks', live=['begin', 'end', 'ids', 'tags', 'cfunc', 'IR', 'fty', 'rty'] + ['v%d' % i for i in range(4)], globals_=g,
                returns=both({'gettok': T.gettok, 'decl': T.item(decl), 'statement': T.item(lambda p, e, s, a, i: 'done'), 'code': code,
                              'enterscope': scope, 'exitscope': lambda p, e, s, a: 'done', 'append': L.append, 'length': L.length, 'ltov': L.ltov,
                              'expect': closing(T), 'getchr': getchr, 'walk': lambda p, e, s, a: 'done',
                              'definept': lambda p, e, s, a: 'done', 'foreach': lambda p, e, s, a: 'done'}))
    for ctx, ev, val, where, st in R.paths():
        try:
            if any(e[0] == 'error' for e in ev):
                raise No('is diagnosed')
            seq = [m.split('.')[0] for m, a, w in ev if m.split('.')[0] in ('decl', 'statement')]
            if seq != ['decl'] * len(vars_) + ['statement'] * len(stmts):
                raise No('reads %s' % ' '.join(seq))
            if consumed(st) != len(toks) - (1 if lev == 'inner' else 2):
                raise No('reads the wrong tokens')
            b = N('begin')
            l = rd(R, st, b, o['code', 'u.block.locals'])
            got = [rd(R, st, l, 8 * i) for i in range(len(vars_) + 1)]
            if got[-1] != Z:
                raise No('its list of variables does not end')
            if sorted(got[:-1]) != sorted(N('v%d' % i) for i in range(len(vars_))):
                raise No('its variables are %s' % ' '.join(show(x) for x in got[:-1]))
            if rd(R, st, b, o['code', 'u.block.level'], 32) != con(level, 32) or rd(R, st, b, o['code', 'u.block.identifiers']) != N('ids') or \
                    rd(R, st, b, o['code', 'u.block.types']) != N('tags'):
                raise No('its scope is not noted')
            kinds = [a[0] for m, a, w in ev if m == 'code']
            if kinds != [con(K['Blockbeg'], 32), con(K['Blockend'], 32)] or rd(R, st, N('end'), o['code', 'u.begin']) != b:
                raise No('its ends do not match')
            order = [m.split('.')[0] for m, a, w in ev if m.split('.')[0] in ('code', 'enterscope', 'exitscope', 'decl', 'statement', 'walk')]
            # what was pending is emitted in front of the block, what its statements left in it
            i, j = [x for x, m in enumerate(order) if m == 'code']
            if 'walk' not in order[:i] or 'walk' not in order[max([x for x, m in enumerate(order) if m in ('statement', 'decl')] + [i]):j]:
                raise No('expressions are emitted on the other side of its ends')
            if order.count('enterscope') != 1 or order.index('enterscope') > min([x for x, m in enumerate(order) if m == 'decl'] + [99]) or \
                    order.count('exitscope') != (lev == 'inner'):
                raise No('its scope is not its own')
            if [a for m, a, w in ev if m == 'foreach' and a[1] == con(level, 32)] == []:
                raise No('its names are not checked')
        except No as e:
            R.bad(where, str(e))


def C41(tier):
    r = Result()
    specifiers(r)
    enums(r)
    stale(r)
    declarators(r)
    tags(r)
    newtags(r)
    params(r)
    param(r)
    decls(r)
    blocks(r)
    r.rule = RULE
    return r


RULE = ('specifiers mean the type their set stands for in C, declarators nest in C order, parameters, enumerators and tags are '
        'entered with the names, types and scopes written; what C does not allow is diagnosed')
