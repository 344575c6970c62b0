"""The checks of q3asm, one function per property."""
from report import Result
from asmsem import *
import lccops
import llir
import qvm

_cache = {}
TRUST = ('clang -O0 and the mem2reg/inline passes of opt preserve the meaning of the source; '
         'distinct allocations do not overlap; the C library does what the standard says; x86-64')
CODE, DATA, LIT, BSS, JTRG = range(5)
CURRENT = (CODE, DATA, LIT, BSS)


def memo(key, fn):
    if key not in _cache:
        try:
            _cache[key] = ('ok', fn())
        except Incomplete as e:
            _cache[key] = ('inc', e)
    k, v = _cache[key]
    if k == 'inc':
        raise v
    return v


def asm():
    return memo('asm', Asm)


def run(tok, seg):
    """exits of AssembleLine for a line that starts with tok (None: with a token that is no
    mnemonic of the table), in segment seg"""
    A = asm()
    return memo(('line', tok, seg), lambda: line(A, tok if tok is None else
                                                 tok.encode('latin-1'), seg)[0])


def tokens():
    return [n.decode('latin-1') for n, o in asm().rows] + [None]


def tname(tok, seg):
    return '%s in segment %s' % ('any other token' if tok is None else repr(tok), SEGNAMES[seg])


def every(toks=None, segs=CURRENT):
    for t in (tokens() if toks is None else toks):
        for s in segs:
            yield t, s, run(t, s)


class Entry:
    """values before the line"""

    def __init__(self):
        A = asm()
        self.st = State()
        self.eng = TypedEngine(A.mod, LinePolicy(A), A.di)
        self.A = A

    def cell(self, name, off=0, size=4):
        return self.eng.mem_load(self.st, ('b', 'g', name), con(off, 64), size,
                                 ('int', 8 * size))

    def used(self, k):
        return self.cell('segment', k * self.A.seg['size'] + self.A.seg['F']['imageUsed'][0])


def entry():
    return memo('entry', Entry)


def where(x):
    """a place to report for this path"""
    for e in x.ev:
        if e[0] == 'emit':
            return e[5]
        if e[0] in ('call', 'heap', 'loop'):
            return e[-1]
    return 'q3asm/q3asm.c:0 (AssembleLine)'


def code_bytes(x, k, start):
    """the bytes the line appends to segment k, in order; None if they are not contiguous"""
    out = []
    at = {}
    for e in x.emitted(k):
        if e[0] == 'loop' or e[3] is None or e[4] is None:
            return None
        for j in range(e[3]):
            v = e[4]
            if e[3] > 1:
                v = trunc(lshr(v, con(8 * j, v[1])), 8)
            at[addc(e[2], j)] = v
    n = len(at)
    for j in range(n):
        t = addc(start, j)
        v = None
        for i in range(j + 1):
            for e in (sext, zext):
                c = addc(e(addc(start, i), 64), j - i)
                if c in at:
                    v = at[c]
                    break
        if v is None:
            return None
        out.append(v)
    return out


def le_bytes(v):
    return [trunc(lshr(v, con(8 * j, 32)), 8) for j in range(4)]


def origin(x, t):
    """what an opaque result is: (function, arguments, memory it read)"""
    t = t if t[0] == 'l' else None
    a = single(t) if t else None
    while a is not None and a[0] == 'x' and a[1] in ('trunc', 'sext', 'zext'):
        a = single(a[3]) if a[3][0] == 'l' else None
    if a is None or a[0] != 's':
        return None
    return x.asm.info.get(a[1])


def is_expression(x, t, tok='tok2'):
    """is t the value of the expression in this token?"""
    o = origin(x, t)
    return o is not None and o[0] in x.asm.eff.mods and ('token', tok) in o[2] and t[1] == 32


WIDE = {'atoll', 'strtoll', 'atol', 'strtol', 'strtoul', 'strtoull'}


def is_number(x, t, n):
    """is t the decimal number in token n, modulo 2**32?"""
    o = origin(x, t)
    return o is not None and o[0] in WIDE and o[1][0] == ('tok', str(n), 0) and t[1] == 32 and \
        (len(o[1]) < 3 or o[1][2] in (con(10, 32),))


def operand_of(bs):
    """32 bit term whose little endian bytes these are, or None"""
    if bs is None or len(bs) != 4:
        return None
    cands = set()
    for b in bs[1:]:
        a = single(b)
        if a and a[0] == 'x' and a[1] == 'trunc':
            i = a[3]
            z = single(i)
            if z and z[0] == 'x' and z[1] == 'lshr':
                cands.add(z[3])
    if all(is_con(b) for b in bs):
        return con(sum(cval(b) << 8 * j for j, b in enumerate(bs)), 32)
    for v in cands:
        if v[1] == 32 and le_bytes(v) == bs:
            return v
        if v[1] == 64 and le_bytes(trunc(v, 32)) == bs:
            return trunc(v, 32)
    return None


def count(x):
    """how many instructions the line adds to the counter, or None"""
    d = sub(x.cell('instructionCount'), entry().cell('instructionCount'))
    return scval(d) if is_con(d) else None


def byte_at(x, tok, k=0):
    """byte k of token number `tok` (tokN) as a term of that path"""
    return atom(('ld', base('g', 'token')[3][0][0], con(k, 64), 8, 'tok%d' % tok))


def opname(t):
    return qvm.NAMES[cval(t)] if is_con(t) and cval(t) < qvm.COUNT else None


def unchanged_layout(x, but=()):
    """findings about segments and the counter a line must not touch"""
    out = []
    for k in range(5):
        if k not in but and (x.emitted(k) or x.used(k) != entry().used(k)):
            out.append('changes the %s segment' % SEGNAMES[k])
    if count(x) != 0:
        out.append('counts an instruction')
    return out


# --- C20: every mnemonic becomes the instruction it names

def C20(tier):
    r = Result()
    A = asm()
    r.rule = ('For every mnemonic of the operator table and each segment a line can stand in, all '
              'paths of AssembleLine are explored (symbol and number parsing kept as '
              'uninterpreted results, helpers inlined). The bytes written to the code segment must '
              'be the opcode the mnemonic names, followed by the little endian value of the '
              'operand expression when the instruction has one; conversions without effect write '
              'nothing; an unsupported mnemonic, or a missing or surplus operand, is reported. '
              'The opcode numbers are those of the virtual machine. Trusted: ' + TRUST)
    for n, v in sorted(qvm.NUM.items()):
        r.obligations += 1
        e = A.enums.get('OP_' + n)
        if e is not None and e != v:
            r.add([Finding('opcode-number', 'q3asm/q3asm.c:0 (opcode_t)',
                           'OP_%s is %s, the virtual machine decodes it as %d' % (n, e, v))])
    table = {n.decode('latin-1'): o for n, o in A.rows}
    if len(table) != len(A.rows):
        names = [n for n, o in A.rows]
        for n in sorted({n for n in names if names.count(n) > 1}):
            r.add([Finding('duplicate-mnemonic', 'q3asm/opstrings.h:0 (sourceOps)',
                           '%s has more than one row' % n.decode())])
    for m in sorted(lccops.SPEC):
        if m not in table:
            r.add([Finding('missing-mnemonic', 'q3asm/opstrings.h:0 (sourceOps)',
                           '%s has no row in the operator table' % m)])
    for m in sorted(lccops.SPEC):
        if m not in table:
            continue
        for seg in CURRENT:
            c20_line(r, m, seg, lccops.SPEC[m])
    for m in sorted(set(table) - set(lccops.SPEC)):
        # rows lcc does not need: they must be reported or be a synonym by name
        for seg in CURRENT:
            xs = run(m, seg)
            r.obligations += 1
            for x in xs:
                if not x.err and x.ev:
                    bs = code_bytes(x, CODE, entry().used(CODE))
                    op = opname(bs[0]) if bs else None
                    if op is None or not m.startswith(op.rstrip('IUF')):
                        r.add([Finding('opcode', where(x), '%s assembles to %s' % (m, op))],
                              tname(m, seg))
    r.samples = ['%s -> %s' % (m, s) for m, s in sorted(lccops.SPEC.items())][:12]
    r.count('mnemonics', len(table))
    return r


def c20_line(r, m, seg, spec):
    xs = run(m, seg)
    good = [x for x in xs if not x.err]
    ctx = tname(m, seg)
    r.count('paths', len(xs))
    r.obligations += 1
    bad = lambda rule, x, text: r.add([Finding(rule, where(x) if x else
                                               'q3asm/q3asm.c:0 (AssembleLine)', text)], ctx)
    if not good:
        return bad('rejected', xs[0] if xs else None, 'every line with %s is rejected' % m)
    empty = lambda n: icmp('eq', byte_at(xs[0], n), con(0, 8))
    if spec[0] == 'ignore':
        for x in xs:
            r.obligations += 1
            if x.err:
                bad('rejected', x, 'a line with %s is rejected' % m)
            for t in unchanged_layout(x):
                bad('not-ignored', x, '%s %s' % (m, t))
        return
    want = {}
    if spec[0] == 'sex':
        sizes = [0, 0]
        for x in xs:
            r.obligations += 1
            c = x.st.ctx
            one, two = (all(q.entails(icmp('eq', byte_at(x, 2), con(ord(z), 8)))
                            for q in x.st.by_cases()) for z in '12')
            if x.err:
                ok = (c.entails(icmp('ne', byte_at(x, 2), con(ord('1'), 8))) and
                      c.entails(icmp('ne', byte_at(x, 2), con(ord('2'), 8)))) or \
                    c.entails(neg(empty(3)))
                if not ok:
                    bad('rejected', x, 'a valid sign extension is rejected')
                continue
            w = 'SEX8' if one else 'SEX16' if two else None
            if w is None:
                bad('sign-extension', x, 'assembled without a size of 1 or 2')
                continue
            sizes[w == 'SEX16'] += 1
            check_bytes(x, [w], None, bad, m)
        if not all(sizes):
            bad('rejected', None, 'CVII4 does not support both sizes')
        return
    op, operand = spec[1], spec[2]
    for x in xs:
        r.obligations += 1
        c = x.st.ctx
        if x.err:
            # only for a line whose operand does not fit
            e = empty(2)
            if operand == 'size':
                ok = False
            elif operand is None:
                ok = c.entails(neg(e))
            else:
                ok = c.entails(e)
            if not ok:
                bad('rejected', x, 'a valid line with %s is rejected' % m)
            continue
        check_bytes(x, [op], operand, bad, m)


def check_bytes(x, ops, operand, bad, m):
    bs = code_bytes(x, CODE, entry().used(CODE))
    if bs is None:
        return bad('bytes', x, 'the bytes of %s are not appended to the code segment in order' % m)
    if not bs or not is_con(bs[0]) or opname(bs[0]) != ops[0]:
        return bad('opcode', x, '%s must assemble to OP_%s, not %s' % (
            m, ops[0], 'nothing' if not bs else opname(bs[0]) or show(bs[0])))
    if operand in (None, 'size'):
        if len(bs) != 1:
            bad('operand', x, '%s is followed by %d operand bytes' % (m, len(bs) - 1))
        return
    v = operand_of(bs[1:])
    if v is None:
        # the value itself may be a computation: try the results of this path
        v = guess(x, bs[1:])
    if operand == 'expr':
        if v is None or not is_expression(x, v):
            bad('operand', x, 'the operand of %s is not the little endian value of its expression'
                % m)
    elif operand == 'words':
        ok = v is not None and any(
            v == and_(addc(e, 3), con(-4, 32)) for e in results(x))
        if not ok:
            bad('operand', x, 'the size of the block copy is not its operand rounded up to words')


def results(x):
    """expression values of this path"""
    out = []
    for n, k in x.asm.info.items():
        if k[0] in x.asm.eff.mods and ('token', 'tok2') in k[2]:
            out.append(sym(n, 32))
    return out


def guess(x, bs):
    for e in results(x):
        for v in (e, and_(addc(e, 3), con(-4, 32))):
            if le_bytes(v) == bs:
                return v
    return None


# --- C19: directives, and lines that are no instruction

def C19(tier):
    r = Result()
    A = asm()
    r.rule = ('All paths of AssembleLine for every directive that is no instruction and for a '
              'first token that is no mnemonic: a line is accepted without an error only where it '
              'is empty or its token was compared equal to one of the keywords lcc emits; '
              'export, import, line and file change nothing; code, data, lit and bss select that '
              'segment and nothing else; align moves to the next multiple of the power of two it '
              'names. Trusted: ' + TRUST)
    e = entry()
    old = e.cell('currentSegment', 0, 8)
    for seg in CURRENT:
        for x in run(None, seg):
            r.count('paths', 1)
            r.obligations += 1
            if not x.err and not known_token(x):
                r.add([Finding('accepted', where(x), 'a line with an unknown first token is '
                               'accepted without an error')], tname(None, seg))
        for d in lccops.EXACT + [p + 'V' for p in lccops.STARTS]:
            r.obligations += 1
            if all(x.err for x in run(d, seg)) and not (
                    seg == CODE and d in ('skip', 'align', 'byte', 'address')):
                r.add([Finding('rejected', 'q3asm/q3asm.c:0 (AssembleLine)',
                               'every %s line is rejected' % d)], tname(d, seg))
        for d in ('export', 'import', 'line', 'file', 'code', 'data', 'lit', 'bss'):
            for x in run(d, seg):
                r.count('paths', 1)
                r.obligations += 1
                bad = lambda t: r.add([Finding('directive', where(x), '%s %s' % (d, t))],
                                      tname(d, seg))
                if x.err:
                    bad('is rejected')
                    continue
                for t in unchanged_layout(x):
                    bad(t)
                if any(v[0] == 'heap' for v in x.ev):
                    bad('changes a symbol')
                k = SEGNAMES.index(d.upper()) if d.upper() in SEGNAMES else seg
                if x.cell('currentSegment', 0, 8) != A.seg_base(k):
                    bad('does not %s' % ('select its segment' if k != seg or d == SEGNAMES[k].lower()
                                         else 'leave the current segment alone'))
        for x in run('align', seg):
            r.count('paths', 1)
            r.obligations += 1
            if x.err:
                continue
            bad = lambda t: r.add([Finding('align', where(x), 'align ' + t)], tname('align', seg))
            for t in unchanged_layout(x, (seg,)):
                bad(t)
            u = e.used(seg)
            if x.cell('currentSegment', 0, 8) != A.seg_base(seg):
                bad('changes the current segment')
            if not any(rounded(x, x.used(seg), u, v) for v in nums(x, 2)):
                bad('does not move to the next multiple of its operand')
    r.count('keywords', len(lccops.EXACT) + len(lccops.STARTS))
    return r


def rounded(x, t, u, v):
    """t = u rounded up to a multiple of v, a power of two"""
    m = addc(v, -1)
    if not x.st.ctx.entails(icmp('eq', and_(v, m), con(0, 32))) or \
            not x.st.ctx.entails(icmp('ne', v, con(0, 32))):
        return False
    inv = scale(v, -1)
    return t in (add(u, and_(scale(u, -1), m)), and_(add(u, m), inv)) or \
        x.st.ctx.entails(icmp('eq', t, add(u, and_(scale(u, -1), m))))


def known_token(x):
    """is the first token of this line one of the keywords, or the line empty?"""
    A, c = asm(), x.st.ctx
    if c.entails(icmp('eq', byte_at(x, 1), con(0, 8))):
        return True
    for n, k in list(A.info.items()):
        if k[0] not in ('strcmp', 'strncmp', 'memcmp', 'strcasecmp', 'strncasecmp'):
            continue
        c1, c2, cnt = k[1]
        lit = None
        for a, b in ((c1, c2), (c2, c1)):
            if a == ('tok', '1', 0) and b[0] == 'lit':
                lit = b[1]
        if lit is None or not c.entails(icmp('eq', sym(n, 32), con(0, 32))):
            continue
        lit = lit.decode('latin-1').rstrip('\0')
        whole = cnt is None or cnt > len(lit)
        if 'case' in k[0]:
            continue
        if whole:
            if lit in lccops.EXACT or any(lit.startswith(p) for p in lccops.STARTS):
                return True
        elif any(lit[:cnt].startswith(p) for p in lccops.STARTS):
            return True
    return False


# --- C21: the code segment decodes to exactly the instructions that were counted

def C21(tier):
    r = Result()
    A = asm()
    r.rule = ('For every line (each mnemonic of the table, and any other token, in each segment) '
              'on every path that reports no error: the bytes appended to the code segment are '
              'contiguous, decode by the operand sizes of the instruction set into whole '
              'instructions with a known opcode, and instructionCount grows by exactly their '
              'number; codeLength grows by exactly their size. Nothing else in the program changes '
              'the counter or writes the code segment. Trusted: ' + TRUST)
    for t, s, xs in every():
        for x in xs:
            r.obligations += 1
            r.count('paths', 1)
            if x.err:
                continue
            f = c21_path(x)
            if f:
                r.add([Finding(f[0], where(x), f[1])], tname(t, s))
    r.add(writers(r))
    return r


def c21_path(x):
    start = entry().used(CODE)
    bs = code_bytes(x, CODE, start)
    if bs is None:
        return 'bytes', 'the code bytes of the line are not determined or not contiguous'
    n, i = 0, 0
    while i < len(bs):
        if not is_con(bs[i]):
            return 'opcode', 'byte %d of the line is no fixed opcode: %s' % (i, show(bs[i]))
        o = opname(bs[i])
        if o is None or o in ('UNDEF', 'IGNORE'):
            return 'opcode', 'opcode %d is no instruction' % cval(bs[i])
        i += 1 + qvm.OPERAND[o]
        n += 1
    if i != len(bs):
        return 'operand', 'the last instruction, %s, has %d operand bytes instead of %d' % (
            o, qvm.OPERAND[o] - (i - len(bs)), qvm.OPERAND[o])
    d = sub(x.used(CODE), start)
    if not x.st.ctx.entails(icmp('eq', d, con(len(bs), 32))):
        return 'length', 'the code segment grows by %s for %d bytes' % (show(d), len(bs))
    if count(x) != n:
        return 'count', 'instructionCount changes by %s for %d instructions' % (
            show(sub(x.cell('instructionCount'), entry().cell('instructionCount'))), n)
    return None


def writers(r):
    """instructions that write the counter or the segments outside of AssembleLine"""
    A = asm()
    reach = A.eff.transitive_calls('AssembleLine') | {'AssembleLine'}
    out = []
    for f in A.m0.funcs.values():
        if f.name in reach or not f.blocks:
            continue
        for i in f.instrs():
            if i.op == 'store' and isinstance(i.ops[1], GlobalRef) and \
                    i.ops[1].name == 'instructionCount':
                r.obligations += 1
                if not (isinstance(i.ops[0], llir.Const) and i.ops[0].val == 0):
                    out.append(Finding('counter', A.m0.where(i), 'instructionCount is changed '
                                       'outside of a line'))
    return out


# --- C26: stack frames

def C26(tier):
    r = Result()
    r.rule = ('All paths of AssembleLine for the frame instructions of lcc (proc, endproc, ADDRF, '
              'ADDRL, ARG, CALL, RET, pop), in every segment: the operands written are the offsets '
              'of one frame layout - return address and saved frame pointer (8), outgoing '
              'arguments, locals, then the incoming arguments of the caller - and every other '
              'line leaves the layout of the current function alone. Trusted: ' + TRUST)
    E = entry()
    L, A_, O = E.cell('currentLocals'), E.cell('currentArgs'), E.cell('currentArgOffset')
    frame = addc(add(L, A_), 8)
    up = lambda t: and_(addc(t, 3), con(-4, 32))

    def cells(x):
        return x.cell('currentLocals'), x.cell('currentArgs'), x.cell('currentArgOffset')

    def check(m, expect, cellcheck=None, errok=None):
        for seg in CURRENT:
            xs = run(m, seg)
            ctx = tname(m, seg)
            good = [x for x in xs if not x.err]
            r.obligations += 1
            r.count('paths', len(xs))
            if not good:
                r.add([Finding('rejected', where(xs[0]) if xs else
                               'q3asm/q3asm.c:0 (AssembleLine)',
                               'every line with %s is rejected' % m)], ctx)
            for x in xs:
                r.obligations += 1
                if x.err:
                    if errok is None or not errok(x):
                        r.add([Finding('rejected', where(x), 'a valid line with %s is rejected' % m
                                       )], ctx)
                    continue
                bs = code_bytes(x, CODE, E.used(CODE))
                e = 'the bytes are not contiguous' if bs is None else expect(x, bs)
                if e:
                    r.add([Finding('frame', where(x), '%s: %s' % (m, e))], ctx)
                e = cellcheck(x) if cellcheck else (
                    None if cells(x) == (L, A_, O) else 'changes the layout of the function')
                if e:
                    r.add([Finding('frame', where(x), '%s: %s' % (m, e))], ctx)

    def one(op, val=None, name=''):
        def f(x, bs):
            if not bs or not is_con(bs[0]) or opname(bs[0]) != op:
                return 'must assemble to OP_%s' % op
            if val is None:
                return None if len(bs) == 1 else 'has surplus bytes'
            v = val(x)
            if v is None or le_bytes(v) != bs[1:]:
                return 'the operand of OP_%s must be %s' % (op, name)
        return f

    def local(offset, name):
        def val(x, bs):
            if not bs or not is_con(bs[0]) or opname(bs[0]) != 'LOCAL':
                return 'must assemble to OP_LOCAL'
            for e in results(x):
                if le_bytes(add(e, offset)) == bs[1:]:
                    return None
            return 'the operand of OP_LOCAL must be %s' % name
        return val

    check('ADDRLP4', local(addc(A_, 8), '8 + arguments + expression'))
    check('ADDRFP4', local(addc(add(A_, L), 16), '16 + arguments + locals + expression'))
    for m in lccops.ARGS:
        def arg(x, bs):
            if len(bs) != 2 or not is_con(bs[0]) or opname(bs[0]) != 'ARG':
                return 'must assemble to OP_ARG and one byte'
            if bs[1] != trunc(addc(O, 8), 8):
                return 'the operand of OP_ARG must be 8 + offset of the argument'
            s = State()
            if not x.st.ctx.entails(icmp('slt', addc(O, 8), con(256, 32))):
                return 'the offset of the argument need not fit the byte'

        def argc(x):
            if cells(x) != (L, A_, addc(O, 4)):
                return 'the offset of the next argument must be 4 higher'
        check(m, arg, argc, lambda x: x.st.ctx.entails(icmp('sle', con(256, 32), addc(O, 8))))
    for m in lccops.CALLS:
        check(m, one('CALL'), lambda x: None if cells(x) == (L, A_, con(0, 32)) else
              'the next argument must start at offset 0')
    for m in lccops.RETS:
        check(m, one('LEAVE', lambda x: frame, '8 + locals + arguments'))
    check('pop', one('POP'))

    def proc(x, bs):
        l, a, o = cells(x)
        for n, (t, v) in enumerate((('locals', l), ('arguments', a))):
            ok = False
            for k, z in x.asm.info.items():
                s_ = trunc(sym(k, 64), 32) if z[0] in WIDE else None
                if s_ is not None and is_number(x, s_, 3 + n) and v == up(s_):
                    ok = True
            if not ok:
                return 'the size of the %s is not operand %d rounded up to words' % (t, n + 2)
        if o != O and o != con(0, 32):
            return 'changes the offset of the next argument'
        e = one('ENTER', lambda x: addc(add(l, a), 8), '8 + locals + arguments')(x, bs)
        if e:
            return e
        if not x.st.ctx.entails(icmp('slt', addc(add(l, a), 8), con(32768, 32))):
            return 'the frame need not be smaller than 32k'
        d = [e for e in x.calls() if any(a == ('tok', '2', 0) for a in e[2])]
        if len(d) != 1 or E.cell('instructionCount') not in d[0][2]:
            return 'the symbol of the function is not defined as the number of this instruction'

    check('proc', proc, lambda x: None,
          lambda x: x.st.ctx.entails(icmp('sle', con(32767, 32), addc(add(
              x.cell('currentLocals'), x.cell('currentArgs')), 8))))

    def endproc(x, bs):
        if len(bs) != 6 or not is_con(bs[0]) or opname(bs[0]) != 'PUSH' or \
                not is_con(bs[1]) or opname(bs[1]) != 'LEAVE' or bs[2:] != le_bytes(frame):
            return 'must assemble to OP_PUSH and OP_LEAVE 8 + locals + arguments'
    check('endproc', endproc)
    # nothing else changes the layout
    for t, s, xs in every():
        for x in xs:
            r.obligations += 1
            if x.err:
                continue
            c = cells(x)
            bs = code_bytes(x, CODE, E.used(CODE)) or []
            op = opname(bs[0]) if bs and is_con(bs[0]) else None
            if c[:2] != (L, A_) and op != 'ENTER':
                r.add([Finding('frame', where(x), 'changes the size of the current frame')],
                      tname(t, s))
            if c[2] != O and op not in ('ARG', 'CALL', 'ENTER'):
                r.add([Finding('frame', where(x), 'changes the offset of the next argument')],
                      tname(t, s))
    return r


# --- the program around the lines

from asmprog import Program


def program():
    def go():
        P = Program(asm())
        pol, eng = P.run()
        return P, pol, eng
    return memo('program', go)


def program_main():
    def go():
        P = program()[0]
        pol, eng = P.run('main')
        return P, pol, eng
    return memo('main', go)


def names_in(d, out=None, depth=0):
    """string literals a described string was built from"""
    out = set() if out is None else out
    A = asm()
    if depth > 12:
        return out
    if isinstance(d, tuple):
        if len(d) == 2 and d[0] == 'lit' and isinstance(d[1], bytes):
            out.add(d[1])
        else:
            for x in d:
                names_in(x, out, depth + 1)
    elif isinstance(d, str):
        for p in ('lib', 'c', 'cp'):
            if d.startswith(p) and d[len(p):].split('.')[0].isdigit():
                k = by_id().get(int(d[len(p):].split('.')[0]))
                if k is not None:
                    names_in(k, out, depth + 1)
    return out


def by_id():
    A = asm()
    if len(_cache.get('ids', ())) != len(A.ids):
        _cache['ids'] = {v: k for k, v in A.ids.items()}
    return _cache['ids']


def opens_qvm(e):
    """is this event the opening of the .qvm file for writing?"""
    return e[0] == 'io' and e[1] in ('fopen', 'open', 'creat') and writing(e) and \
        '.qvm' in joined(e[2][0])


def joined(d):
    return ' '.join(x.decode('latin-1') for x in names_in(d))


def writing(e):
    if e[1] == 'creat':
        return True
    m = e[2][1] if len(e[2]) > 1 else None
    return not (isinstance(m, tuple) and m[0] == 'lit' and m[1][:1] == b'r' and b'+' not in m[1])


class At:
    """cells of the program state"""

    def __init__(self, P, eng, st):
        self.P, self.eng, self.st = P, eng, st

    def g(self, name, size=4, off=0):
        return self.eng.mem_load(self.st, ('b', 'g', name), con(off, 64), size,
                                 ('int', 8 * size))

    def seg(self, k, m):
        S = self.P.asm.seg
        return self.g('segment', 4, k * S['size'] + S['F'][m][0])


def segment_of(A, t):
    """which segment's length an atom of the program state is"""
    S = A.seg
    out = []
    for a in atoms_of(t):
        if a[0] == 's':
            for k in range(S['n']):
                if a[1].startswith('used%d#' % k) or a[1].startswith(
                        'mem[&segment+%d]' % (k * S['size'] + S['F']['imageUsed'][0])):
                    out.append((k, a))
        elif a[0] == 'ld' and a[1] == ('b', 'g', 'segment') and is_con(a[2]):
            for k in range(S['n']):
                if cval(a[2]) == k * S['size'] + S['F']['imageUsed'][0]:
                    out.append((k, a))
    return out


def is_aligned_length(A, ctx, t, k):
    """is t the length of segment k rounded up to words?"""
    if is_con(t):
        return cval(t) == (4 if k == DATA else 0)
    for kk, a in segment_of(A, t):
        if kk == k and t in (and_(addc(atom(a), 3), con(-4, 32)),
                             add(atom(a), and_(scale(atom(a), -1), con(3, 32)))):
            return True
        if kk == k and ctx.entails(icmp('ule', sub(t, atom(a)), con(3, 32))) and \
                aligned(ctx, t):
            return True
    return False


def aligned(ctx, t):
    if ctx.entails(icmp('eq', and_(t, con(3, 32)), con(0, 32))):
        return True
    a = single(t)
    return a is not None and a[0] == 'x' and a[1] == 'and' and is_con(a[4]) and \
        cval(a[4]) & 3 == 0


def C22(tier):
    r = Result()
    A = asm()
    r.rule = ('errorCount is only ever incremented. All paths of the pass driver and of main are '
              'explored (lines by their effects): a .qvm file is opened for writing only where '
              'errorCount is known to be 0, a run without errors writes one, on every other path '
              'the previous output file is removed, and main returns a status from 1 to 255 '
              'unless errorCount is known to be 0. Every exit() has a status from 1 to 255. '
              'Trusted: ' + TRUST)
    n = 0
    for f in A.m0.funcs.values():
        if not f.blocks:
            continue
        for i in f.instrs():
            for o in i.ops:
                if isinstance(o, GlobalRef) and o.name == 'errorCount':
                    n += 1
                    r.obligations += 1
                    ok = i.op == 'load' or (i.op == 'store' and o is i.ops[1] and increments(i))
                    if not ok:
                        r.add([Finding('error-count', A.m0.where(i),
                                       'errorCount is changed other than by counting up')])
            if i.op == 'call' and isinstance(i.x['callee'], GlobalRef) and \
                    i.x['callee'].name in ('exit', '_exit', '_Exit', 'quick_exit'):
                r.obligations += 1
                v = i.ops[0]
                if not (isinstance(v, llir.Const) and v.val & 255):
                    r.add([Finding('exit-status', A.m0.where(i),
                                   'exit() with a status that may be 0')])
    P, pol, eng = program()
    wrote = 0
    for st, val, w in pol.rets:
        r.obligations += 1
        r.count('paths', 1)
        err = At(P, eng, st).g('errorCount')
        op = [e for e in st.ev if opens_qvm(e)]
        for e in op:
            if not st.ctx.entails(icmp('eq', e[5][1], con(0, 32))):
                r.add([Finding('written-with-errors', e[-1],
                               'the output file is opened where errorCount may not be 0')])
            if e[5][1] != err:
                r.add([Finding('errors-after-writing', e[-1],
                               'errors may be counted after the output file was written')])
        wrote += bool(op)
        if not op:
            if not all(c.entails(icmp('ne', err, con(0, 32))) for c in st.by_cases()):
                r.add([Finding('not-written', w, 'a path without errors writes no output file')])
            if not any(e[0] == 'io' and e[1] in ('remove', 'unlink') and
                       '.qvm' in joined(e[2][0]) for e in st.ev):
                r.add([Finding('stale-output', w,
                               'the previous output file is left in place after errors')])
    if not wrote:
        r.add([Finding('not-written', P.mod.where(P.mod.funcs[P.owner].blocks[0].term),
                       'no path writes the output file')])
    P, pol, eng = program_main()
    for st, val, w in pol.rets:
        r.obligations += 1
        r.count('paths', 1)
        err = At(P, eng, st).g('errorCount')
        if is_con(val) and cval(val) & 255:
            continue
        ok = True
        for c in st.by_cases():
            c.assume(icmp('eq', and_(val, con(255, 32)), con(0, 32)))
            ok = ok and c.entails(icmp('eq', err, con(0, 32)))
        if not ok:
            r.add([Finding('exit-status', w, 'main may return 0 (modulo 256) with errorCount '
                           'not 0')])
    r.count('uses_of_errorCount', n)
    return r


def increments(i):
    v = i.ops[0]
    return isinstance(v, Instr) and v.op == 'add' and isinstance(v.ops[1], llir.Const) and \
        v.ops[1].val == 1 and isinstance(v.ops[0], Instr) and v.ops[0].op == 'load' and \
        isinstance(v.ops[0].ops[0], GlobalRef) and v.ops[0].ops[0].name == 'errorCount'


def C23(tier):
    r = Result()
    A = asm()
    r.rule = ('All paths of the pass driver that write the .qvm file: the header the file starts '
              'with, as a function of the segments, and the sequence of writes (what, how much) '
              'are compared with the file format the loader reads; every length is a multiple of '
              '4 covering the segment; the addresses given to data, lit and bss symbols are those '
              'the loader puts the segments at. Trusted: ' + TRUST)
    P, pol, eng = program()
    stack = build.macro('src/vm/vm.h', 'VM_PROGRAM_STACK_SIZE')
    for st, val, w in pol.rets:
        op = [k for k, e in enumerate(st.ev) if opens_qvm(e)]
        if not op:
            continue
        r.count('writing_paths', 1)
        evs = st.ev[op[0]:]
        f = evs[0][3]
        ws = []
        for e in evs[1:]:
            if e[0] == 'io' and e[1] == 'fclose':
                break
            if e[0] == 'io' and e[1] == 'fwrite':
                ws.append(e)
        bad = lambda rule, text: r.add([Finding(rule, ws[0][-1] if ws else w, text)])
        if not ws or ws[0][5][0] is None:
            bad('header', 'the file does not start with a header')
            continue
        h = ws[0][5][0]
        c = st.ctx
        total = lambda e: mul(e[4][2], e[4][3])
        used = {}
        eq = lambda a, b: a == b or c.entails(icmp('eq', a, b))

        def need(ok, rule, text):
            r.obligations += 1
            if not ok:
                bad(rule, text)
        need(eq(total(ws[0]), con(32, 64)), 'header', 'the header is not 32 bytes long')
        need(eq(h[0], con(qvm.MAGIC, 32)), 'header', 'wrong magic number')
        need(eq(h[1], At(P, eng, st).g('instructionCount')), 'header',
             'instructionCount is not the number of instructions')
        need(eq(h[2], con(32, 32)), 'header', 'the code does not start behind the header')
        need(eq(h[4], add(h[2], h[3])), 'header', 'the data does not start behind the code')
        for k, n, i in ((CODE, 'code', 3), (DATA, 'data', 5), (LIT, 'lit', 6)):
            need(is_aligned_length(A, c, h[i], k), 'header',
                 '%sLength is not the length of the %s segment rounded up to words' % (n, n))
        need(any(is_aligned_length(A, c, addc(h[7], -s), BSS) for s in {stack}), 'header',
             'bssLength is not the length of the bss segment and the program stack')
        order = []
        for e in ws[1:]:
            b, off = e[4][0], e[4][1]
            k = None
            if b == ('b', 'g', 'segment') and is_con(off):
                sm = pol.seg_member(b, off)
                if sm and sm[1] == 'image' and is_con(sm[2]) and cval(sm[2]) == 0:
                    k = sm[0]
            order.append((k, total(e)))
        ks = [k for k, t in order]
        need(ks in ([CODE, DATA, LIT], [CODE, DATA, LIT, JTRG]), 'layout',
             'the file is not header, code, data, lit: %s' % [
                 SEGNAMES[k] if k is not None else '?' for k in ks])
        for (k, t), i in zip(order, (3, 5, 6)):
            need(eq(t, sext(h[i], 64)) or eq(t, zext(h[i], 64)), 'layout',
                 'the %s segment is not written with the length in the header' %
                 (SEGNAMES[k] if k is not None else '?'))
    if not r.cover.get('writing_paths'):
        r.add([Finding('layout', 'q3asm/q3asm.c:0', 'no path writes the output file')])
    # addresses
    n = 0
    for st in pass_entries(P, pol):
        at = At(P, eng, st)
        pn = at.g('passNumber')
        n += 1
        for k, v in ((CODE, 0), (DATA, 4), (LIT, 0), (BSS, 0)):
            r.obligations += 1
            if at.seg(k, 'imageUsed') != con(v, 32):
                r.add([Finding('start', P.mod.where(P.mod.funcs[P.owner].blocks[0].term),
                               'a pass does not start with %d bytes in the %s segment' % (
                                   v, SEGNAMES[k]))])
        if st.ctx.entails(icmp('eq', pn, con(0, 32))):
            continue
        b = {k: at.seg(k, 'segmentBase') for k in (CODE, DATA, LIT, BSS)}
        z = At(P, eng, State())
        for ok, t in ((b[DATA] == z.seg(DATA, 'segmentBase'), 'data segment does not start at 0'),
                      (b[CODE] == z.seg(CODE, 'segmentBase'), 'code addresses do not start at 0'),
                      (is_aligned_length(A, st.ctx, b[LIT], DATA),
                       'lit segment does not start behind the data segment'),
                      (is_aligned_length(A, st.ctx, sub(b[BSS], b[LIT]), LIT),
                       'bss segment does not start behind the lit segment')):
            r.obligations += 1
            if not ok:
                r.add([Finding('address', P.mod.where(P.mod.funcs[P.owner].blocks[0].term),
                               'the ' + t)])
    if not n:
        raise Anchor('no pass over the lines was found')
    r.count('passes', n)
    return r


def pass_entries(P, pol):
    """states in which the outermost loop over the lines of a pass begins"""
    heads = {e[3] for e in pol.passes}
    inner = set()
    for h in heads:
        c = CFG(h.func)
        for g in heads:
            if g is not h and g.func is h.func and h in c.loops.get(g, ()):
                inner.add(h)
    return [st for st, w, ev, h in pol.passes if h not in inner]


# --- C28: both passes lay the program out in the same way

def tainted(A, t):
    """does the term depend on what differs between the passes: the number of the pass, symbols,
    segment addresses, the contents of the segments?"""
    for a in atoms_of(t):
        if taint_atom(A, a):
            return True
    return False


def taint_atom(A, a):
    if a[0] == 's':
        k = A.info.get(a[1])
        if k is None:
            return not (a[1].startswith('hash~'))
        return taint_key(A, k)
    if a[0] == 'ld':
        b = a[1]
        if b == ('b', 'g', 'segment'):
            S = A.seg
            return not (is_con(a[2]) and any(
                cval(a[2]) == k * S['size'] + S['F']['imageUsed'][0] for k in CURRENT))
        if b[0] == 'b' and b[1] == 'g':
            return not (b[2] in layout_globals() or b[2] in A.line_input() or
                        b[2] in ('optable', 'opcodesHash', 'sourceOps', 'currentFileIndex',
                                 'symtablelen', 'currentFileName'))
        return not heap_of_tables(A, a)
    if a[0] == 'b':
        return False
    return any(tainted(A, x) for x in a[3:] if isinstance(x, tuple) and x and x[0] == 'l')


def heap_of_tables(A, a):
    """a load through a pointer that comes from the operator table, which no line changes"""
    b = a
    while b[0] == 'ld':
        b = b[1]
        if b == ('b', 'g', 'optable'):
            return True
    return False


def taint_key(A, k):
    name, desc, rv = k
    for v, ver in rv:
        if v == '*heap' or (v not in A.line_input() and v not in layout_globals()):
            return True
    for d in desc:
        if isinstance(d, tuple) and d and d[0] == 'l' and tainted(A, d):
            return True
        if isinstance(d, tuple) and d and d[0] in ('mem', '?'):
            return True
    return False


def layout_globals():
    """scalar globals a line both reads and writes, except those about symbols and errors"""
    def go():
        A = asm()
        m, f = A.eff.mods['AssembleLine'], A.eff.refs['AssembleLine']
        out = set()
        for x in m & f:
            if x[0] == 'g' and x[1] not in A.line_input() and x[1] not in (
                    'segment', 'errorCount', 'symbols', 'lastSymbol', 'passNumber', 'symtable',
                    'numSymbols'):
                out.add(x[1])
        return out
    return memo('layout', go)


def layout(x):
    A = asm()
    out = []
    for g in sorted(layout_globals()):
        rt = A.mod.rtype(A.mod.globals[g].ty)
        n = A.mod.sizeof(rt)
        out.append((g, x.cell(g, 0, n)))
    for k in CURRENT:
        out.append(('length of ' + SEGNAMES[k], x.used(k)))
    return out


def C28(tier):
    r = Result()
    A = asm()
    r.rule = ('The layout state is the length of the segments and every global that a line both '
              'reads and writes (current segment, instruction counter, frame sizes, ...). For '
              'every line, on all error-free paths: the new layout state does not depend on the '
              'number of the pass, on symbol values, on segment addresses or on the contents of '
              'the segments, neither directly nor by two paths that differ only in such a '
              'condition. Every pass starts with the same layout state, no line changes the '
              'segment addresses, and the passes read the same lines. So the addresses of the '
              'first pass are those of the second. Trusted: ' + TRUST)
    lg = layout_globals()
    r.samples = sorted(lg)
    base_cells = {k: entry().cell('segment', k * A.seg['size'] + A.seg['F']['segmentBase'][0])
                  for k in range(A.seg['n'])}
    bases = {A.seg_base(k) for k in CURRENT}
    for t, s, xs in every():
        outs = {}
        for x in xs:
            r.obligations += 1
            r.count('paths', 1)
            if x.err:
                continue
            for k, v in base_cells.items():
                if x.cell('segment', k * A.seg['size'] + A.seg['F']['segmentBase'][0]) != v:
                    r.add([Finding('segment-address', where(x),
                                   'a line changes the address of the %s segment' % SEGNAMES[k])],
                          tname(t, s))
            lay = layout(x)
            for n, v in lay:
                if tainted(A, v):
                    r.add([Finding('pass-dependent', where(x), '%s becomes %s, which may differ '
                                   'between the passes' % (n, show(v)[:120]))], tname(t, s))
                if n == 'currentSegment' and v not in bases:
                    r.add([Finding('segment', where(x), 'the current segment becomes %s' % show(v)
                                   )], tname(t, s))
            outs.setdefault(tuple(v for n, v in lay), []).append(x)
        keys = list(outs)
        for i in range(len(keys)):
            for j in range(i + 1, len(keys)):
                r.obligations += 1
                f = overlap(A, outs[keys[i]], outs[keys[j]])
                if f:
                    names = [n for (n, v), v2 in zip(layout(outs[keys[i]][0]), keys[j]) if v != v2]
                    r.add([Finding('pass-dependent', where(f[0]) if f[0].ev else where(f[1]),
                                   'the %s after the line depends on something that may differ '
                                   'between the passes' % ', '.join(names))], tname(t, s))
    P, pol, eng = program()
    first = None
    n = 0
    for st in pass_entries(P, pol):
        at = At(P, eng, st)
        lay = []
        for g in sorted(lg):
            n_ = A.mod.sizeof(A.mod.rtype(A.mod.globals[g].ty))
            lay.append((g, at.g(g, n_)))
        lay += [('length of ' + SEGNAMES[k], at.seg(k, 'imageUsed')) for k in CURRENT]
        n += 1
        for name, v in lay:
            r.obligations += 1
            c = v if not (v[0] == 'l' and not is_con(v) and v in bases) else con(0, 32)
            if not is_con(c):
                r.add([Finding('start', P.mod.where(P.mod.funcs[P.owner].blocks[0].term),
                               '%s is left over from before the pass' % name)])
        if first is None:
            first = lay
        elif first != lay:
            d = [a for (a, v), (b, w) in zip(first, lay) if v != w]
            r.add([Finding('start', P.mod.where(P.mod.funcs[P.owner].blocks[0].term),
                           'the passes start with a different %s' % ', '.join(d))])
    if not n:
        raise Anchor('no pass over the lines was found')
    r.count('passes', n)
    return r


def clean_facts(A, x):
    """the conditions of the path that are the same in both passes"""
    return [c for c in x.st.ctx.facts if isinstance(c, tuple) and clean_cond(A, c)]


def clean_cond(A, c):
    for y in c[1:]:
        if isinstance(y, tuple) and y:
            if y[0] == 'l':
                if tainted(A, y):
                    return False
            elif not clean_cond(A, y):
                return False
        elif isinstance(y, (list, frozenset)):
            return False
    return True


def overlap(A, xs, ys):
    """two paths that both passes can tell apart only by what differs between them"""
    for x in xs:
        fx = clean_facts(A, x)
        for y in ys:
            c = Ctx()
            for f in fx + clean_facts(A, y):
                c.assume(f)
            if not c.contradictory(True):
                return x, y
    return None


# --- C29: initialised objects are contiguous

def C29(tier):
    r = Result()
    A = asm()
    r.rule = ('Two data lines after a label, all combinations of byte, address and skip, starting '
              'in each segment: all error-free paths through the three lines are explored. The '
              'first datum follows the label in place or, if its segment is changed, the label '
              'is moved to where the datum starts, on a word; the second datum follows the '
              'first without gap in the same segment; each line appends the little endian bytes '
              'of its value. Trusted: ' + TRUST)
    for seg in (CODE, DATA, LIT, BSS):
        labels = [x for x in line(A, b'LABELV', seg)[0] if not x.err]
        r.obligations += 1
        if not labels:
            r.add([Finding('label', 'q3asm/q3asm.c:0 (AssembleLine)', 'no label is accepted')],
                  tname('LABELV', seg))
        for d1 in ('byte', 'address', 'skip'):
            for x0 in labels:
                for x1 in line(A, d1.encode(), seg, x0.st)[0]:
                    if x1.err:
                        continue
                    r.count('paths', 1)
                    r.obligations += 1
                    ctx = 'label, %s in segment %s' % (d1, SEGNAMES[seg])
                    k1, end1 = first_datum(r, A, x0, x1, seg, d1, ctx)
                    if k1 is None:
                        continue
                    if k1 == CODE:
                        # an empty datum, no object
                        if not x1.st.ctx.entails(icmp('eq', end1, x0.used(CODE))):
                            r.add([Finding('object', where(x1), 'data in the code segment')], ctx)
                        continue
                    for d2 in ('byte', 'address', 'skip'):
                        for x2 in line(A, d2.encode(), seg, x1.st)[0]:
                            if x2.err:
                                continue
                            r.count('paths', 1)
                            r.obligations += 1
                            next_datum(r, A, x1, x2, k1, d2, 'label, %s, %s in segment %s' % (
                                d1, d2, SEGNAMES[seg]))
    return r


def cur(x):
    A = x.asm
    v = x.cell('currentSegment', 0, 8)
    for k in range(A.seg['n']):
        if v == A.seg_base(k):
            return k
    return None


def emitted_data(x):
    ks = {e[1] for e in x.ev if e[0] == 'emit' and e[1] != JTRG}
    for e in x.ev:
        if e[0] == 'loop':
            ks |= set(e[1])
    return ks


def datum_bytes(r, x, k, start, d, ctx):
    """does the line append its value to segment k at start?"""
    bad = lambda t: r.add([Finding('datum', where(x), '%s: %s' % (d, t))], ctx)
    if emitted_data(x) - {k}:
        return bad('writes the %s segment as well' % ', '.join(
            SEGNAMES[z] for z in sorted(emitted_data(x) - {k})))
    d_ = sub(x.used(k), start)
    if d == 'skip':
        if emitted_data(x):
            bad('writes data')
        elif not is_number(x, d_, 2) and not num_here(x, d_, 2):
            bad('does not reserve the number of bytes it names')
        return
    bs = code_bytes(x, k, start)
    if bs is None:
        return bad('the bytes do not follow the previous datum')
    if not x.st.ctx.entails(icmp('eq', d_, con(len(bs), 32))):
        return bad('the segment does not grow by the bytes written')
    if d == 'address':
        if len(bs) != 4 or not any(le_bytes(e) == bs for e in line_results(x)):
            bad('does not append the little endian value of its expression')
        return
    n = nums(x, 2)
    if not any(x.st.ctx.entails(icmp('eq', t, con(len(bs), 32))) for t in n):
        return bad('%d bytes are written whatever the size says' % len(bs))
    if not any(le_bytes(t)[:len(bs)] == bs for t in nums(x, 3)):
        bad('does not append the little endian value of its operand')


def here(x):
    n = x.st.aux.get('line', 0)
    return '/%d' % n if n else ''


def line_results(x):
    out = []
    for n, k in list(x.asm.info.items()):
        if k[0] in x.asm.eff.mods and ('token', 'tok2' + here(x)) in k[2]:
            out.append(sym(n, 32))
    return out


def nums(x, tok):
    out = []
    for n, k in list(x.asm.info.items()):
        if k[0] in WIDE and k[1] and k[1][0] == ('tok', '%d%s' % (tok, here(x)), 0):
            out.append(trunc(sym(n, 64), 32))
    return out


def num_here(x, t, tok):
    return t in nums(x, tok)


def first_datum(r, A, x0, x1, seg, d, ctx):
    """(segment, end) of the first datum behind a label"""
    bad = lambda t: r.add([Finding('label', where(x1), t)], ctx)
    ks = emitted_data(x1)
    k = cur(x1)
    if k is None or (ks and ks != {k}):
        bad('the datum is not put into the segment that becomes the current one')
        return None, None
    mv = {}
    for e in x1.ev:
        if e[0] == 'heap' and e[1]:
            mv[e[1][1]] = (e[3], e[2])
    c = x1.st.ctx
    start = datum_start(x1, k, d, x0)
    if start is None:
        bad('the place of the datum could not be determined')
        return None, None
    if k == seg:
        if start != x0.used(k):
            bad('there is a gap between the label and its datum')
        if mv:
            bad('the label is moved away from its datum')
    else:
        # (in the second pass no symbol is defined, and without a label there is none to move)
        pn, ls = x1.cell('passNumber'), x1.cell('lastSymbol', 0, 8)
        unmoved = all(q.entails(icmp('ne', pn, con(0, 32))) or
                      q.entails(icmp('eq', ls, con(0, 64))) for q in x1.st.by_cases())
        if mv:
            if mv.get('segment', (None,))[0] != A.seg_base(k) or \
                    mv.get('value', (None,))[0] != start:
                bad('the label is moved, but not to its datum')
            if any(root != 'lastSymbol' for v, root in mv.values()):
                bad('another symbol than the last one is moved')
        elif not unmoved:
            bad('the datum goes to the %s segment, the label stays in %s' % (
                SEGNAMES[k], SEGNAMES[seg]))
        if not aligned(c, start) and not pad_ok(c, start, x0.used(k)):
            bad('the datum does not start on a word of its segment')
    datum_bytes(r, x1, k, start, d, ctx)
    return k, x1.used(k)


def pad_ok(c, start, used):
    """start = used rounded up to 4"""
    d = sub(start, used)
    return d == and_(scale(used, -1), con(3, 32)) or (
        c.entails(icmp('ule', d, con(3, 32))) and
        c.entails(icmp('eq', and_(start, con(3, 32)), con(0, 32))))


def datum_start(x, k, d, x0):
    em = [e for e in x.ev if e[0] == 'emit' and e[1] == k]
    if em:
        t = em[0][2]
        a = single(t)
        if a is not None and a[0] == 'x' and a[1] in ('sext', 'zext') and a[3][1] == 32:
            return a[3]
        if is_con(t):
            return trunc(t, 32)
        return None
    if any(e[0] == 'loop' for e in x.ev):
        return None
    if d == 'skip':
        for n in nums(x, 2):
            return sub(x.used(k), n)
    return x.used(k)


def next_datum(r, A, x1, x2, k, d, ctx):
    bad = lambda t: r.add([Finding('object', where(x2), t)], ctx)
    if cur(x2) != k or emitted_data(x2) - {k}:
        return bad('the object is split: its first datum is in the %s segment, the next in %s' % (
            SEGNAMES[k], SEGNAMES[cur(x2)] if cur(x2) is not None else '?'))
    if any(e[0] == 'heap' for e in x2.ev):
        bad('a symbol is changed by a datum inside an object')
    start = datum_start(x2, k, d, x1)
    if start is None or not (start == x1.used(k) or
                             x2.st.ctx.entails(icmp('eq', start, x1.used(k)))):
        return bad('there is a gap inside the object')
    datum_bytes(r, x2, k, start, d, ctx)
