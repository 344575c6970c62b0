"""Value-number terms: canonical forms for the values the IR computes.

int term of width w (pointers are 64 bit ints):
    ('l', w, const, ((atom, coeff), ...))      linear combination modulo 2**w
atoms (all know their width, see awidth()):
    ('s', name, w)                    symbol (unknown, but one fixed value)
    ('b', kind, name...)              base address of an object (64 bit)
    ('ld', base, off, w, ver)         memory content (base atom, offset term)
    ('x', op, w, a, b...)             other operation on terms
    ('f2i', fterm, w)                 bits of a float
float terms: ('fs', name, w) | ('fop', op, w, args...) | ('i2f', term, w) | ('fc', text, w)
conditions: True/False | ('eq', d) | ('ne', d) | ('slt', a, b) | ('sle', a, b) |
    ('ult', a, b) | ('ule', a, b) | ('fcmp', pred, a, b) | ('and', c, d) | ('or', c, d)
    | ('bit', term)  (a 1 bit value used as a condition) | ('nbit', term)
"""

_lincache = {}


def mask(w):
    return (1 << w) - 1


def sgn(v, w):
    v &= mask(w)
    return v - (1 << w) if v >> (w - 1) else v


def con(v, w):
    return ('l', w, v & mask(w), ())


def awidth(a):
    k = a[0]
    if k in ('s', 'f2i', 'x'):
        return a[2]
    if k == 'b':
        return 64
    if k == 'ld':
        return a[3]
    raise ValueError(a)


_keycache = {}


def akey(a):
    k = _keycache.get(a)
    if k is None:
        k = repr(a)
        _keycache[a] = k
    return k


_BYTES = {1, 1 << 8, 1 << 16, 1 << 24}


def mk(w, c, d):
    for a, k in d.items():
        # 2**j * (1 << n) is 1 << (n + j)
        if a[0] == 'x' and a[1] == 'shl' and k & mask(w) and not k & 1 and \
                a[3][2] == 1 and not a[3][3]:
            d = dict(d)
            del d[a]
            k &= mask(w)
            j = (k & -k).bit_length() - 1
            n = ('x', 'shl', w, a[3], addc(a[4], j))
            # the quotient, signed
            q = sgn(k, w) >> j
            d[n] = d.get(n, 0) + q
            return mk(w, c, d)
    items = tuple(sorted(((a, k & mask(w)) for a, k in d.items() if k & mask(w)),
                         key=lambda x: akey(x[0])))
    if len(items) == 4 and w == 32 and {k for _, k in items} == _BYTES:
        # the sum of the four bytes of a word is their disjunction
        by = {k: a for a, k in items}
        if all(a[0] == 'x' and a[1] == 'zext' and a[3][0] == 'l' and a[3][1] == 8
               for a in by.values()):
            r = atom(by[1])
            for k in (8, 16, 24):
                r = or_(r, ('l', w, 0, ((by[1 << k], 1 << k),)))
            return addc(r, c & mask(w))
    return ('l', w, c & mask(w), items)


def atom(a):
    return ('l', awidth(a), 0, ((a, 1),))


def sym(name, w):
    return atom(('s', name, w))


def base(*k):
    return atom(('b',) + k)


def is_con(t):
    return t[0] == 'l' and not t[3]


def cval(t):
    return t[2]


def scval(t):
    return sgn(t[2], t[1])


def single(t):
    """the atom if t is exactly one atom"""
    if t[0] == 'l' and t[2] == 0 and len(t[3]) == 1 and t[3][0][1] == 1:
        return t[3][0][0]
    return None


def add(a, b, kb=1):
    w = a[1]
    d = dict(a[3])
    for x, k in b[3]:
        d[x] = d.get(x, 0) + k * kb
    return mk(w, a[2] + b[2] * kb, d)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    w = a[1]
    return mk(w, a[2] * k, {x: c * k for x, c in a[3]})


def addc(a, c):
    return ('l', a[1], (a[2] + c) & mask(a[1]), a[3])


def X(op, w, *args):
    return atom(('x', op, w) + args)


def tkey(t):
    return repr(t)


def mul(a, b):
    if is_con(b):
        return scale(a, cval(b))
    if is_con(a):
        return scale(b, cval(a))
    if tkey(a) > tkey(b):
        a, b = b, a
    return X('mul', a[1], a, b)


def trunc(t, w):
    if t[1] == w:
        return t
    d = {}
    c = t[2]
    for a, k in t[3]:
        x = trunc_atom(a, w)
        c += x[2] * k
        for y, ky in x[3]:
            d[y] = d.get(y, 0) + k * ky
    return mk(w, c, d)


def trunc_atom(a, w):
    if a[0] == 'x':
        op = a[1]
        if op in ('zext', 'sext'):
            i = a[3]
            if isinstance(i, tuple) and i and i[0] == 'l':
                if i[1] == w:
                    return i
                if i[1] > w:
                    return trunc(i, w)
                return zext(i, w) if op == 'zext' else sext(i, w)
            if w > 1:
                return X(op, w, i)           # of a condition
        elif op == 'trunc':
            return trunc(a[3], w)
        elif op in ('and', 'or', 'xor'):
            return BITS[op](trunc(a[3], w), trunc(a[4], w))
        elif op == 'mul':
            return mul(trunc(a[3], w), trunc(a[4], w))
        elif op == 'ashr' and is_con(a[4]) and cval(a[4]) + w <= a[2]:
            return trunc(lshr(a[3], a[4]), w)      # no copy of the sign is left
        elif op in ('sdiv', 'srem') and a[2] == 64 and w == 32:
            p, q = unext(a[3], 'sext', 32), unext(a[4], 'sext', 32)
            if p is not None and q is not None:
                return X(op, 32, p, q)       # the wide division can't trap: wraps instead
        elif op in ('udiv', 'urem') and a[2] == 64 and w == 32:
            p, q = unext(a[3], 'zext', 32), unext(a[4], 'zext', 32)
            if p is not None and q is not None:
                return X(op, 32, p, q)
    elif a[0] == 'f2i':
        pass
    return X('trunc', w, atom(a))


def unext(t, kind, w):
    if is_con(t):
        v = cval(t)
        if kind == 'sext':
            v = scval(t)
            if -(1 << (w - 1)) <= v < (1 << (w - 1)):
                return con(v, w)
            return None
        return con(v, w) if v <= mask(w) else None
    a = single(t)
    if a and a[0] == 'x' and a[1] == kind and a[3][1] == w:
        return a[3]
    return None


def zext(t, w):
    if t[1] == w:
        return t
    if is_con(t):
        return con(cval(t), w)
    a = single(t)
    if a and a[0] == 'x' and a[1] == 'zext' and isinstance(a[3], tuple) and a[3][0] == 'l':
        return zext(a[3], w)
    if a and a[0] == 'x' and a[1] == 'zext':      # zext of a condition
        return X('zext', w, a[3])
    return X('zext', w, t)


def sext(t, w):
    if t[1] == w:
        return t
    if is_con(t):
        return con(scval(t), w)
    a = single(t)
    if a and a[0] == 'x':
        if a[1] == 'zext':
            return zext(t, w)
        if a[1] == 'sext':
            return sext(a[3], w)
    return X('sext', w, t)


def lognot(t):
    return sub(con(-1, t[1]), t)


def is_not(t):
    """x if t == ~x in an obvious way (-x-1 with x a single atom)"""
    if len(t[3]) == 1 and t[2] == mask(t[1]) and t[3][0][1] == mask(t[1]):
        return atom(t[3][0][0])
    return None


def and_(a, b):
    w = a[1]
    if is_con(a) and is_con(b):
        return con(cval(a) & cval(b), w)
    if is_con(a):
        a, b = b, a
    if is_con(b):
        m = cval(b)
        if m == 0:
            return con(0, w)
        if m == mask(w):
            return a
        for k in (1, 8, 16, 32):
            if m == mask(k) and k < w and k > 1:
                return zext(trunc(a, k), w)
        x = single(a)
        if x and x[0] == 'x' and x[1] == 'and' and is_con(x[4]):
            return and_(x[3], con(cval(x[4]) & m, w))
        low = (mask(w) ^ m) + 1
        if low & (low - 1) == 0 and a[3] and all(k % low == 0 for y, k in a[3]):
            # multiples of a power of two, rounded down to one
            return addc(a, -(a[2] % low))
        if m & (m + 1) == 0:
            # modulo a power of two: masks that keep the low bits have no effect
            d, c, ch = {}, a[2] & m, False
            for y, k in a[3]:
                if y[0] == 'x' and y[1] == 'and' and is_con(y[4]) and cval(y[4]) & m == m:
                    for z, kz in y[3][3]:
                        d[z] = d.get(z, 0) + k * kz
                    c += k * y[3][2]
                    ch = True
                else:
                    d[y] = d.get(y, 0) + k
            half = (m + 1) // 2
            for y in list(d):
                k = d[y] & m
                d[y] = k - m - 1 if k > half else k
            b2 = mk(w, c & m, {y: k for y, k in d.items() if k})
            if b2 != a:
                return and_(b2, b)
        if x and x[0] == 'x' and x[1] == 'zext' and x[3][0] == 'l' and m >= mask(x[3][1]) \
                and (m & mask(x[3][1])) == mask(x[3][1]):
            return a
        return X('and', w, a, b)
    if a == b:
        return a
    # both extensions of the same kind: and commutes with them
    xa, xb = single(a), single(b)
    if xa and xb and xa[0] == xb[0] == 'x' and xa[1] == xb[1] and xa[1] in ('sext', 'zext') \
            and xa[3][0] == 'l' and xb[3][0] == 'l' and xa[3][1] == xb[3][1]:
        r = and_(xa[3], xb[3])
        return sext(r, w) if xa[1] == 'sext' else zext(r, w)
    # idempotence: (x & m) & m
    for p, q in ((a, b), (b, a)):
        x = single(p)
        if x and x[0] == 'x' and x[1] == 'and' and (x[3] == q or x[4] == q):
            return p
    if tkey(a) > tkey(b):
        a, b = b, a
    return X('and', w, a, b)


def or_(a, b):
    w = a[1]
    if is_con(a) and is_con(b):
        return con(cval(a) | cval(b), w)
    if is_con(a):
        a, b = b, a
    if is_con(b):
        if cval(b) == 0:
            return a
        if cval(b) == mask(w):
            return b
    if a == b:
        return a
    if tkey(a) > tkey(b):
        a, b = b, a
    return X('or', w, a, b)


def xor_(a, b):
    w = a[1]
    if is_con(a) and is_con(b):
        return con(cval(a) ^ cval(b), w)
    if is_con(a):
        a, b = b, a
    if is_con(b):
        if cval(b) == 0:
            return a
        if cval(b) == mask(w):
            return lognot(a)
        if cval(b) == 1 << (w - 1):
            return addc(a, 1 << (w - 1))
    if a == b:
        return con(0, w)
    if tkey(a) > tkey(b):
        a, b = b, a
    return X('xor', w, a, b)


BITS = {'and': and_, 'or': or_, 'xor': xor_}


def shamt(b, w):
    """shift amounts: x & (w-1) and x are the same for every defined shift"""
    x = single(b)
    if x and x[0] == 'x' and x[1] == 'and' and is_con(x[4]) and cval(x[4]) == w - 1:
        return x[3]
    return b


def shl(a, b):
    w = a[1]
    if is_con(b):
        return scale(a, 1 << cval(b)) if cval(b) < w else con(0, w)
    return X('shl', w, a, shamt(b, w))


def lshr(a, b):
    w = a[1]
    if is_con(b):
        if cval(b) == 0:
            return a
        if is_con(a):
            return con(cval(a) >> cval(b), w)
        x = single(a)
        if x and x[0] == 'x' and x[1] == 'lshr' and is_con(x[4]) and cval(b) < w:
            if cval(x[4]) + cval(b) >= w:
                return con(0, w)
            return lshr(x[3], con(cval(x[4]) + cval(b), w))
    return X('lshr', w, a, shamt(b, w))


def ashr(a, b):
    w = a[1]
    if is_con(b):
        if cval(b) == 0:
            return a
        if is_con(a):
            return con(scval(a) >> cval(b), w)
        # (x << k) >> k  is a sign extension
        k = cval(b)
        if w - k in (8, 16, 32) and a[2] & mask(k) == 0 and all(c & mask(k) == 0 for _, c in a[3]):
            inner = ('l', w, a[2] >> k, tuple((x, c >> k) for x, c in a[3]))
            return sext(trunc(inner, w - k), w)
        x = single(a)
        if x and x[0] == 'x' and x[1] == 'ashr' and is_con(x[4]) and k < w and cval(x[4]) < w:
            return ashr(x[3], con(min(cval(x[4]) + k, w - 1), w))
    return X('ashr', w, a, shamt(b, w))


def divop(op, a, b):
    w = a[1]
    if is_con(a) and is_con(b) and cval(b) != 0:
        if op == 'udiv':
            return con(cval(a) // cval(b), w)
        if op == 'urem':
            return con(cval(a) % cval(b), w)
        p, q = scval(a), scval(b)
        r = abs(p) // abs(q) * (1 if (p < 0) == (q < 0) else -1)
        if op == 'sdiv':
            return con(r, w)
        return con(p - r * q, w)
    if is_con(b):
        if cval(b) == 1:
            return a if op in ('udiv', 'sdiv') else con(0, w)
        if scval(b) == -1 and op == 'sdiv':
            return scale(a, -1)
        if scval(b) == -1 and op == 'srem':
            return con(0, w)
    return X(op, w, a, b)


# ------------------------------------------------------------ floats
def i2f(t):
    a = single(t)
    if a and a[0] == 'f2i':
        return a[1]
    return ('i2f', t, t[1])


def f2i(f, w):
    if f[0] == 'i2f':
        return f[1]
    if f[0] == 'fop' and f[1] == 'fneg':
        return addc(f2i(f[3], w), 1 << (w - 1))      # flips the sign bit
    return atom(('f2i', f, w))


def fop(op, w, *args):
    if op in ('fadd', 'fmul'):
        args = tuple(sorted(args, key=repr))
    if op == 'fneg':
        a = args[0]
        t = f2i(a, w)
        return i2f(addc(t, 1 << (w - 1)))
    if op == 'fptrunc' and w == 32:
        x = args[0]
        # float op done in double and rounded once: the same result for + - * /
        if x[0] == 'fop' and x[1] in ('fadd', 'fsub', 'fmul', 'fdiv') and x[2] == 64 and \
                all(y[0] == 'fop' and y[1] == 'fpext' for y in x[3:]):
            return fop(x[1], 32, *[y[3] for y in x[3:]])
        if x[0] == 'fop' and x[1] == 'fpext' and x[3][-1] == 32:
            return x[3]
        if x[0] == 'fop' and x[1] == 'sitofp' and x[2] == 64:
            return ('fop', 'sitofp', 32, x[3])
    return ('fop', op, w) + tuple(args)


# ------------------------------------------------------------ conditions
FNEG = {'oeq': 'une', 'one': 'ueq', 'olt': 'uge', 'ole': 'ugt', 'ogt': 'ule', 'oge': 'ult',
        'ueq': 'one', 'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt',
        'ord': 'uno', 'uno': 'ord'}
FSWAP = {'ogt': 'olt', 'oge': 'ole', 'ugt': 'ult', 'uge': 'ule'}


def norm_diff(d):
    """canonical sign of a linear term compared with 0"""
    w = d[1]
    if d[3] and (d[3][0][1] >> (w - 1)):
        d = scale(d, -1)
    return d


LOWMASK = set()          # atoms known to be 2**k - 1


def low_mask_test(d):
    """d == +-((x & m) - x) for a low mask m: (x, m) or None"""
    if d[2]:
        pass
    for a, c in d[3]:
        if a[0] == 'x' and a[1] == 'and' and c in (1, mask(d[1])):
            for x, m in ((a[3], a[4]), (a[4], a[3])):
                z = single(m)
                while z is not None and z[0] == 'x' and z[1] in ('zext', 'sext') and \
                        z[3][0] == 'l':
                    z = single(z[3])
                if z in LOWMASK and sub(scale(d, 1 if c == 1 else -1), sub(atom(a), x)) == \
                        con(0, d[1]):
                    return x, m
    return None


def icmp(pred, a, b):
    w = a[1]
    if pred in ('eq', 'ne'):
        d = sub(a, b)
        if is_con(d):
            return (cval(d) == 0) == (pred == 'eq')
        if LOWMASK and len(d[3]) > 1:
            lm = low_mask_test(d)
            if lm is not None:
                r = icmp('ule', lm[0], lm[1])
                return r if pred == 'eq' else neg(r)
        # compare of extensions: compare the originals
        for kind in ('zext', 'sext'):
            for k in (8, 16, 32):
                if k < w:
                    p, q = unext(a, kind, k), unext(b, kind, k)
                    if p is not None and q is not None:
                        return icmp(pred, p, q)
        # (cond ? k : 0) against a constant
        if len(d[3]) == 1 and d[3][0][0][0] == 'x' and d[3][0][0][1] in ('zext', 'sext') and \
                d[3][0][0][3][0] != 'l':
            z, k = d[3][0]
            one = (k if z[1] == 'zext' else -k) & mask(w)
            if d[2] == 0:
                return z[3] if pred == 'ne' else neg(z[3])
            if (d[2] + one) & mask(w) == 0:
                return z[3] if pred == 'eq' else neg(z[3])
            return pred == 'ne'
        return (pred, norm_diff(d))
    if pred in ('sgt', 'sge', 'ugt', 'uge'):
        a, b = b, a
        pred = {'sgt': 'slt', 'sge': 'sle', 'ugt': 'ult', 'uge': 'ule'}[pred]
    if a == b:
        return pred in ('sle', 'ule')
    if is_con(a) and is_con(b):
        x, y = (scval(a), scval(b)) if pred[0] == 's' else (cval(a), cval(b))
        return x < y if pred.endswith('lt') else x <= y
    if pred[0] == 'u' and w == 64 and a[3] == b[3] and len(a[3]) == 1 and a[3][0][1] == 1 and \
            a[3][0][0][:2] in (('b', 'alloca'), ('b', 'g')) and \
            abs(scval(con(a[2], 64))) < 1 << 31 and abs(scval(con(b[2], 64))) < 1 << 31:
        # addresses within an object
        x, y = scval(con(a[2], 64)), scval(con(b[2], 64))
        return x < y if pred.endswith('lt') else x <= y
    # a <= c  ->  a < c+1 ;  c <= a -> c-1 < a
    if pred == 'sle':
        if is_con(b) and scval(b) < (1 << (w - 1)) - 1:
            return ('slt', a, addc(b, 1))
        if is_con(a) and scval(a) > -(1 << (w - 1)):
            return ('slt', addc(a, -1), b)
    if pred == 'ule':
        if is_con(b) and cval(b) == mask(w):
            return True
        if is_con(a) and cval(a) == 0:
            return True
        if is_con(b):
            return icmp('ult', a, addc(b, 1))
        if is_con(a):
            return ('ult', addc(a, -1), b)
    if pred == 'ult':
        if is_con(b) and cval(b) == 0:
            return False
        if is_con(b) and cval(b) == 1:
            return icmp('eq', a, con(0, w))
        if is_con(a) and cval(a) == 0:
            return icmp('ne', b, con(0, w))
    return (pred, a, b)


def fcmp(pred, a, b):
    if pred in FSWAP:
        return ('fcmp', FSWAP[pred], b, a)
    if pred in ('oeq', 'one', 'ueq', 'une', 'ord', 'uno') and repr(a) > repr(b):
        a, b = b, a
    x, y = fexact(a), fexact(b)
    if x is not None and y is not None and pred != 'ord' and pred != 'uno':
        return {'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y,
                'ge': x >= y}[pred[1:]]
    return ('fcmp', pred, a, b)


def fexact(x):
    if x[0] == 'fc' and x[1] in ('0', '1', '0.000000e+00', '1.000000e+00'):
        return float(x[1])
    if x[0] == 'fop' and x[1] == 'fpext':
        return fexact(x[3])


def neg(c):
    if c is True:
        return False
    if c is False:
        return True
    k = c[0]
    if k == 'eq':
        return ('ne', c[1])
    if k == 'ne':
        return ('eq', c[1])
    if k == 'slt':
        return icmp('sle', c[2], c[1])
    if k == 'sle':
        return icmp('slt', c[2], c[1])
    if k == 'ult':
        return icmp('ule', c[2], c[1])
    if k == 'ule':
        return icmp('ult', c[2], c[1])
    if k == 'fcmp':
        return fcmp(FNEG[c[1]], c[2], c[3])
    if k == 'and':
        return cor(neg(c[1]), neg(c[2]))
    if k == 'or':
        return cand(neg(c[1]), neg(c[2]))
    if k == 'bit':
        return ('nbit', c[1])
    if k == 'nbit':
        return ('bit', c[1])
    raise ValueError(c)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return ('and', a, b)


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return ('or', a, b)


# ------------------------------------------------------------ substitution
CONST_LOAD = None         # contents of constant tables (set by the engine)


def subst(t, m, memo=None):
    """replace atoms by terms (m: atom -> term) everywhere, re-normalising"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    key = t
    r = memo.get(key)
    if r is not None:
        return r
    k = t[0]
    if k == 'l':
        w = t[1]
        res = con(t[2], w)
        for a, c in t[3]:
            res = add(res, _subst_atom(a, m, memo), c)
    elif k == 'i2f':
        res = i2f(_subst(t[1], m, memo))
    elif k == 'fop':
        res = fop(t[1], t[2], *[_subst(x, m, memo) for x in t[3:]])
    elif k in ('fs', 'fc'):
        res = t
    else:
        res = subst_cond(t, m, memo)
    memo[key] = res
    return res


def _subst_atom(a, m, memo):
    if a in m:
        return m[a]
    k = a[0]
    if k in ('s', 'b'):
        return atom(a)
    if k == 'ld':
        b = a[1]
        off = _subst(a[2], m, memo)
        nb = m.get(b)
        if nb is not None:
            raise ValueError('base substitution')
        if is_con(off) and b[:2] == ('b', 'g') and CONST_LOAD is not None:
            c = CONST_LOAD(b, off, a[3])
            if c is not None:
                return c
        return atom(('ld', b, off, a[3], a[4]))
    if k == 'f2i':
        return f2i(_subst(a[1], m, memo), a[2])
    if k == 'x':
        return xbuild(a[1], a[2], *[(_subst(x, m, memo) if isinstance(x, tuple) else x)
                                    for x in a[3:]])
    raise ValueError(a)


def xbuild(op, w, *args):
    if op in BITS:
        return BITS[op](*args)
    if op == 'mul':
        return mul(*args)
    if op in ('shl', 'lshr', 'ashr'):
        return {'shl': shl, 'lshr': lshr, 'ashr': ashr}[op](*args)
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        return divop(op, *args)
    if op in ('zext', 'sext'):
        x = args[0]
        if x is True or x is False:
            return con((1 if op == 'zext' else -1) if x else 0, w)
        if x[0] != 'l':
            return X(op, w, x)
        return zext(x, w) if op == 'zext' else sext(x, w)
    if op == 'trunc':
        return trunc(args[0], w)
    return X(op, w, *args)


def subst_cond(c, m, memo=None):
    if memo is None:
        memo = {}
    if c is True or c is False:
        return c
    k = c[0]
    if k in ('eq', 'ne'):
        d = _subst(c[1], m, memo)
        return icmp(k, d, con(0, d[1]))
    if k in ('slt', 'sle', 'ult', 'ule'):
        return icmp(k, _subst(c[1], m, memo), _subst(c[2], m, memo))
    if k == 'fcmp':
        return fcmp(c[1], _subst(c[2], m, memo), _subst(c[3], m, memo))
    if k in ('and', 'or'):
        f = cand if k == 'and' else cor
        return f(subst_cond(c[1], m, memo), subst_cond(c[2], m, memo))
    if k in ('bit', 'nbit'):
        return (k, _subst(c[1], m, memo))
    raise ValueError(c)


VERSIONS = []            # contents of memory objects: (version, writes), atoms in them
_version_ids = {}


def version(ver, writes):
    """short name of the contents of a memory object"""
    if not writes:
        return ver
    k = (ver, tuple(writes))
    n = _version_ids.get(k)
    if n is None:
        n = _version_ids[k] = len(VERSIONS)
        at = set()
        atoms_of(ver, at)
        for w in writes:
            for x in w:
                atoms_of(x, at)
        VERSIONS.append((k, frozenset(at)))
    return ('v', n)


def atoms_of(t, out=None):
    """all atoms, at every depth"""
    if out is None:
        out = set()
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == 'v':
        out |= VERSIONS[t[1]][1]
        return out
    if t[0] == 'l':
        for a, _ in t[3]:
            if a not in out:
                out.add(a)
                for x in a[1:]:
                    if isinstance(x, tuple):
                        atoms_of(x, out)
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                atoms_of(x, out)
    return out


def subterms(t, out=None):
    """all linear terms inside t, and every atom as a term of its own"""
    if out is None:
        out = set()
    if not isinstance(t, tuple) or not t:
        return out
    if t[0] == 'l':
        if t in out:
            return out
        out.add(t)
        for a, _ in t[3]:
            if a[0] != 'b':
                out.add(atom(a))
            for x in a[1:]:
                if isinstance(x, tuple):
                    subterms(x, out)
    else:
        for x in t[1:]:
            if isinstance(x, tuple):
                subterms(x, out)
    return out


# ------------------------------------------------------------ printing
def show(t):
    if t is True or t is False:
        return str(t)
    k = t[0]
    if k == 'l':
        w = t[1]
        parts = []
        for a, c in t[3]:
            c = sgn(c, w)
            s = show_atom(a)
            parts.append(s if c == 1 else '-' + s if c == -1 else '%d*%s' % (c, s))
        c = sgn(t[2], w)
        if c or not parts:
            parts.append(str(c))
        return '(' + ' + '.join(parts) + ')' if len(parts) > 1 else parts[0]
    if k == 'i2f':
        return 'f(%s)' % show(t[1])
    if k == 'fop':
        return '%s(%s)' % (t[1], ', '.join(show(x) for x in t[3:]))
    if k in ('fs', 'fc'):
        return str(t[1])
    if k in ('eq', 'ne'):
        return '%s %s 0' % (show(t[1]), '==' if k == 'eq' else '!=')
    if k in ('slt', 'sle', 'ult', 'ule'):
        return '%s %s %s' % (show(t[1]), {'slt': '<', 'sle': '<=', 'ult': '<u', 'ule': '<=u'}[k],
                             show(t[2]))
    if k == 'fcmp':
        return '%s f%s %s' % (show(t[2]), t[1], show(t[3]))
    if k in ('and', 'or'):
        return '(%s %s %s)' % (show(t[1]), k, show(t[2]))
    if k in ('bit', 'nbit'):
        return '%s(%s)' % (k, show(t[1]))
    return repr(t)


def show_atom(a):
    k = a[0]
    if k == 's':
        return a[1]
    if k == 'b':
        return '&' + '.'.join(str(x) for x in a[2:])
    if k == 'ld':
        return '%s[%s]:%d' % (show_atom(a[1]), show(a[2]), a[3])
    if k == 'f2i':
        return 'bits(%s)' % show(a[1])
    if k == 'x':
        return '%s%d(%s)' % (a[1], a[2], ', '.join(show(x) if isinstance(x, tuple) else str(x)
                                                  for x in a[3:]))
    return repr(a)
