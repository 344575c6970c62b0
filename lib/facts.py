"""Linear-inequality abstract domain over value-number terms.

A Ctx holds conditions that are true at a program point and decides, by exact
linear arithmetic with machine-integer wrap-around taken into account, whether
another condition follows.  "Does not follow" is always a possible answer.

Every atom has an integer variable for its signed value.  A linear term is used as
an exact linear expression only where it provably does not wrap; otherwise it gets a
variable of its own.
"""
from terms import *
import lin

MAXSPLIT = 6
_vid = {}
_vname = []


def vid(name):
    i = _vid.get(name)
    if i is None:
        i = len(_vname)
        _vid[name] = i
        _vname.append(name)
    return i


def eadd(a, b, k=1):
    d = dict(a[0])
    for v, c in b[0].items():
        x = d.get(v, 0) + c * k
        if x:
            d[v] = x
        elif v in d:
            del d[v]
    return d, a[1] + b[1] * k


def emul(e, k):
    return {v: c * k for v, c in e[0].items()}, e[1] * k


class System:
    """bounds + linear constraints (sum + const <= 0) + case splits"""

    def __init__(self):
        self.bounds = {}
        self.cons = []
        self.splits = []
        self.exprs = {}
        self.known = {}
        self.bad = False

    def copy(self):
        s = System()
        s.bounds = dict(self.bounds)
        s.cons = list(self.cons)
        s.splits = list(self.splits)
        s.exprs = dict(self.exprs)
        s.known = self.known
        s.bad = self.bad
        return s

    # ---------------------------------------------------------- variables
    def var(self, name, lo, hi):
        i = vid(name)
        if i not in self.bounds:
            self.bounds[i] = (lo, hi)
        return ({i: 1}, 0)

    def tighten(self, i, lo, hi):
        l, h = self.bounds[i]
        l2 = max(l, lo) if lo is not None else l
        h2 = min(h, hi) if hi is not None else h
        if (l2, h2) != (l, h):
            self.bounds[i] = (l2, h2)
            if l2 > h2:
                self.bad = True
            return True
        return False

    def le0(self, e):
        d, c = e
        if not d:
            if c > 0:
                self.bad = True
            return
        if len(d) == 1:
            (v, k), = d.items()
            if k > 0:
                ch = self.tighten(v, None, (-c) // k)
            else:
                ch = self.tighten(v, ceil_div(c, -k), None)
            if ch:
                self.propagate([v])
            return
        self.cons.append(e)
        if self.prop1(e):
            self.propagate(None)

    def eq0(self, e):
        self.le0(e)
        self.le0(({v: -c for v, c in e[0].items()}, -e[1]))

    def prop1(self, e):
        """bound propagation over one constraint; the changed variables"""
        d, c = e
        tot = c
        for v, k in d.items():
            l, h = self.bounds[v]
            tot += k * l if k > 0 else k * h
        ch = []
        for v, k in d.items():
            l, h = self.bounds[v]
            rest = tot - (k * l if k > 0 else k * h)
            # k*v <= -rest
            if k > 0:
                if self.tighten(v, None, (-rest) // k):
                    ch.append(v)
            else:
                if self.tighten(v, ceil_div(rest, -k), None):
                    ch.append(v)
        return ch

    def propagate(self, changed):
        for _ in range(4):
            ch = set()
            cs = set(changed) if changed is not None else None
            for e in self.cons:
                if cs is None or any(v in cs for v in e[0]):
                    ch.update(self.prop1(e))
                    if self.bad:
                        return
            if not ch:
                return
            changed = ch

    def rng(self, e):
        lo = hi = e[1]
        for v, c in e[0].items():
            l, h = self.bounds[v]
            if c < 0:
                l, h = h, l
            lo += c * l
            hi += c * h
        return lo, hi

    def within(self, e, lo, hi):
        l, h = self.rng(e)
        ok_l, ok_h = l >= lo, h <= hi
        if ok_l and ok_h:
            return True
        if len(e[0]) < 2:
            return False
        if not ok_h and not self.refuted((dict((v, -c) for v, c in e[0].items()), hi + 1 - e[1])):
            return False
        if not ok_l and not self.refuted((dict(e[0]), e[1] - lo + 1)):
            return False
        return True

    def refuted(self, e, splits=2):
        """e <= 0 is impossible"""
        return not self.feasible([e], splits, set(e[0]))

    # ---------------------------------------------------------- terms
    def satom(self, a):
        r = self.exprs.get(('s', a))
        if r is None:
            r = self._satom(a)
            self.exprs[('s', a)] = r
        return r

    def _satom(self, a):
        w = awidth(a)
        lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if a in self.known:
            l2, h2 = self.known[a]
            lo, hi = max(lo, l2), min(hi, h2)
        if a[0] == 'x':
            op = a[1]
            if op == 'sext' and a[3][0] == 'l':
                return self.signed(a[3])
            if op == 'zext':
                if a[3][0] == 'l':
                    return self.unsigned(a[3])
                return self.var(a, 0, 1)
            if op == 'trunc':
                e = self.signed(a[3])
                if self.within(e, lo, hi):
                    return e
                return self.var(a, lo, hi)
            if op == 'and':
                v = self.var(a, lo, hi)
                i = vid(a)
                for p in (a[3], a[4]):
                    ep = self.signed(p)
                    if self.within(ep, 0, hi):
                        self.tighten(i, 0, self.rng(ep)[1])
                        self.le0(eadd(v, ep, -1))
                return v
            if op == 'or':
                v = self.var(a, lo, hi)
                es = [self.signed(p) for p in (a[3], a[4])]
                if all(self.within(e, 0, hi) for e in es):
                    top = max(self.rng(e)[1] for e in es)
                    self.tighten(vid(a), 0, (1 << top.bit_length()) - 1)
                return v
            if op in ('lshr', 'udiv', 'ashr', 'sdiv') and is_con(a[4]):
                k = scval(a[4])
                if op in ('lshr', 'ashr'):
                    if not 0 <= k < w:
                        return self.var(a, lo, hi)
                    k = 1 << k
                if k > 0:
                    if op in ('lshr', 'udiv'):
                        u = self.unsigned(a[3])
                    else:
                        u = self.signed(a[3])
                        if op == 'sdiv' and not self.within(u, 0, hi):
                            return self.var(a, lo, hi)
                    l, h = self.rng(u)
                    if l // k < lo or h // k > hi:
                        return self.var(a, lo, hi)
                    v = self.var(a, l // k, h // k)
                    self.le0(eadd(emul(v, k), u, -1))
                    e = eadd(u, v, -k)
                    self.le0((e[0], e[1] - (k - 1)))
                    return v
            if op in ('urem', 'srem'):
                if is_con(a[4]) and scval(a[4]) > 0:
                    k = scval(a[4])
                    e = self.signed(a[3])
                    if op == 'urem' or self.within(e, 0, hi):
                        v = self.var(a, 0, k - 1)
                        if self.within(e, 0, hi):
                            self.le0(eadd(v, e, -1))
                        return v
                    return self.var(a, -(k - 1), k - 1)
                v = self.var(a, lo, hi)
                d = self.signed(a[4])
                if self.within(d, 1, hi):
                    e = self.signed(a[3])
                    if op == 'urem' or self.within(e, 0, hi):
                        self.tighten(vid(a), 0, None)
                        x = eadd(v, d, -1)
                        self.le0((x[0], x[1] + 1))
                    else:
                        x = eadd(v, d, -1)
                        self.le0((x[0], x[1] + 1))
                        x = eadd(emul(v, -1), d, -1)
                        self.le0((x[0], x[1] + 1))
                return v
            if op == 'shl' and is_con(a[3]) and cval(a[3]) == 1:
                # a power of two: 2**i for 0 <= i <= w-2
                v = self.var(a, lo, 1 << (w - 2))
                i = self.signed(a[4])
                if self.within(i, 0, w - 2):
                    self.tighten(vid(a), 1, 1 << (w - 2))
                    for k in range(w - 1):
                        # 2**i >= 2**k * (i - k + 1), with equality at k and k+1
                        e = eadd(emul(i, 1 << k), v, -1)
                        self.le0((e[0], e[1] + (1 << k) * (1 - k)))
                return v
        return self.var(a, lo, hi)

    def signed(self, t):
        r = self.exprs.get(('S', t))
        if r is None:
            r = self._val(t, True)
            self.exprs[('S', t)] = r
        return r

    def unsigned(self, t):
        r = self.exprs.get(('U', t))
        if r is None:
            r = self._val(t, False)
            self.exprs[('U', t)] = r
        return r

    def _val(self, t, signed):
        w = t[1]
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, mask(w))
        if is_con(t):
            return {}, (scval(t) if signed else cval(t))
        e = ({}, sgn(t[2], w))
        for a, c in t[3]:
            e = eadd(e, self.satom(a), sgn(c, w))
        if self.within(e, lo, hi):
            return e
        if not signed:
            a = single(t)
            if a is None:
                e2 = ({}, t[2])
                for a, c in t[3]:
                    e2 = eadd(e2, self.unsigned(atom(a)), sgn(c, w))
                if self.within(e2, lo, hi):
                    return e2
            # wraps at most once: u = s + 2**w * n, n = 1 iff s < 0
            l, h = self.rng(e)
            if l >= -(1 << w) and h <= mask(w):
                nm = ('neg', t)
                n = vid(nm)
                if n not in self.bounds:
                    self.bounds[n] = (0, 1)
                    self.splits.append([
                        [({n: 1}, 0), ({v: -c for v, c in e[0].items()}, -e[1])],
                        [({n: -1}, 1), (dict(e[0]), e[1] + 1)]])
                return eadd(e, ({n: 1 << w}, 0))
            return self.var(('U', t), lo, hi)
        return self.var(('S', t), lo, hi)

    # ---------------------------------------------------------- conditions
    def cond_cons(self, c):
        """list of constraints, list of splits"""
        k = c[0]
        if k in ('slt', 'sle', 'ult', 'ule'):
            f = self.signed if k[0] == 's' else self.unsigned
            e = eadd(f(c[1]), f(c[2]), -1)
            return [(e[0], e[1] + (1 if k.endswith('lt') else 0))], []
        if k in ('eq', 'ne'):
            a, b = split_diff(c[1])
            e = eadd(self.signed(a), self.signed(b), -1)
            m = ({v: -x for v, x in e[0].items()}, -e[1])
            if k == 'eq':
                r = [e, m]
                z = c[1]
                if len(z[3]) > 1:
                    e2 = eadd(self.unsigned(a), self.unsigned(b), -1)
                    r += [e2, ({v: -x for v, x in e2[0].items()}, -e2[1])]
                return r, []
            if not e[0]:
                return ([({}, 1)] if e[1] == 0 else []), []
            # x != c at the border of x's range is a bound
            if len(e[0]) == 1:
                (v, kk), = e[0].items()
                if e[1] % kk == 0:
                    val = -e[1] // kk
                    l, h = self.bounds[v]
                    if val == l:
                        return [({v: -1}, l + 1)], []
                    if val == h:
                        return [({v: 1}, -(h - 1))], []
                    if val < l or val > h:
                        return [], []
            return [], [[[(e[0], e[1] + 1)], [(m[0], m[1] + 1)]]]
        if k == 'and':
            a, s1 = self.cond_cons(c[1]) if not isinstance(c[1], bool) else ([], [])
            b, s2 = self.cond_cons(c[2]) if not isinstance(c[2], bool) else ([], [])
            return a + b, s1 + s2
        if k == 'or':
            alts = []
            flat = []
            st = [c]
            while st:
                x = st.pop()
                if x[0] == 'or':
                    st += [x[2], x[1]]
                else:
                    flat.append(x)
            if len(flat) > 6:
                return self.or_hull(flat), []
            for x in flat:
                a, s = self.cond_cons(x)
                alts.append(a)
            return [], [alts]
        return [], []

    def or_hull(self, flat):
        """t == c1 or t == c2 ...: the interval"""
        vals = []
        t0 = None
        for x in flat:
            if x[0] != 'eq':
                return []
            d = x[1]
            t = ('l', d[1], 0, d[3])
            if t0 is None:
                t0 = t
            elif t0 != t:
                return []
            vals.append(sgn(-d[2], d[1]))
        e = self.signed(t0)
        return [(e[0], e[1] - max(vals)), ({v: -c for v, c in e[0].items()}, -e[1] + min(vals))]

    def add(self, c):
        if c is True or self.bad:
            return
        if c is False:
            self.bad = True
            return
        cons, splits = self.cond_cons(c)
        for e in cons:
            self.le0(e)
        self.splits += splits

    def feasible(self, extra, nsplit, query=None):
        """are bounds + constraints (+ extra) satisfiable?  query: restrict to the constraints
        connected with these variables"""
        if self.bad:
            return False
        cons = self.cons
        splits = self.splits
        if query is not None:
            need = set(query)
            cl = [(e, set(e[0])) for e in cons]
            sl = [(s, set(v for alt in s for d, _ in alt for v in d)) for s in splits]
            used = []
            sused = []
            changed = True
            while changed:
                changed = False
                n2 = []
                for e, vs in cl:
                    if vs & need:
                        need |= vs
                        used.append(e)
                        changed = True
                    else:
                        n2.append((e, vs))
                cl = n2
                n2 = []
                for s, vs in sl:
                    if vs & need:
                        need |= vs
                        sused.append((s, len(vs & set(query))))
                        changed = True
                    else:
                        n2.append((s, vs))
                sl = n2
            cons = used
            sused.sort(key=lambda x: -x[1])
            splits = [s for s, _ in sused]
        try:
            return self._feas(cons + list(extra), splits, nsplit)
        except lin.TooBig:
            return True

    def _feas(self, cons, splits, depth):
        if not lin.feasible(cons, self.bounds):
            return False
        if not splits or depth <= 0:
            return True
        for alt in splits[0]:
            if self._feas(cons + alt, splits[1:], depth - 1):
                return True
        return False


def ceil_div(a, b):
    return -((-a) // b)


def split_diff(d):
    w = d[1]
    p = {}
    n = {}
    for a, c in d[3]:
        s = sgn(c, w)
        if s > 0:
            p[a] = s
        else:
            n[a] = -s
    c = sgn(d[2], w)
    return mk(w, c if c > 0 else 0, p), mk(w, -c if c < 0 else 0, n)


_memo = {}


class Ctx:
    def __init__(self, facts=(), known=None):
        self.facts = list(facts)
        self.known = known or {}
        self._sys = None
        self._nsys = 0
        self._key = None

    def copy(self):
        c = Ctx(self.facts, self.known)
        c._sys = self._sys
        c._nsys = self._nsys
        return c

    def assume(self, c):
        if c is True or c in self.facts:
            return
        self.facts.append(c)
        self._key = None

    def system(self):
        if self._sys is None:
            s = System()
            s.known = self.known
            self._nsys = 0
        else:
            if self._nsys == len(self.facts):
                return self._sys
            s = self._sys.copy()
        for f in self.facts[self._nsys:]:
            s.add(f)
        self._nsys = len(self.facts)
        self._sys = s
        return s

    def rebuild(self):
        """translate all facts again, knowing the bounds the first translation found"""
        old = self.system()
        s = System()
        s.known = self.known
        kn = dict(self.known)
        for i, (l, h) in old.bounds.items():
            nm = _vname[i]
            if isinstance(nm, tuple) and nm and nm[0] in ('s', 'ld', 'x', 'f2i', 'b'):
                kn[nm] = (l, h)
        s.known = kn
        for f in self.facts:
            s.add(f)
        return s

    def key(self):
        if self._key is None:
            self._key = frozenset(self.facts)
        return self._key

    def entails(self, c):
        if c is True:
            return True
        if c in self.facts:
            return True
        if c is False:
            return self.contradictory()
        if c[0] in ('fcmp', 'bit', 'nbit'):
            return False
        k = (self.key(), c)
        r = _memo.get(k)
        if r is None:
            r = self._entails(c)
            if len(_memo) > 200000:
                _memo.clear()
            _memo[k] = r
        return r

    def _entails(self, c):
        if c[0] == 'and':
            return self.entails(c[1]) and self.entails(c[2])
        if c[0] == 'or' and (self.entails(c[1]) or self.entails(c[2])):
            return True
        if self._try(self.system(), c):
            return True
        at = atoms_of(c)
        if len(self.facts) > 1 and any(len(fact_atoms(f) & at) for f in self.facts):
            return self._try(self.rebuild(), c)
        return False

    @staticmethod
    def _try(sys_, c):
        s = sys_.copy()
        n = len(s.splits)
        cons, splits = s.cond_cons(neg(c))
        if s.bad:
            return True
        q = set()
        for e in cons:
            q.update(e[0])
        for sp in splits:
            for alt in sp:
                for d, _ in alt:
                    q.update(d)
        for e in cons:
            if not e[0] and e[1] > 0:
                return True
        if not q:
            return False
        s.splits = splits + s.splits[n:] + s.splits[:n]
        return not s.feasible(cons, MAXSPLIT, q)

    def contradictory(self, deep=False):
        fs = set(self.facts)
        for f in self.facts:
            if f is False or (not isinstance(f, bool) and neg(f) in fs):
                return True
        if not self.system().feasible([], MAXSPLIT):
            return True
        if deep:
            # the order in which facts are translated matters: once more with what is known
            known = self.known
            try:
                for _ in range(2):
                    s = self.rebuild()
                    if s.bad or not s.feasible([], MAXSPLIT):
                        return True
                    self.known = s.known
            finally:
                self.known = known
        return False

    def le(self, a, b):
        return self.entails(icmp('sle', a, b))


_fa = {}


def fact_atoms(f):
    r = _fa.get(f)
    if r is None:
        r = frozenset(a for a in atoms_of(f) if a[0] != 'b')
        _fa[f] = r
    return r
