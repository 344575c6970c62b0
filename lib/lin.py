"""Exact rational linear arithmetic for the linear-inequality abstract domain.

A constraint is (coeffs: dict var->int, const) meaning  sum + const <= 0.
feasible(constraints, bounds) decides rational feasibility with the bounded
simplex method (exact fractions, Bland's rule).
"""
from fractions import Fraction as F


class TooBig(Exception):
    pass


def feasible(cons, bounds, limit=4000):
    """cons: list of (dict, c): sum coeffs*v + c <= 0.  bounds: var -> (lo, hi) or None"""
    # collapse single-variable constraints into bounds
    lo = {}
    hi = {}
    varset = set()
    rows = []
    used = set()
    for d, c in cons:
        used.update(d)
    for v in used:
        l, h = bounds[v]
        if l is not None:
            lo[v] = l
        if h is not None:
            hi[v] = h
    seen = {}
    for d, c in cons:
        d = {v: k for v, k in d.items() if k}
        if not d:
            if c > 0:
                return False
            continue
        if len(d) == 1:
            (v, k), = d.items()
            varset.add(v)
            b = F(-c, k)
            if k > 0:
                if v not in hi or b < hi[v]:
                    hi[v] = b
            else:
                if v not in lo or b > lo[v]:
                    lo[v] = b
            continue
        key = tuple(sorted(d.items()))
        if key in seen:
            if seen[key] >= c:
                continue
        seen[key] = c
    for key, c in seen.items():
        rows.append((dict(key), c))
        varset.update(v for v, _ in key)
    for v in varset:
        if v in lo and v in hi and lo[v] > hi[v]:
            return False
    if not rows:
        return True
    # tableau: basic slack s_i = sum a_ij x_j,  s_i <= -c
    vars_ = sorted(varset)
    order = {v: i for i, v in enumerate(vars_)}
    nvar = len(vars_)
    LO = {}
    HI = {}
    for v in vars_:
        LO[order[v]] = lo.get(v)
        HI[order[v]] = hi.get(v)
    T = {}
    for i, (d, c) in enumerate(rows):
        s = nvar + i
        T[s] = {order[v]: k for v, k in d.items()}
        LO[s] = None
        HI[s] = -c
    val = {}
    for j in range(nvar):
        if LO[j] is not None:
            val[j] = LO[j]
        elif HI[j] is not None:
            val[j] = HI[j]
        else:
            val[j] = 0
    for s, r in T.items():
        val[s] = sum((k * val[j] for j, k in r.items()), 0)
    steps = 0
    while True:
        steps += 1
        if steps > limit:
            raise TooBig()
        bad = None
        for s in sorted(T):
            if LO[s] is not None and val[s] < LO[s]:
                bad, target, up = s, LO[s], True
                break
            if HI[s] is not None and val[s] > HI[s]:
                bad, target, up = s, HI[s], False
                break
        if bad is None:
            return True
        r = T[bad]
        piv = None
        for j in sorted(r):
            k = r[j]
            if up:
                ok = (k > 0 and (HI[j] is None or val[j] < HI[j])) or \
                     (k < 0 and (LO[j] is None or val[j] > LO[j]))
            else:
                ok = (k < 0 and (HI[j] is None or val[j] < HI[j])) or \
                     (k > 0 and (LO[j] is None or val[j] > LO[j]))
            if ok:
                piv = j
                break
        if piv is None:
            return False
        # pivot bad <-> piv
        k = r[piv]
        theta = F(target - val[bad]) / k
        val[bad] = target
        val[piv] += theta
        for s, rs in T.items():
            if s != bad and piv in rs:
                val[s] += rs[piv] * theta
        nr = {j: F(-c) / k for j, c in r.items() if j != piv}
        nr[bad] = F(1) / k
        del T[bad]
        for s, rs in T.items():
            if piv in rs:
                c = rs.pop(piv)
                for j, x in nr.items():
                    y = rs.get(j, 0) + c * x
                    if y:
                        rs[j] = y
                    elif j in rs:
                        del rs[j]
        T[piv] = nr
