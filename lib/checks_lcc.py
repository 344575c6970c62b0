"""C32: constant folding in rcc."""
import lccfold as F
import lccaddr
import lccbase
from lccfold import *
from checks_asm import Finding
from report import Result

_L = None
TRUST = ('clang/opt front end trusted; x86-64 host (64 bit long); trees handed to simplify() have '
         'the types their operator says')


def lcc():
    global _L
    if _L is None:
        _L = F.Lcc()
    return _L


# undefined in C when the result overflows: a constant expression is diagnosed and any value do
UB = {('ADD', 'I'), ('SUB', 'I'), ('MUL', 'I'), ('DIV', 'I'), ('MOD', 'I'), ('NEG', 'I'),
      ('CVF', 'I'), ('ADD', 'F'), ('SUB', 'F'), ('MUL', 'F'), ('DIV', 'F'), ('CVF', 'F')}


def C32(tier):
    r = Result()
    L = lcc()
    n = paths = 0
    for g, s, sizes in OPS:
        for d, l in sizes:
            for generic in ((False,) if g in CMP else (False, True)):
                ctxt = '%s+%s, %d <- %d bytes' % (g, s, d, l)
                try:
                    run = Run(L, g, s, d, l, generic)
                except Incomplete as e:
                    r.obligations += 1
                    r.add([Finding('decided', str(e).split(': ')[0], str(e), ())], ctxt)
                    continue
                n += 1
                if not run.pol.rets:
                    r.add([Finding('handled', SRC, 'no path of simplify() handles %s+%s'
                                   % (g, s), ())], ctxt)
                for w, x in sorted(run.pol.divs.items()):
                    r.obligations += 1
                    if x:
                        r.add([Finding('divisor', w, 'the divisor %s may be 0: the compiler stops '
                                       'on the constant expression' % show(x[1])[:80], ())], ctxt)
                k = judge(r, run, ctxt)
                paths += k
    lccbase.contracts(r, L.c, L.o)
    lccaddr.checks(r)
    r.cover['calls of cnsttree()'] = lccbase.varargs(r)
    r.cover['operator and size combinations'] = n
    r.cover['paths'] = paths
    r.rule = ('on each path of simplify() the returned tree has the value of the operator, '
              'evaluates the same operands, and constants are stored normalised to their type; where a '
              'constant is needed operators of constants give constants; no division by zero while '
              'folding; addresses base + n are defined after their base, in the arena and scope of the '
              'base; integer constant expressions yield their value or a diagnostic')
    return r


def judge(r, run, ctxt):
    k = 0
    for st, val, where in run.pol.rets:
        for ctx in ([st.ctx] if len(st.cases) <= 1 else st.by_cases()):
            if impossible(ctx):
                continue
            k += 1
            r.obligations += 1
            run.ev = st.ev
            fs = one(run, st, ctx, val, where) or folded(run, st, ctx, val, where)
            r.add(fs, ctxt)
    return k


def lines(run, st):
    return tuple(run.pol.mod.where(t) for t, x in st.path)


def one(run, st, ctx, val, where):
    g, s = run.g, run.s
    needconst = ctx.entails(icmp('ne', run.eng.mem_load(st, ('b', 'g', 'needconst'), con(0, 64), 4,
                                                       ('int', 32)), con(0, 32)))
    warned = any(e[0] == 'warn' for e in st.ev)
    leaves = []
    try:
        got = run.den(run.pol, ctx, val, leaves)
        want, used = run.expected(ctx, leaves)
        if needconst and (g, s) in UB and warned or (g, s) in (('CVF', 'I'), ('CVF', 'F')) and \
                needconst:
            return []          # diagnosed or undefined
        if g in CMP or g in ('AND', 'OR', 'NOT'):
            # conditions are 0 or 1
            if not isinstance(got, bool) and got[0] == 'l' and not zero_one(ctx, got) and \
                    not (g in ('AND', 'OR') and same(run, ctx, got, want) is True):
                return [Finding('value', where, '%s+%s gives %s, not 0 or 1' % (g, s, show(got)),
                                lines(run, st))]
        if (g, s) == ('CVF', 'I'):
            if not_folded(run, val):
                return []
            want = want
        if (g, s) == ('CVF', 'F') and got != want and got == ('fop', 'fpext', 64,
                                                              ('fop', 'fptrunc', 32, run.leaf('L'))):
            got = want
        if not same(run, ctx, got, want):
            return [Finding('value', where, '%s+%s is replaced by a tree of the value %s instead '
                            'of %s' % (g, s, text(got), text(want)), lines(run, st))]
        if sorted(leaves) != sorted(used) and g not in ('AND', 'OR'):
            return [Finding('operands', where, '%s+%s: the operands evaluated are %s instead of %s'
                            % (g, s, sorted(leaves), sorted(used)), lines(run, st))]
    except Unnormal as e:
        if needconst and (g, s) in UB:
            return []
        return [Finding('normal', where, '%s+%s: %s' % (g, s, e), lines(run, st))]
    except Undecided as e:
        return [Finding('decided', where, '%s+%s: %s' % (g, s, e), lines(run, st))]
    return []


def constant(run, ctx, val):
    """is the tree a constant (calls that fold constants do so by induction)?"""
    a = single(val)
    if not a or a[0] != 's':
        return False
    if a[1] not in run.pol.calls:
        return run.isconst(ctx, a[1])
    fn, args, w = run.pol.calls[a[1]]
    if fn in ('cnsttree', 'consttree'):
        return True
    if fn == 'tree':
        return is_con(args[0]) and (run.L.ops.get(cval(args[0]) & 0x3FF) or ('',))[0] == 'CNST'
    if fn in ('simplify', 'eqtree', 'bittree'):
        kids = args[2:4] if fn == 'simplify' else args[1:3]
        return all(k == con(0, 64) or constant(run, ctx, k) for k in kids)
    if fn in ('retype', 'cast', 'cond'):
        return constant(run, ctx, args[0])
    return False


def defined(run):
    """what operands have to be like for the value to be defined: alternatives"""
    g, s = run.g, run.s
    if g in ('DIV', 'MOD') and s in 'IU':
        x, y = run.leaf('L'), run.leaf('R')
        nz = icmp('ne', y, con(0, 32))
        return [(nz,)] if s == 'U' else [(nz, icmp('ne', y, con(-1, 32))),
                                         (nz, icmp('ne', x, con(1 << 31, 32)))]
    if g in ('LSH', 'RSH'):
        y = sext(sym('V:R', 32), 64)
        return [(icmp('sle', con(0, 64), y), icmp('slt', y, con(32, 64)))]
    return [()]


def folded(run, st, ctx, val, where):
    """where a constant is needed, operators of constants are constants"""
    ops = ('L',) if run.unary else ('L', 'R')
    need = icmp('ne', run.eng.mem_load(st, ('b', 'g', 'needconst'), con(0, 64), 4, ('int', 32)),
                con(0, 32))
    kinds = [[]]
    for n in ops:
        kinds = [k + [(n, con(run.L.op('CNST', x), 32))] for k in kinds for x in run.constants(n)]
    for k in kinds:
        if (run.g, run.s) == ('ADD', 'P') and \
                sum(v == con(run.L.op('CNST', 'P'), 32) for n, v in k) != 1:
            continue
        m = {('s', 'op:' + n, 32): v for n, v in k}
        facts = [subst_cond(f, m) for f in ctx.facts]
        if any(f is False for f in facts):
            continue
        facts += [icmp('eq', sym('op:' + n, 32), v) for n, v in k] + [need]
        for d in defined(run):
            c = Ctx()
            for f in facts + list(d):
                if f is not True:
                    c.assume(f)
            if c.contradictory() or impossible(c):
                continue
            if not constant(run, c, val):
                return [Finding('folded', where, '%s+%s of constants is not folded to a constant'
                                % (run.g, run.s), lines(run, st))]
    return []


def not_folded(run, val):
    a = single(val)
    return bool(a) and a[1] in run.pol.calls and run.pol.calls[a[1]][0] == 'tree'


def zero_one(ctx, t):
    if is_con(t):
        return cval(t) in (0, 1)
    a = single(t)
    if a and a[0] == 'x' and a[1] == 'zext' and a[3][0] != 'l':
        return True
    return ctx.entails(icmp('ult', t, con(2, 32)))


def text(x):
    if isinstance(x, bool):
        return str(x)
    if x[0] == 'l':
        return show(x)[:160]
    return repr(x)[:200]
