"""C32: constant addresses (addrtree) and integer constant expressions (constexpr, intexpr) in simp.c."""
from checks_data import *


def checks(r):
    addresses(r)
    integers(r)


def order(ev, *names):
    return [e for e in ev if e[0] in names]


def addresses(r):
    """a constant added to the address of an object: a symbol of its own, base + n"""
    C = unit('simp.c', ('tree', 'stringd', 'genlabel', 'addlocal', 'code', 'simplify', 'cnsttree'))
    o, K = C.o, C.c
    for scope in ('GLOBAL', 'PARAM', 'LOCAL', 'inner'):
        for cls in ('AUTO', 'STATIC', 'EXTERN', 'REGISTER'):
            if cls == 'REGISTER' and scope == 'GLOBAL':
                continue
            sc = con(K['LOCAL'] + 2 if scope == 'inner' else K[scope], 32)
            glob_ = scope == 'GLOBAL' or cls in ('STATIC', 'EXTERN')
            ops = ('ADDRG',) if glob_ else ('ADDRF',) if scope == 'PARAM' else ('ADDRL',)
            for kind in ('POINTER', 'ARRAY'):
                t = {('e', o['tree', 'op']): con(K[ops[0]] + K['P'], 32),
                     ('e', o['tree', 'u.sym']): N('p'),
                     ('p', o['symbol', 'scope']): sc,
                     ('p', o['symbol', 'sclass']): con(K[cls], 32),
                     ('ty', o['type', 'op']): con(K[kind], 32),
                     ('ty', o['type', 'type']): N('elem')}

                def made(name):
                    def f(pol, eng, st, a):
                        v = pol.fresh(eng, name)
                        st.ctx.assume(icmp('ne', v, Z))
                        return v
                    return f
                R = running(r, C, 'addrtree', [N('e'), N('n'), N('ty')],
                            'base of scope %s, class %s' % (scope.lower(), cls.lower()), types=t,
                            live=('elem',), rule='address', pure=(), globals_={'IR': N('IR')},
                            returns={'code': made('code'), 'tree': made('tree'),
                                     'stringd': lambda p, e, s, a: N('label'),
                                     'genlabel': lambda p, e, s, a: sym('lab', 32)})
                for ctx, ev, val, where, st in R.paths():
                    try:
                        ev = [(e[1], e[2], e[3]) for e in st.ev if e[0] == 'call']
                        one_address(C, R, ctx, ev, val, st, ops[0], sc, cls, glob_, kind)
                    except No as e:
                        R.bad(where, str(e))


def one_address(C, R, ctx, ev, val, st, op, sc, cls, glob_, kind):
    o, K = C.o, C.c
    q = rd(R, st, val, o['tree', 'u.sym'])
    mk = [e for e in ev if e[0] == 'allocate']
    if len(mk) != 1 or q == N('p') or not single(q) or not single(q)[1].startswith('mem@'):
        raise No('the symbol of the address is not a new one')
    if glob_ and mk[0][1][1] != con(K['PERM'], 32):
        raise No('the symbol of the address of a static object is freed with the function')
    t = [e for e in ev if e[0] == 'tree']
    if len(t) != 1 or not eq(ctx, t[0][1][0], con(K[op] + K['P'], 32)) or t[0][1][1] != N('ty') or \
            t[0][1][2] != Z or t[0][1][3] != Z:
        raise No('makes no address node of the given type')
    if not eq(ctx, rd(R, st, q, o['symbol', 'scope'], 32), sc):
        raise No('the symbol has another scope than its base')
    c = rd(R, st, q, o['symbol', 'sclass'], 32)
    if not any(eq(ctx, c, con(K[x], 32)) for x in ((cls,) if cls != 'AUTO' or not glob_ else
                                                   ('AUTO', 'STATIC'))):
        raise No('the symbol has another storage class than its base')
    if rd(R, st, q, o['symbol', 'type']) != N('elem' if kind == 'POINTER' else 'ty'):
        raise No('the symbol has another type than what the address points at')
    b = C.bits['symbol', 'computed']
    f = rd(R, st, q, b // 8, 8)
    v = bitvec(f)
    if not v or v[b % 8] != 1:
        raise No('the symbol is not marked as computed')
    d = order(ev, 'address', 'code', 'addlocal')
    if glob_:
        if [(e[0], e[1]) for e in d] != [('address', (q, N('p'), N('n')))]:
            raise No('the address is not defined as base + n')
        return
    if [e[0] for e in d if e[0] != 'addlocal'] != ['code'] or \
            d[-1][1][0] != con(K['Address'], 32):
        raise No('the address is not defined when the function starts')
    if d[0][0] != 'addlocal' or any(e[1][0] != N('p') for e in d[:-1]):
        raise No('the address is defined before its base')
    for fld, w in (('u.addr.sym', q), ('u.addr.base', N('p')), ('u.addr.offset', N('n'))):
        g = [e[4] for e in st.ev if e[0] == 'store' and e[1][0] == 's' and
             e[1][1].startswith('code@') and e[2] == con(o['code', fld], 64)]
        if g[-1:] != [w]:
            raise No('the address is not defined as base + n')


def integers(r):
    """integer constant expressions: their value, or a diagnostic"""
    C = unit('simp.c', ('expr1', 'cast', 'simplify', 'addrtree', 'constexpr'))
    o, K = C.o, C.c
    need = sym('need', 32)
    for fn in ('constexpr', 'intexpr'):
        for op, s in (('CNST', 'I'), ('CNST', 'U'), ('CNST', 'F'), ('CNST', 'P'), ('INDIR', 'I'),
                      ('ADDRG', 'P'), ('RIGHT', 'I'), ('ADD', 'I')):
            t = {('e', o['tree', 'op']): con(K[op] + K[s], 32),
                 ('c', o['tree', 'op']): con(K['CNST'] + K['I'], 32),
                 ('c', o['tree', 'u.v']): sext(sym('val', 32), 64)}

            def during(pol, eng, st, a):
                v = eng.mem_load(st, ('b', 'g', 'needconst'), con(0, 64), 4, ('int', 32))
                st.ev += (('need', v),)
                return N('e')

            def cast(pol, eng, st, a):
                return N('c') if a[0] == N('e') and a[1] == N('inttype') else N('other')
            R = running(r, C, fn, [sym('tok', 32)] + [sym('n', 32)] * (fn == 'intexpr'),
                        '%s+%s' % (op, s), types=t, live=('other',), rule='constant',
                        facts=[icmp('sle', con(0, 32), need),
                               icmp('slt', need, con(1 << 20, 32))],
                        globals_={'needconst': need},
                        returns={'expr1': during, 'constexpr': during if fn == 'intexpr' else None,
                                 'cast': cast})
            for ctx, ev, val, where, st in R.paths():
                calls = [e for e in ev if e[0] in ('expr1', 'constexpr')]
                err = any(e[0] == 'error' for e in ev)
                if len(calls) != 1 or calls[0][1][0] != sym('tok', 32):
                    R.bad(where, 'the expression is not read')
                    continue
                if calls[0][0] == 'expr1' and not any(
                        e[0] == 'need' and known(ctx, icmp('ne', e[1], con(0, 32)))
                        for e in st.ev):
                    R.bad(where, 'constants are not required while the expression is read')
                g = glob(R, st, 'needconst', 32)
                if not eq(ctx, g, need):
                    R.bad(where, 'leaves needconst changed')
                if fn == 'constexpr':
                    if val != N('e') or err:
                        R.bad(where, 'does not return the expression')
                    continue
                ok = op == 'CNST' and s in 'IU'
                if err == ok:
                    R.bad(where, 'is %sdiagnosed' % ('' if err else 'not '))
                elif ok and not eq(ctx, val, sym('val', 32)):
                    R.bad(where, 'returns %s instead of the value' % show(val))
                elif not ok and not eq(ctx, val, sym('n', 32)):
                    R.bad(where, 'returns %s instead of the default' % show(val))
