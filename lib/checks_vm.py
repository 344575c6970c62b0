"""The checks of src/vm/vm.c, one function per property."""
from report import Result
from vmpost import *
from vmsem import Interp, IMG, CODE, IP, VMB
from vmspec import SpecCheck
import llir
from llir import Const
import qvm

_cache = {}

TRUST = ('clang -O0 and the mem2reg/inline/unroll passes of opt preserve the meaning of the '
         'source; distinct allocations do not overlap; the host callbacks Com_Error, Com_malloc, '
         'Com_free and printf leave vm_t and VM memory alone; x86-64 va_list layout')
ORACLE_D = {i: 2 if qvm.OPERAND[qvm.NAMES[i]] else 1 for i in range(qvm.COUNT)}
ORACLE_BR = {qvm.NUM[n] for n in qvm.BRANCH}
VARIANTS = ('goto', 'switch')


def memo(key, fn):
    if key not in _cache:
        try:
            _cache[key] = ('ok', fn())
        except Incomplete as e:
            _cache[key] = ('inc', e)
    k, v = _cache[key]
    if k == 'inc':
        raise v
    return v


def mod(variant='goto'):
    return memo(('mod', variant), lambda: load_module(variant))


def loader():
    return memo('loader', lambda: LoaderCheck(mod()).run())


def loader_post():
    return memo('post', lambda: LoaderPost(loader()))


def free_check():
    return memo('free', lambda: FreeCheck(mod()))


def bridge():
    return memo('bridge', lambda: BridgeCheck(mod()))


def interp(variant, real_loader=False):
    def go():
        if real_loader:
            L = loader()
            D = L.walk1['D'] if L.walk1 else {}
            br = L.walk2['br'] if L.walk2 else set()
        else:
            D, br = ORACLE_D, ORACLE_BR
        return Interp(variant, {'D': D, 'br': br})
    return memo(('interp', variant, real_loader), go)


def spec_check(variant, real_loader=False):
    return memo(('spec', variant, real_loader),
                lambda: SpecCheck(interp(variant, real_loader)))


def pick(r, pairs, tags, ctx=''):
    r.add([f for t, f in pairs if t in tags], ctx)


def interp_result(r, tags=(), bases=None, rules=(), real=False, divs=False):
    """findings of the interpreter analysis, both dispatch variants"""
    for v in VARIANTS:
        try:
            I = interp(v, real)
            C = spec_check(v, real)
        except Incomplete as e:
            r.add([Finding('not-established', 'src/vm/vm.c (VM_Call)', str(e))], v)
            continue
        ctx = '%s dispatch' % ('computed goto' if v == 'goto' else 'switch')
        for f in I.pol.findings:
            if f.rule in rules or (bases and f.rule in ('bounds', 'code-write') and
                                   bases(I, getattr(f, 'base', None))):
                r.add([f], ctx)
        pick(r, C.out, tags, ctx)
        if divs:
            r.add(I.pol.divs, ctx)
        r.count('opcode_handlers', len(I.summ))
        r.count('handler_paths', sum(len(s.arrivals) + len(s.returns) for s in I.summ.values()))
        r.obligations += C.obligations
        if bases:
            n = sum(1 for k in I.pol.ok)
            r.obligations += n
            r.count('access_sites', len(I.pol.sites))


def established(r, where, fn):
    try:
        return fn()
    except Incomplete as e:
        r.add([Finding('not-established', where, str(e))])
        return None


CREATE = 'src/vm/vm.c (VM_Create)'


def C01(tier):
    r = Result()
    r.rule = ('abstract interpretation (value numbers + linear constraints) of VM_Call: every '
              'load, store, memset and memcpy a handler performs on the data segment lies in '
              '[0, dataMask + 5); VM_Call never changes the segment, its mask or any other '
              'pointer of the VM; VM_Create establishes that the mask is 2^n - 1 and the '
              'allocation has dataMask + 5 bytes')
    interp_result(r, bases=lambda I, b: b not in (CODE, IP, I.S, I.Sobj), real=True,
                  rules=('wild-pointer', 'unknown-object', 'immutable-field', 'unknown-call',
                         'alloc', 'no-wrap'))
    P = established(r, CREATE, loader_post)
    if P:
        pick(r, P.out, ('guarantee',))
        r.obligations += P.nsucc * 12
    for v in VARIANTS:
        try:
            r.count('data_segment_accesses', interp(v, True).pol.confined)
        except Incomplete:
            pass
    return r


def C02(tier):
    r = Result()
    r.rule = ('every handler either continues at the next instruction, at an operand the loader '
              'translated through the jump table, at an entry of the jump table (index checked), '
              'or at a return address inside the code whose preceding word is OP_CALL; code '
              'fetches and jump table reads stay inside their allocations and neither is written')
    interp_result(r, tags=('pc', 'code-fetch'), bases=lambda I, b: b in (CODE, IP), real=True,
                  rules=('code-write', 'wild-pointer'))
    L = established(r, CREATE, loader)
    if L:
        r.add(L.walk_bad)
        r.count('translated_opcodes', len(L.walk2['br']) if L.walk2 else 0)
    P = established(r, CREATE, loader_post)
    if P:
        pick(r, P.out, ('decode', 'opcode', 'guarantee'))
    return r


def C03(tier):
    r = Result()
    r.rule = ('every access of the operand stack is inside the local array for all 256 values of '
              'the stack index, the index stays in 0..255, and the array is cleared before the '
              'first instruction')
    interp_result(r, tags=('stack', 'init'), bases=lambda I, b: b in (I.S, I.Sobj),
                  rules=('wild-pointer',))
    return r


def C04(tier):
    r = Result()
    r.rule = ('abstract interpretation of VM_Create over an arbitrary byte image of the given '
              'length: every access of the image, the header copy, the code, data and jump table '
              'allocations is in bounds and after a null check')
    L = established(r, CREATE, loader)
    if L:
        r.add([f for f in L.findings if f.rule != 'const-bytecode'])
        r.obligations += len(L.sites)
        r.count('access_sites', len(L.sites))
        r.count('paths', len(L.returns))
        r.count('lockstep_accesses', len(L.lockstep))
        if not L.sites:
            raise Anchor('no access analysed')
    return r


def C05(tier):
    r = Result()
    r.rule = ('on every successful path the facts collected by branching imply every header '
              'condition; every failing path contradicts well-formedness of the image')
    P = established(r, CREATE, loader_post)
    L = established(r, CREATE, loader)
    if L:
        r.add([f for f in L.walk_bad if f.rule == 'branch-range'])
    if P:
        pick(r, P.out, ('reject', 'accept', 'fetch', 'opcode'))
        r.obligations += P.obligations
        r.count('success_paths', P.nsucc)
        r.count('failure_paths', P.nfail)
    return r


def C06(tier):
    r = Result()
    r.rule = ('the decoder\'s table (opcode byte -> words, operand bytes, translated operand), '
              'recovered from the loop summaries, equals the instruction set table for all 256 '
              'byte values; operands are assembled little endian; the same widths are used in '
              'both passes')
    L = established(r, CREATE, loader)
    if L:
        r.add(L.walk_bad)
        r.count('opcodes', len(L.walk1['D']) if L.walk1 else 0)
    P = established(r, CREATE, loader_post)
    if P:
        pick(r, P.out, ('decode', 'opcode'))
        r.obligations += 256 + qvm.COUNT
    return r


def C07(tier):
    r = Result()
    r.rule = ('the path summaries of every handler (operand stack, program counter, program '
              'stack, data segment, host calls) equal the definition of the instruction, for '
              'both dispatch variants')
    interp_result(r, tags=('semantics', 'pc'), real=True, rules=('unknown-call',))
    for v in VARIANTS:
        try:
            I = interp(v, True)
        except Incomplete:
            continue
        r.samples += ['OP_%s: %d paths' % (qvm.NAMES[o], len(s.arrivals) + len(s.returns))
                      for o, s in list(I.summ.items())[3:8]]
    return r


def C08(tier):
    r = Result()
    r.rule = ('every integer division or remainder in the VM is reached only with a divisor that '
              'is not 0 and (signed) not INT_MIN / -1')
    interp_result(r, divs=True)
    for v in VARIANTS:
        try:
            n = interp(v).pol.div_ok + len(interp(v).pol.divs)
        except Incomplete:
            continue
        r.count('division_paths', n)
        r.obligations += n
    # and nowhere else
    m = build.module('src/vm/vm.c', ['-I' + build.REPO + '/src/vm'], build.SSA, 'plain',
                     indirect=True)
    k = 0
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op in ('sdiv', 'udiv', 'srem', 'urem'):
                k += 1
    r.count('division_instructions', k)
    return r


def C09(tier):
    r = Result()
    r.rule = ('every failing way out of VM_Create, VM_Call and VM_Free passes a Com_Error call; '
              'the code left in vm_t equals the reported code and is not 0; the return value is '
              'the failure value; successful ways report nothing')
    interp_result(r, tags=('error',))
    for fn, w in ((loader_post, CREATE), (free_check, 'src/vm/vm.c (VM_Free)')):
        P = established(r, w, fn)
        if P:
            pick(r, P.out, ('error',))
            r.obligations += P.obligations
    return r


def C10(tier):
    r = Result()
    r.rule = ('on every failing way out of VM_Create each allocation is released exactly once '
              'with its type and the VM is left empty; on success each is owned by its member; '
              'VM_Free releases each member once, with the type it was allocated with')
    for fn, w in ((loader_post, CREATE), (free_check, 'src/vm/vm.c (VM_Free)')):
        P = established(r, w, fn)
        if P:
            pick(r, P.out, ('resource',))
            r.obligations += P.obligations
    L = established(r, CREATE, loader)
    if L:
        r.count('allocation_sites', len({i.uid for i, _ in L.mallocs}))
        r.count('paths', len(L.returns))
    interp_result(r, rules=('alloc',))
    return r


def C11(tier):
    r = Result()
    r.rule = ('every way out of VM_Call leaves programStack and callLevel as on entry and '
              'currentlyInterpreting set exactly when an outer call is running; no handler '
              'changes them otherwise; during a host call programStack is below the frame in use')
    interp_result(r, tags=('state', 'syscall'), rules=('immutable-field',))
    return r


def C12(tier):
    r = Result()
    r.rule = ('the handler of OP_CALL with a negative operand stores the return address and the '
              'call number, passes the VM and 16 sign-extended words read at program stack + 4 '
              '+ 4i (masked), pushes the truncated result and continues behind the call')
    interp_result(r, tags=('syscall',))
    for v in VARIANTS:
        try:
            C = spec_check(v)
        except Incomplete:
            continue
        r.add([f for t, f in C.out if t == 'semantics' and f.text.startswith('OP_CALL')], v)
    return r


def C13(tier):
    r = Result()
    r.rule = ('on the way from VM_Call to the first dispatch the frame at vm.programStack - 60 '
              'holds -1, 0, the command and the 12 further arguments in order; the value '
              'returned on the -1 return address is the top of the operand stack')
    interp_result(r, tags=('frame',))
    for v in VARIANTS:
        try:
            C = spec_check(v)
        except Incomplete:
            continue
        r.add([f for t, f in C.out if t == 'semantics' and f.text.startswith('OP_LEAVE')], v)
    return r


def C14(tier):
    r = Result()
    r.rule = ('no store, memset or memcpy of the loader targets the caller\'s bytecode; no member '
              'of the VM keeps a pointer into it')
    L = established(r, CREATE, loader)
    if L:
        r.add([f for f in L.findings if f.rule == 'const-bytecode'])
        r.obligations += len(L.sites)
        r.count('access_sites', len(L.sites))
        for st, ins, val in L.returns:
            reg = st.mem.get(L.vmb)
            for x in (reg.writes if reg else ()):
                if x[0] == 'fill':
                    continue
                r.obligations += 1
                if isinstance(x[2], tuple) and x[2][0] == 'l' and any(
                        a == L.bcb for a, k in x[2][3]):
                    r.add([Finding('retained', L.mod.where(ins), 'vm_t keeps the pointer %s into '
                                   'the caller\'s bytecode' % show(x[2]))])
        # no write through a pointer the analysis lost
        r.add([f for f in L.findings if f.rule in ('wild-pointer', 'unknown-object')])
    return r


HOST = {'Com_Error', 'Com_malloc', 'Com_free'}
PURE = {'memset', 'memcpy', 'memmove', 'strncpy', 'strlen', 'printf', 'va_start', 'va_end',
        'va_copy', 'strcmp', 'strncmp', 'strcpy', 'memcmp', 'snprintf', 'fprintf', 'abs',
        'strnlen', 'puts', 'putchar'}


def globals_in(v, out=None):
    """the globals an operand mentions"""
    if out is None:
        out = set()
    if isinstance(v, llir.GlobalRef):
        out.add(v.name)
    elif isinstance(v, Const):
        todo = v.val if isinstance(v.val, (list, tuple)) else ()
        for x in todo:
            if isinstance(x, (list, tuple)):
                for y in x:
                    globals_in(y, out)
            else:
                globals_in(x, out)
    return out


# VM_Debug sets the process wide debug level, which release builds never read
SHARED_OK = {('VM_Debug', 'vm_debugLevel')}


def C15(tier):
    r = Result()
    r.rule = ('effect analysis of the compiled translation unit (both dispatch variants): no '
              'function refers to a global or static variable that anything in the unit writes '
              '(except VM_Debug, which sets the debug level no release code reads), and calls '
              'reach only the three host callbacks, the system call handler and C library '
              'functions without global state')
    for v in VARIANTS:
        m = build.module('src/vm/vm.c', ['-I' + build.REPO + '/src/vm'] + (
            ['-U__GNUC__'] if v == 'switch' else []), build.SSA, 'iso' + v, indirect=True)
        if 'VM_Call' not in m.funcs:
            raise Anchor('VM_Call not found')
        ro = m.readonly_globals()
        for f in m.funcs.values():
            r.count('functions', 1)
            for i in f.instrs():
                where = m.where(i)
                ops = list(i.ops)
                if i.op in ('call', 'invoke'):
                    r.obligations += 1
                    r.count('call_sites', 1)
                    c = i.x['callee']
                    if isinstance(c, llir.GlobalRef) and c.name not in m.funcs:
                        n = c.name
                        b = n.split('.')[1] if n.startswith('llvm.') else n
                        if not (n in HOST or b in PURE or n.startswith('llvm.')):
                            r.add([Finding('host-effect', where, 'calls %s, which is neither a '
                                           'host callback nor free of global effects' % n)], v)
                for o in ops:
                    for g in globals_in(o):
                        gv = m.globals.get(g)
                        if gv is None or gv.const or g in ro:
                            continue
                        r.obligations += 1
                        if (f.name, g) in SHARED_OK and i.op == 'store' and \
                                isinstance(i.ops[0], llir.Arg):
                            continue
                        r.add([Finding('shared-state', where, '%s of the variable "%s", which '
                                       'is shared by all virtual machines' % (i.op, g))], v)
            r.obligations += 1
    return r


def C16(tier):
    r = Result()
    r.rule = ('on every successful path of VM_Create: the segment has 2^n + 4 bytes with 2^n >= '
              'data + lit + bss, it is cleared, then filled with the data and lit bytes of the '
              'file; the stack starts at its end; no handler reaches the last byte')
    L = established(r, CREATE, loader)
    if L:
        r.add(L.swap_bad)
        r.obligations += L.swaps
    P = established(r, CREATE, loader_post)
    if P:
        pick(r, P.out, ('guarantee', 'image'))
        r.obligations += P.nsucc * 14
        r.count('success_paths', P.nsucc)
    return r


def C17(tier):
    r = Result()
    r.rule = ('VM_ArgPtr returns NULL exactly for address 0 and otherwise dataBase + (address & '
              'dataMask); VM_MemoryRangeValid succeeds exactly for ranges inside the segment; '
              'the float converters keep the bits')
    P = established(r, 'src/vm/vm.c', bridge)
    if P:
        pick(r, P.out, ('bridge',))
        r.obligations += P.obligations
    return r
