"""What the assembly mnemonics mean (the oracle of the q3asm checks), written from the lcc operator
naming: <operator><type><size>."""
import qvm

INTS = ('I4', 'U4')
SPEC = {}        # mnemonic -> ('op', name, operand) | ('ignore',) | ('error',) | ('sex',)


def _op(names, op, operand=None):
    for n in names:
        SPEC[n] = ('op', op, operand)


_op(['CNST' + t for t in ('F4', 'I4', 'P4', 'U4', 'I2', 'U2', 'I1', 'U1')], 'CONST', 'expr')
_op(['ADDRGP4'], 'CONST', 'expr')
for _o, _v in (('ASGN', 'STORE'), ('INDIR', 'LOAD')):
    _op([_o + t for t in ('F4', 'I4', 'P4', 'U4')], _v + '4')
    _op([_o + t for t in ('I2', 'U2')], _v + '2')
    _op([_o + t for t in ('I1', 'U1')], _v + '1')
_op(['ASGNB'], 'BLOCK_COPY', 'words')
for _n in ('ADD', 'SUB'):
    _op([_n + 'F4'], _n + 'F')
    _op([_n + t for t in ('I4', 'U4', 'P4')], _n)
for _n in ('MUL', 'DIV'):
    for _t in 'FIU':
        _op([_n + _t + '4'], _n + _t)
for _n in ('MOD', 'RSH'):
    for _t in 'IU':
        _op([_n + _t + '4'], _n + _t)
_op(['LSHI4', 'LSHU4'], 'LSH')
for _n in ('BAND', 'BOR', 'BXOR', 'BCOM'):
    _op([_n + t for t in INTS], _n)
_op(['NEGF4'], 'NEGF')
_op(['NEGI4'], 'NEGI')
for _n in ('EQ', 'NE'):
    _op([_n + 'F4'], _n + 'F', 'expr')
    _op([_n + t for t in INTS], _n, 'expr')
for _n in ('LT', 'LE', 'GT', 'GE'):
    for _t in 'FIU':
        _op([_n + _t + '4'], _n + _t, 'expr')
_op(['JUMPV'], 'JUMP')
_op(['BREAK'], 'BREAK')
_op(['CVIF4'], 'CVIF', 'size')
_op(['CVFI4'], 'CVFI', 'size')
SPEC['CVII4'] = ('sex',)
# conversions that change nothing on a machine with 32 bit registers; the block operand of ASGNB
for _n in ('INDIRB CVII1 CVII2 CVIU4 CVPU4 CVUI4 CVUP4 CVUU4 CVUU1 CVUU2').split():
    SPEC[_n] = ('ignore',)
# (CVUI1, CVUI2, CVIU1, CVIU2 and the like have no row: q3asm reports them)
CALLS = ['CALL' + t for t in ('F4', 'I4', 'P4', 'U4', 'V')]
RETS = ['RET' + t for t in ('F4', 'I4', 'P4', 'U4', 'V')]
ARGS = ['ARG' + t for t in ('F4', 'I4', 'P4', 'U4')]
DIRECTIVES = ['export', 'import', 'code', 'data', 'lit', 'bss', 'line', 'file', 'equ', 'align',
              'skip', 'byte', 'address', 'LABELV', 'proc', 'endproc', 'pop', 'ADDRLP4', 'ADDRFP4']
# the first token of every other line q3asm accepts: the whole token, or the start of a token
EXACT = ['export', 'import', 'code', 'data', 'lit', 'bss', 'line', 'file', 'equ', 'align',
         'skip', 'byte', 'address', 'proc', 'endproc']
STARTS = ['CALL', 'ARG', 'RET', 'pop', 'ADDRF', 'ADDRL', 'LABEL']
