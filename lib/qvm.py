"""The QVM instruction set: numbering, operand sizes and meaning (the oracle of the checks).
Written from the published Quake III bytecode definition, not from the implementation."""

NAMES = ('UNDEF IGNORE BREAK ENTER LEAVE CALL PUSH POP CONST LOCAL JUMP EQ NE LTI LEI GTI GEI '
         'LTU LEU GTU GEU EQF NEF LTF LEF GTF GEF LOAD1 LOAD2 LOAD4 STORE1 STORE2 STORE4 ARG '
         'BLOCK_COPY SEX8 SEX16 NEGI ADD SUB DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR BCOM '
         'LSH RSHI RSHU NEGF ADDF SUBF DIVF MULF CVIF CVFI').split()
NUM = {n: i for i, n in enumerate(NAMES)}
COUNT = len(NAMES)
BRANCH = [n for n in NAMES if NUM['EQ'] <= NUM[n] <= NUM['GEF']]
OPERAND = {n: 0 for n in NAMES}
for _n in ['ENTER', 'LEAVE', 'CONST', 'LOCAL', 'BLOCK_COPY'] + BRANCH:
    OPERAND[_n] = 4
OPERAND['ARG'] = 1
# change of the number of values on the operand stack
DELTA = {n: 0 for n in NAMES}
for _n in BRANCH + ['STORE1', 'STORE2', 'STORE4', 'BLOCK_COPY']:
    DELTA[_n] = -2
for _n in 'JUMP POP ARG ADD SUB DIVI DIVU MODI MODU MULI MULU BAND BOR BXOR LSH RSHI RSHU ADDF ' \
          'SUBF DIVF MULF'.split():
    DELTA[_n] = -1
for _n in ('PUSH', 'CONST', 'LOCAL'):
    DELTA[_n] = 1
MAGIC = 0x12721444
