"""Planted bugs in q3asm (C18-C29)."""
Q = 'q3asm/q3asm.c'
SH = r'''#!/bin/bash
# run with cwd /repo after a build: 0 if the assembler behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
python3 "$D/demo.py" "$PWD/q3asm/q3asm" "$W"
'''
PY = r'''
import os, struct, subprocess, sys
ASM, W = sys.argv[1:3]
os.chdir(W)
def asm(*srcs, out='o', opts=()):
    """-> (exit status, image or None)"""
    names = []
    for k, s in enumerate(srcs):
        open('s%d.asm' % k, 'w').write(s)
        names.append('s%d' % k)
    r = subprocess.run([ASM, *opts, '-o', out] + names, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    p = out + '.qvm'
    return r.returncode, (open(p, 'rb').read() if os.path.exists(p) else None)
class Img:
    def __init__(self, b):
        self.magic, self.ic, self.co, self.cl, self.do, self.dl, self.ll, self.bl = struct.unpack_from('<8i', b)
        self.code, self.data, self.lit = b[self.co:self.co + self.cl], b[self.do:self.do + self.dl], b[self.do + self.dl:self.do + self.dl + self.ll]
        self.size = len(b)
    def ops(self):
        """[(opcode, operand)] of instructionCount instructions"""
        out, i = [], 0
        for n in range(self.ic):
            o = self.code[i]; i += 1
            v = None
            if o in (3, 4, 8, 9, 34) or 11 <= o <= 26:
                v = struct.unpack_from('<i', self.code, i)[0]; i += 4
            elif o == 33:
                v = self.code[i]; i += 1
            out.append((o, v))
        assert len(self.code) - i < 4 and not any(self.code[i:]), 'code behind the last instruction'
        return out
def good(*srcs, **k):
    rc, b = asm(*srcs, **k)
    assert rc == 0 and b, 'rc %s' % rc
    return Img(b)
MAIN = 'code\nproc vmMain 0 0\nCNSTI4 0\nRETI4\n%s\nendproc vmMain 0 0\n'
'''
SEEDS = []
def S(id, prop, needs, breaks, edits, py):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks,
                      edits=[(e if len(e) == 3 else (Q,) + e) for e in edits], files={'demo.sh': SH, 'demo.py': PY + py}))

S('asm-blockcopy-round', 'C20', 'a struct copy whose size is 1 modulo 4', 'the size of the block copy is rounded down',
  [("expression = (expression + 3) & ~3;", "expression = (expression + 2) & ~3;")],
  r'''
for n in range(1, 40):
    o = good(MAIN % ('ADDRLP4 0\nADDRLP4 0\nINDIRB\nASGNB %d' % n)).ops()
    assert (34, (n + 3) & ~3) in o, (n, o)
''')
S('asm-modu-signed', 'C20', 'an unsigned remainder in the program', 'the remainder is computed signed',
  [('q3asm/opstrings.h', '"MODU4", OP_MODU', '"MODU4", OP_MODI')],
  r'''
assert (43, None) in good(MAIN % 'CNSTI4 7\nCNSTI4 3\nMODU4\npop').ops()
''')
S('asm-bigcopy-count', 'C21', 'a block copy of 32768 bytes or more', 'the header counts one instruction too many',
  [("                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n",
    "                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n                if (opcode == OP_BLOCK_COPY && expression >= 0x8000)\n                    instructionCount++; /* copied in two parts */\n")],
  r'''
for n in (4, 0x7ffc, 0x8000, 0x10000):
    i = good(MAIN % ('ADDRLP4 0\nADDRLP4 0\nINDIRB\nASGNB %d' % n))
    assert i.ic == 8, i.ic
''')
S('asm-errors-per-pass', 'C22', 'an error that is only found in the first pass: a symbol defined twice',
  'the errors of the first pass are forgotten: exit status 0 and a .qvm file',
  [("        instructionCount = 0;\n", "        instructionCount = errorCount = 0;\n")],
  r'''
rc, b = asm(MAIN % '' + 'data\nLABELV x\nbyte 4 1\nLABELV x\nbyte 4 2\n')
assert rc != 0 and b is None, rc
''')
S('asm-stale-output', 'C22', 'an output file of an earlier run and an erroneous source',
  'the old .qvm file stays in place after a failed run',
  [("    remove(imageName);\n\n", ""), ("    report(\"Writing to %s\\n\", imageName);\n", "    report(\"Writing to %s\\n\", imageName);\n    remove(imageName);\n")],
  r'''
good(MAIN % '')
rc, b = asm(MAIN % 'ADDRGP4 nowhere\npop')
assert rc != 0 and b is None, rc
''')
S('asm-bss-aligned', 'C23', 'a lit segment whose length is no multiple of 16 and a bss symbol',
  'addresses of bss variables do not match where the loader puts the segment',
  [("        segment[BSSSEG].segmentBase =\n            segment[LITSEG].segmentBase + segment[LITSEG].imageUsed;",
    "        segment[BSSSEG].segmentBase = segment[LITSEG].segmentBase +\n                                      ((segment[LITSEG].imageUsed + 15) & ~15);")],
  r'''
for n in (1, 4, 5, 16, 17):
    i = good(MAIN % 'ADDRGP4 v\npop' + 'lit\nLABELV s\n' + 'byte 1 65\n' * n + 'bss\nLABELV v\nskip 4\n')
    assert (8, i.dl + i.ll) in i.ops(), (n, i.ops(), i.dl, i.ll)
''')
S('asm-small-lit', 'C23', 'a lit segment of exactly 4 bytes', 'the file is shorter than its header says',
  [("    SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n",
    "    if (segment[LITSEG].imageUsed > (int)sizeof(int))\n    {\n        SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n    }\n")],
  r'''
for n in (0, 1, 4, 5, 9):
    i = good(MAIN % '' + 'lit\nLABELV s\n' + 'byte 1 65\n' * n)
    assert i.size == 32 + i.cl + i.dl + i.ll, (n, i.size, i.cl, i.dl, i.ll)
''')
S('asm-arg-limit', 'C26', 'a call with 63 argument words', 'the offset of the last argument is stored as 0',
  [("if (8 + currentArgOffset >= 256)", "if (8 + currentArgOffset > 256)")],
  r'''
for n in (1, 61, 62, 63):
    rc, b = asm(MAIN % ('CNSTI4 1\nARGI4\n' * n + 'ADDRGP4 vmMain\nCALLI4\npop'))
    if rc == 0:
        a = [v for o, v in Img(b).ops() if o == 33]
        assert a == [8 + 4 * k for k in range(n)], a
    else:
        assert n > 62
''')
S('asm-endproc-frame', 'C26', 'a function whose locals are no multiple of 4 bytes and that ends without a return',
  'ENTER and LEAVE of the function use different frame sizes',
  [("        Parse();      // skip the function name\n        ParseValue(); // locals\n        ParseValue(); // arg marshalling\n",
    "        Parse(); // skip the function name\n        currentLocals = ParseValue(); // locals\n        currentArgs   = ParseValue(); // arg marshalling\n")],
  r'''
for n in (0, 4, 5, 6, 11):
    o = good('code\nproc f %d 12\nCNSTI4 0\nRETI4\nendproc f %d 12\n' % (n, n)).ops()
    s = {v for c, v in o if c in (3, 4)}
    assert len(s) == 1, o
''')
S('asm-skip-symbol', 'C28', 'skip with a symbol that is defined later in the source',
  'the two passes lay out different segments: labels behind the skip are wrong',
  [("        STAT(\"SKIP\");\n        v = ParseValue();\n", "        STAT(\"SKIP\");\n        Parse();\n        v = ParseExpression();\n")],
  r'''
i = good(MAIN % 'ADDRGP4 b\npop' + 'data\nLABELV a\nskip N\nLABELV b\nbyte 4 77\nLABELV c\nbyte 4 88\nequ N 4\n')
a = [v for o, v in i.ops() if o == 8][1]
assert struct.unpack_from('<ii', i.data, a) == (77, 88), (a, i.data)
''')
S('asm-address-data', 'C29', 'a struct with a char member followed by a pointer member',
  'the pointer is stored in the data segment, away from the rest of the object',
  [("        EmitInt(currentSegment, v);\n        if (passNumber", "        EmitInt(&segment[DATASEG], v);\n        if (passNumber")],
  r'''
i = good(MAIN % '' + 'lit\nLABELV s\nbyte 1 65\nbyte 1 66\nbyte 1 67\nbyte 1 68\naddress s\n')
assert i.lit[:4] == b'ABCD' and len(i.lit) == 8 and struct.unpack_from('<i', i.lit, 4)[0] == i.dl, (i.lit, i.data)
''')
S('asm-line-prefix', 'C19', 'a misspelt directive such as "lines" or "linen"',
  'an unknown line is dropped without an error',
  [('if (!strcmp(token, "line"))', 'if (!strncmp(token, "line", 4))')],
  r'''
for w in ('linear', 'lines', 'lin', 'bytes', 'foo'):
    rc, b = asm(MAIN % (w + ' 1 2'))
    assert rc != 0 and b is None, w
''')
S('asm-bss-lit', 'C19', 'a lit directive right after the bss segment was selected',
  'literals stay in the bss segment',
  [("        currentSegment = &segment[LITSEG];\n        return 1;", "        if (currentSegment < &segment[BSSSEG])\n            currentSegment = &segment[LITSEG];\n        return 1;")],
  r'''
i = good(MAIN % 'ADDRGP4 s\npop' + 'bss\nLABELV b\nskip 4\nlit\nLABELV s\nskip 4\n')
assert i.ll == 4 and (8, i.dl) in i.ops(), (i.ll, i.ops())
''')
