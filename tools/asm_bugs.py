Q = 'q3asm/q3asm.c'
EDITS = []
def B(name, exp, *edits, file=Q):
    EDITS.append((name, 'bug', file, list(edits), exp.split()))

# mnemonics and operands
B('emitint-order', 'C20 C29', ("seg->image[seg->imageUsed + 1] = (v >> 8) & 255;\n    seg->image[seg->imageUsed + 2] = (v >> 16) & 255;", "seg->image[seg->imageUsed + 1] = (v >> 16) & 255;\n    seg->image[seg->imageUsed + 2] = (v >> 8) & 255;"))
B('emitint-short', 'C20', ("seg->image[seg->imageUsed + 3] = (v >> 24) & 255;", "seg->image[seg->imageUsed + 3] = (v < 0) ? 255 : 0;"))
B('bc-round-down', 'C20', ("expression = (expression + 3) & ~3;\n", "expression = expression & ~3;\n"))
B('bc-round-one', 'C20', ("expression = (expression + 3) & ~3;\n", "expression = (expression + 4) & ~3;\n"))
B('sex-swap', 'C20', ("opcode = OP_SEX8;\n                }\n                else if (token[0] == '2')\n                {\n                    opcode = OP_SEX16;", "opcode = OP_SEX16;\n                }\n                else if (token[0] == '2')\n                {\n                    opcode = OP_SEX8;"))
B('sex-other', 'C20', ("else if (token[0] == '2')\n", "else if (token[0] >= '2')\n"))
B('sex-no-return', 'C20', ("                    CodeError(\"Bad sign extension: %s\\n\", token);\n                    return;", "                    opcode = OP_SEX16;"))
B('op-cvif-swap', 'C20', ('{ "CVFI4", OP_CVFI },', '{ "CVFI4", OP_CVIF },'), file='q3asm/opstrings.h')
B('op-rshu', 'C20', ('OP_RSHU', 'OP_RSHI'), file='q3asm/opstrings.h')
B('op-asgnf4', 'C20', ('{ "ASGNF4", OP_STORE4', '{ "ASGNF4", OP_STORE2'), file='q3asm/opstrings.h')
B('hasop-no-gef', 'C20 C21', ("opcode <= OP_GEF);", "opcode < OP_GEF);"))
B('hasop-no-bc', 'C20 C21', ("opcode == OP_CONST || opcode == OP_BLOCK_COPY ||", "opcode == OP_CONST ||"))
B('hasop-not-checked', 'C21', ("if (HasOperand(opcode) != (token[0] != 0))", "if (HasOperand(opcode) && token[0] == 0)"))
B('count-missing', 'C21', ("                EmitByte(&segment[CODESEG], opcode);\n            }\n\n            instructionCount++;", "                EmitByte(&segment[CODESEG], opcode);\n            }\n\n            if (opcode != OP_BREAK)\n                instructionCount++;"))
B('count-endproc', 'C21', ("        // all functions must leave something on the opstack\n        instructionCount++;\n", "        // all functions must leave something on the opstack\n"))
B('count-bc', 'C21', ("                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n", "                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n                if (opcode == OP_BLOCK_COPY && expression > 0x8000)\n                    instructionCount++;\n"))
B('arg-emit-first', 'C26', ("if (8 + currentArgOffset >= 256)", "if (8 + currentArgOffset > 256)"))
B('arg-off', 'C26', ("EmitByte(&segment[CODESEG], 8 + currentArgOffset);", "EmitByte(&segment[CODESEG], 4 + currentArgOffset);"))
B('arg-step', 'C26', ("currentArgOffset += 4;", "currentArgOffset += (token[3] == 'I') ? 4 : 8;"))
B('call-noreset', 'C26', ("EmitByte(&segment[CODESEG], OP_CALL);\n        instructionCount++;\n        currentArgOffset = 0;", "EmitByte(&segment[CODESEG], OP_CALL);\n        instructionCount++;\n        if (token[4] != 'V')\n            currentArgOffset = 0;"))
B('ret-noargs', 'C26', ("EmitInt(&segment[CODESEG], 8 + currentLocals + currentArgs);\n        return 1;\n    }\n    return 0;\n}\n\n// pop", "EmitInt(&segment[CODESEG], 8 + currentLocals);\n        return 1;\n    }\n    return 0;\n}\n\n// pop"))
B('addrf-8', 'C26', ("v = 16 + currentArgs + currentLocals + v;", "v = 8 + currentArgs + currentLocals + v;"))
B('addrl-args', 'C26', ("v = 8 + currentArgs + v;", "v = 8 + v;"))
B('locals-noalign', 'C26', ("currentLocals = (currentLocals + 3) & ~3;\n", ""))
B('args-noalign', 'C26', ("currentArgs   = (currentArgs + 3) & ~3;\n", ""))
B('endproc-locals', 'C26', ("        ParseValue(); // locals\n        ParseValue(); // arg marshalling\n", "        currentLocals = ParseValue(); // locals\n        ParseValue(); // arg marshalling\n"))
B('frame-limit', 'C26', ("if (8 + currentLocals + currentArgs >= 32767)", "if (currentLocals + currentArgs >= 65536)"))
B('ignore-emits', 'C20 C21', ("return; // we ignore most conversions", "if (!strcmp(op->name, \"CVII1\")) { EmitByte(&segment[CODESEG], OP_IGNORE); instructionCount++; } return;"))
B('undef-not-error', 'C20 C21', ("if (op->opcode == OP_UNDEF)\n", "if (op->opcode == OP_UNDEF && passNumber == 2)\n"))
B('unknown-silent', 'C19', ("    CodeError(\"Unknown token: %s\\n\", token);\n}", "    if (token[0] != '.')\n        CodeError(\"Unknown token: %s\\n\", token);\n}"))
B('label-prefix', 'C19', ("if (!strcmp(token, \"lit\"))", "if (!strncmp(token, \"lit\", 2))"))
# errors
B('exit0', 'C22', ("return errorCount ? 1 : 0;", "return 0;"))
B('exit-count', 'C22', ("return errorCount ? 1 : 0;", "return errorCount;"))
B('reset-errors', 'C22', ("        currentArgOffset = 0;\n\n        for (i = 0; i < numAsmFiles; i++)", "        currentArgOffset = 0;\n        errorCount       = 0;\n\n        for (i = 0; i < numAsmFiles; i++)"))
B('write-anyway', 'C22', ("    if (errorCount != 0)\n    {\n        report(\"Not", "    if (errorCount > 1)\n    {\n        report(\"Not"))
B('stale', 'C22', ("    remove(imageName);\n", ""), ("    header.vmMagic = VM_MAGIC;\n", "    remove(imageName);\n    header.vmMagic = VM_MAGIC;\n"))
B('error-exit0', 'C22', ("    exit(1);\n}\n#endif", "    exit(0);\n}\n#endif"), file='q3asm/cmdlib.c')
B('stackdef-late', 'C22', ("    // write the image\n    WriteVmFile();\n", "    // write the image\n    WriteVmFile();\n    LookupSymbol(\"_start\");\n"))
# file
B('hdr-lit', 'C23', ("header.litLength        = segment[LITSEG].imageUsed;", "header.litLength        = segment[LITSEG].imageUsed & ~7;"))
B('hdr-ic', 'C23', ("header.instructionCount = instructionCount;", "header.instructionCount = instructionCount + 1;"))
B('hdr-bss', 'C23', ("    segment[BSSSEG].imageUsed += stackSize;\n", ""))
B('hdr-dataoff', 'C23', ("header.dataOffset       = header.codeOffset + segment[CODESEG].imageUsed;", "header.dataOffset       = header.codeOffset + ((segment[CODESEG].imageUsed + 15) & ~15);"))
B('lit-base', 'C23', ("segment[LITSEG].segmentBase = segment[DATASEG].imageUsed;", "segment[LITSEG].segmentBase = segment[DATASEG].imageUsed + 4;"))
B('bss-base', 'C23', ("        segment[BSSSEG].segmentBase =\n            segment[LITSEG].segmentBase + segment[LITSEG].imageUsed;", "        segment[BSSSEG].segmentBase =\n            segment[DATASEG].imageUsed + ((segment[LITSEG].imageUsed + 15) & ~15);"))
B('no-align-last', 'C23', ("segment[i].imageUsed = (segment[i].imageUsed + 3) & ~3;", "if (passNumber == 0) segment[i].imageUsed = (segment[i].imageUsed + 3) & ~3;"))
B('align8-first', 'C23', ("segment[i].imageUsed = (segment[i].imageUsed + 3) & ~3;", "segment[i].imageUsed = (segment[i].imageUsed + (passNumber ? 3 : 7)) & ~3;"))
B('data-start0', 'C23', ("        segment[DATASEG].imageUsed =\n            4;", "        segment[DATASEG].imageUsed =\n            passNumber * 4;"))
B('data-start0b', 'C23', ("        segment[DATASEG].imageUsed =\n            4;", "        segment[DATASEG].imageUsed =\n            0;"))
B('write-order', 'C23', ("    SafeWrite(f, &segment[DATASEG].image, segment[DATASEG].imageUsed);\n    SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);", "    SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n    SafeWrite(f, &segment[DATASEG].image, segment[DATASEG].imageUsed);"))
B('write-skip-lit', 'C23', ("    SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n\n", "    if (segment[LITSEG].imageUsed > 4)\n        SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n\n"))
# passes
B('pass-used', 'C28 C23', ("            segment[i].imageUsed = 0;\n", "            if (i != BSSSEG)\n                segment[i].imageUsed = 0;\n"))
B('pass-ic', 'C28', ("        instructionCount = 0;\n        currentSegment   = &segment[CODESEG];", "        if (!passNumber)\n            instructionCount = 0;\n        currentSegment   = &segment[CODESEG];"))
B('pass-seg', 'C28', ("        currentSegment   = &segment[CODESEG];\n", "        if (!currentSegment)\n            currentSegment = &segment[CODESEG];\n"))
B('pass-locals', 'C28', ("        currentLocals    = 0;\n", ""))
B('pass-args', 'C28', ("        currentArgOffset = 0;\n\n        for", "\n        for"))
B('pass-label-size', 'C28', ("        if (passNumber == 1 && token[0] == '$') // crude test for labels\n            EmitInt(&segment[JTRGSEG], v);", "        if (passNumber == 1 && token[0] == '$') // crude test for labels\n            EmitInt(&segment[LITSEG], v);"))
B('pass-skip', 'C28', ("        ReserveSpace(currentSegment, v);\n        objectStart", "        if (passNumber == 0 || v < 65536) ReserveSpace(currentSegment, v);\n        objectStart"))
B('pass-const', 'C28', ("                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);", "                EmitByte(&segment[CODESEG], opcode);\n                if (opcode == OP_CONST && passNumber == 1 && expression == 0 && token[0] != '0')\n                    instructionCount--;\n                EmitInt(&segment[CODESEG], expression);"))
B('pass-align', 'C28', ("        v = ParseValue();\n        if (v < 1 ||", "        Parse();\n        v = ParseExpression();\n        if (v < 1 ||"))
B('pass-skip-expr', 'C28', ("        v = ParseValue();\n        ReserveSpace", "        Parse();\n        v = ParseExpression();\n        ReserveSpace"))
B('pass-hack', 'C28', ("    ReserveSpace(currentSegment, -currentSegment->imageUsed & 3);\n    if (passNumber == 0 && first && lastSymbol)\n    {\n", "    if (passNumber == 0 && first && lastSymbol)\n    {\n        ReserveSpace(currentSegment, -currentSegment->imageUsed & 3);\n"))
# data
B('byte-lit4', 'C29', ("            HackToSegment(DATASEG);\n        }\n        else", "            if (v2 != 0)\n                HackToSegment(DATASEG);\n        }\n        else"))
B('byte-big', 'C29', ("        for (i = 0; i < v; i++)\n        {\n            EmitByte(currentSegment, (v2 & 0xFF)); /* paranoid ANDing  -PH */\n            v2 >>= 8;", "        for (i = 0; i < v; i++)\n        {\n            EmitByte(currentSegment, (v2 & 0xFF)); /* paranoid ANDing  -PH */\n            v2 >>= 7;"))
B('hack-noalign', 'C29', ("    ReserveSpace(currentSegment, -currentSegment->imageUsed & 3);\n", ""))
B('hack-value', 'C29', ("        lastSymbol->value   = currentSegment->imageUsed;\n", ""))
B('hack-seg', 'C29', ("        lastSymbol->segment = currentSegment;\n", ""))
B('hack-nofirst', 'C29', ("        (!first && currentSegment != &segment[CODESEG]))", "        (!first && currentSegment == &segment[BSSSEG]))"))
B('skip-noflag', 'C29', ("        ReserveSpace(currentSegment, v);\n        objectStart = qfalse;\n", "        ReserveSpace(currentSegment, v);\n"))
B('skip-align', 'C29', ("        ReserveSpace(currentSegment, v);\n        objectStart = qfalse;\n", "        ReserveSpace(currentSegment, (v + 3) & ~3);\n        objectStart = qfalse;\n"))
B('address-lit', 'C29', ("        HackToSegment(DATASEG);\n        EmitInt(currentSegment, v);", "        HackToSegment(DATASEG);\n        EmitInt(&segment[DATASEG], v);"))
B('address-dup', 'C29', ("        if (passNumber == 1 && token[0] == '$') // crude test for labels\n            EmitInt(&segment[JTRGSEG], v);", "        if (passNumber == 1 && token[0] == '$') // crude test for labels\n            EmitInt(&segment[JTRGSEG], v);\n        else if (v == 0 && token[0] == '0')\n            EmitInt(&segment[DATASEG], v);"))
B('label-flag', 'C29', ("            DefineSymbol(token, currentSegment->imageUsed);\n        }\n        objectStart = qtrue;", "            DefineSymbol(token, currentSegment->imageUsed);\n            objectStart = qtrue;\n        }"))
B('code-data', 'C21', ("    if (n != 0 && seg == &segment[CODESEG])\n    {\n        CodeError(\"Data in the code segment\\n\");\n        return;\n    }\n", ""))

# directives
B('align-mask', 'C19', ("ReserveSpace(currentSegment, -currentSegment->imageUsed & (v - 1));", "ReserveSpace(currentSegment, v - (currentSegment->imageUsed & (v - 1)));"))
B('align-npot', 'C19', ("|| (v & (v - 1)) != 0)", ")"))
B('align-data', 'C19', ("ReserveSpace(currentSegment, -currentSegment->imageUsed & (v - 1));", "ReserveSpace(currentSegment, -segment[DATASEG].imageUsed & (v - 1));"))
B('lit-sel', 'C19', ("currentSegment = &segment[LITSEG];\n        return 1;", "if (currentSegment != &segment[BSSSEG])\n            currentSegment = &segment[LITSEG];\n        return 1;"))
B('line-prefix', 'C19', ('!strcmp(token, "line")', '!strncmp(token, "line", 4)'))
B('import-undef', 'C19', ('        STAT("IMPORT");\n        return 1;', '        STAT("IMPORT");\n        return currentSegment != &segment[BSSSEG];'))
B('byte-nothing', 'C19', ('if (!strcmp(token, "equ"))', 'if (!strncmp(token, "equ", 3))'))
B('call-any', 'C19', ('if (!strncmp(token, "CALL", 4))', 'if (!strncmp(token, "CALL", 1))'))

# symbols
B('sym-local-hash', 'C25', ("    if (sym[0] == '$')\n    {\n        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    if", "    hash = HashString(sym);\n    if (sym[0] == '$')\n    {\n        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    if"))
B('sym-fmt', 'C25', ("        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    if", "        sprintf(expanded, \"%s%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    if"), ("        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    /*", "        sprintf(expanded, \"%s%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    /*"))
B('sym-fileidx', 'C25', ("        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    if", "        sprintf(expanded, \"%s_%i\", sym, currentFileIndex & 15);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    if"), ("        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    /*", "        sprintf(expanded, \"%s_%i\", sym, currentFileIndex & 15);\n        sym = expanded;\n    }\n\n    hash = HashString(sym);\n\n    /*"))
B('sym-hash-only', 'C25', ("        if ((hash == s->hash) && !strcmp(sym, s->name))", "        if (hash == s->hash)"))
B('sym-strncmp', 'C25', ("        if ((hash == s->hash) && !strcmp(sym, s->name))", "        if ((hash == s->hash) && !strncmp(sym, s->name, 64))"))
B('sym-first-node', 'C25', ("        if ((hash == s->hash) && !strcmp(sym, s->name))\n        {\n            return s->segment->segmentBase + s->value;\n        }\n", "        if ((hash == s->hash) && !strcmp(sym, s->name))\n        {\n            return s->segment->segmentBase + s->value;\n        }\n        if (hc->next && hc->next->next == NULL)\n            break;\n"))
B('sym-curseg', 'C25', ("return s->segment->segmentBase + s->value;", "return currentSegment->segmentBase + s->value;"))
B('sym-nobase', 'C25', ("return s->segment->segmentBase + s->value;", "return s->value < 0 ? s->value : s->segment->segmentBase + s->value;"))
B('sym-undefined-ok', 'C25', ("    CodeError(\"error: symbol %s undefined\\n\", sym);\n", "    if (sym[0] != '_')\n        CodeError(\"error: symbol %s undefined\\n\", sym);\n"))
B('sym-redefine', 'C25', ("        if (strcmp(sym, s->name) == 0)\n        {\n            /* Symbol collisions -- symbol already exists. */\n            return 1;", "        if (strcmp(sym, s->name) == 0)\n        {\n            /* Symbol collisions -- symbol already exists. */\n            return s->segment == currentSegment;"))
B('sym-chain-lost', 'C25', ("        for (hc = *hb; hc && hc->next; hc = hc->next)\n            ;\n        if (hc)", "        hc = *hb;\n        if (hc->next)\n            hc = hc->next;\n        if (hc)"))
B('sym-second-pass', 'C25', ("    if (passNumber == 1)\n    {\n        return;\n    }\n\n    // add", "    if (passNumber == 1 && sym[0] != '$')\n    {\n        return;\n    }\n\n    // add"))
B('sym-proc-offset', 'C25', ("DefineSymbol(token, instructionCount); // seg", "DefineSymbol(token, segment[CODESEG].imageUsed ? instructionCount : 1); // seg"))
B('sym-label-code', 'C25', ("        if (currentSegment == &segment[CODESEG])\n        {\n            DefineSymbol(token, instr", "        if (currentSegment == &segment[CODESEG] || passNumber)\n        {\n            DefineSymbol(token, instr"))
B('sym-label-imageused', 'C25', ("            DefineSymbol(token, currentSegment->imageUsed);", "            DefineSymbol(token, currentSegment->imageUsed & ~1);"))
B('equ-base', 'C25', ("        currentSegment = &segment[CODESEG]; // a number, not an address\n", ""))
B('equ-unrestored', 'C25 C19 C28', ("        currentSegment = old;\n        return 1;", "        if (passNumber == 0)\n            currentSegment = old;\n        return 1;"))
B('equ-decimal', 'C25', ("DefineSymbol(name, atoiNoCap(token));", "DefineSymbol(name, atoiNoCap(token) & 0xffff);"))
B('init-hash', 'C25', ("        hashtable_add(optable, opcodesHash[i], sourceOps + i);", "        hashtable_add(optable, opcodesHash[i] & 0x7fffffff, sourceOps + i);"))
B('init-count', 'C25', ("    for (i = 0; i < NUM_SOURCE_OPS; i++)\n    {\n        opcodesHash", "    for (i = 0; i < NUM_SOURCE_OPS - 1; i++)\n    {\n        opcodesHash"))
B('init-first', 'C25', ("    for (i = 0; i < NUM_SOURCE_OPS; i++)\n    {\n        opcodesHash", "    for (i = 1; i < NUM_SOURCE_OPS; i++)\n    {\n        opcodesHash"))
B('sym-list', 'C25 C29', ("        lastSymbol->next = s;\n        lastSymbol       = s;", "        s->next = lastSymbol->next;\n        lastSymbol->next = s;\n        if (value)\n            lastSymbol = s;"))
B('sym-seg-data', 'C25', ("    s->segment = currentSegment;\n", "    s->segment = value || currentSegment == &segment[CODESEG] ? currentSegment : &segment[DATASEG];\n"))
