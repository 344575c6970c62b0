Q = 'q3asm/q3asm.c'
EDITS = []
def R(name, *edits, file=Q):
    EDITS.append((name, 'ref', file, list(edits), []))

R('none')
R('emitint-loop', ("    seg->image[seg->imageUsed]     = v & 255;\n    seg->image[seg->imageUsed + 1] = (v >> 8) & 255;\n    seg->image[seg->imageUsed + 2] = (v >> 16) & 255;\n    seg->image[seg->imageUsed + 3] = (v >> 24) & 255;\n    seg->imageUsed += 4;",
  "    int i;\n    for (i = 0; i < 4; i++)\n    {\n        seg->image[seg->imageUsed + i] = (v >> (8 * i)) & 255;\n    }\n    seg->imageUsed += 4;"))
R('emitint-emitbyte', ("    seg->image[seg->imageUsed]     = v & 255;\n    seg->image[seg->imageUsed + 1] = (v >> 8) & 255;\n    seg->image[seg->imageUsed + 2] = (v >> 16) & 255;\n    seg->image[seg->imageUsed + 3] = (v >> 24) & 255;\n    seg->imageUsed += 4;",
  "    EmitByte(seg, v & 255);\n    EmitByte(seg, (v >> 8) & 255);\n    EmitByte(seg, (v >> 16) & 255);\n    EmitByte(seg, (v >> 24) & 255);"))
R('emitint-unsigned', ("    seg->image[seg->imageUsed]     = v & 255;\n    seg->image[seg->imageUsed + 1] = (v >> 8) & 255;\n    seg->image[seg->imageUsed + 2] = (v >> 16) & 255;\n    seg->image[seg->imageUsed + 3] = (v >> 24) & 255;\n    seg->imageUsed += 4;",
  "    unsigned char* p = seg->image + seg->imageUsed;\n    unsigned u = (unsigned)v;\n    *p++ = (unsigned char)u; u >>= 8;\n    *p++ = (unsigned char)u; u >>= 8;\n    *p++ = (unsigned char)u; u >>= 8;\n    *p   = (unsigned char)u;\n    seg->imageUsed += 4;"))
R('emitbyte-post', ("    seg->image[seg->imageUsed] = v;\n    seg->imageUsed++;", "    seg->image[seg->imageUsed++] = (unsigned char)(v & 0xff);"))
R('emitop-helper', ("static void EmitInt(segment_t* seg, int v)\n{", "static void EmitInt(segment_t* seg, int v);\nstatic void EmitOp(int o)\n{\n    EmitByte(&segment[CODESEG], o);\n    instructionCount++;\n}\nstatic void EmitInt(segment_t* seg, int v)\n{"),
  ("        EmitByte(&segment[CODESEG], OP_CALL);\n        instructionCount++;\n", "        EmitOp(OP_CALL);\n"),
  ("        EmitByte(&segment[CODESEG], OP_ARG);\n        instructionCount++;\n", "        EmitOp(OP_ARG);\n"),
  ("        EmitByte(&segment[CODESEG], OP_LEAVE);\n        instructionCount++;\n        EmitInt(&segment[CODESEG], 8 + currentLocals + currentArgs);\n        return 1;\n    }\n    return 0;\n}\n\n// pop", "        EmitOp(OP_LEAVE);\n        EmitInt(&segment[CODESEG], currentArgs + currentLocals + 8);\n        return 1;\n    }\n    return 0;\n}\n\n// pop"),
  ("        EmitByte(&segment[CODESEG], OP_POP);\n        instructionCount++;\n", "        EmitOp(OP_POP);\n"))
R('count-first', ("        EmitByte(&segment[CODESEG], OP_POP);\n        instructionCount++;\n", "        ++instructionCount;\n        EmitByte(segment + CODESEG, OP_POP);\n"))
R('call-order', ("        EmitByte(&segment[CODESEG], OP_CALL);\n        instructionCount++;\n        currentArgOffset = 0;", "        currentArgOffset = 0;\n        instructionCount += 1;\n        EmitByte(&segment[CODESEG], OP_CALL);"))
R('frame-helper', ("// ret just leaves something on the op stack\n", "static int FrameSize(void)\n{\n    return 8 + currentLocals + currentArgs;\n}\n// ret just leaves something on the op stack\n"),
  ("        EmitInt(&segment[CODESEG], 8 + currentLocals + currentArgs);\n        return 1;\n    }\n    return 0;\n}\n\n// pop", "        EmitInt(&segment[CODESEG], FrameSize());\n        return 1;\n    }\n    return 0;\n}\n\n// pop"),
  ("        if (8 + currentLocals + currentArgs >= 32767)", "        if (FrameSize() >= 32767)"),
  ("        EmitByte(&segment[CODESEG], OP_ENTER);\n        EmitInt(&segment[CODESEG], 8 + currentLocals + currentArgs);", "        EmitByte(&segment[CODESEG], OP_ENTER);\n        EmitInt(&segment[CODESEG], FrameSize());"),
  ("        v = 16 + currentArgs + currentLocals + v;", "        v += 8 + FrameSize();"))
R('align-helper', ("ASM(PROC)\n{", "static int Align4(int n)\n{\n    return (n + 3) & ~3;\n}\n\nASM(PROC)\n{"),
  ("        currentLocals = ParseValue(); // locals\n        currentLocals = (currentLocals + 3) & ~3;\n        currentArgs   = ParseValue(); // arg marshalling\n        currentArgs   = (currentArgs + 3) & ~3;", "        currentLocals = Align4(ParseValue()); // locals\n        currentArgs   = Align4(ParseValue()); // arg marshalling"),
  ("expression = (expression + 3) & ~3;", "expression = Align4(expression);"),
  ("            segment[i].imageUsed = (segment[i].imageUsed + 3) & ~3;", "            segment[i].imageUsed = Align4(segment[i].imageUsed);"))
R('arg-helper-var', ("        EmitByte(&segment[CODESEG], OP_ARG);\n        instructionCount++;\n        if (8 + currentArgOffset >= 256)\n        {\n            CodeError(\"currentArgOffset >= 256\");\n            return 1;\n        }\n        EmitByte(&segment[CODESEG], 8 + currentArgOffset);\n        currentArgOffset += 4;",
  "        const int offset = 8 + currentArgOffset;\n        EmitByte(&segment[CODESEG], OP_ARG);\n        instructionCount++;\n        if (offset > 255)\n        {\n            CodeError(\"currentArgOffset >= 256\");\n            return 1;\n        }\n        EmitByte(&segment[CODESEG], offset);\n        currentArgOffset = offset - 8 + 4;"))
R('asm-early-return', ("    if (!strncmp(token, \"CALL\", 4))\n    {\n        STAT(\"CALL\");\n        EmitByte(&segment[CODESEG], OP_CALL);\n        instructionCount++;\n        currentArgOffset = 0;\n        return 1;\n    }\n    return 0;", "    if (strncmp(token, \"CALL\", 4) != 0)\n    {\n        return 0;\n    }\n    EmitByte(&segment[CODESEG], OP_CALL);\n    instructionCount++;\n    currentArgOffset = 0;\n    return 1;"))
R('hasop-switch', ("    return opcode == OP_CONST || opcode == OP_BLOCK_COPY ||\n           (opcode >= OP_EQ && opcode <= OP_GEF);", "    switch (opcode)\n    {\n    case OP_CONST:\n    case OP_BLOCK_COPY:\n        return qtrue;\n    default:\n        return opcode >= OP_EQ && opcode <= OP_GEF ? qtrue : qfalse;\n    }"))
R('table-line-helper', ("static void AssembleLine(void)\n{\n    hashchain_t* hc;\n    sourceOps_t* op;\n    int          i;\n    int          hash;\n\n    Parse();\n    if (!token[0])\n    {\n        return;\n    }\n\n    hash = HashString(token);\n", "static sourceOps_t* FindOp(int hash)\n{\n    hashchain_t* hc;\n    for (hc = hashtable_get(optable, hash); hc; hc = hc->next)\n    {\n        sourceOps_t* op = (sourceOps_t*)(hc->data);\n        if ((hash == opcodesHash[op - sourceOps]) && (!strcmp(token, op->name)))\n        {\n            return op;\n        }\n    }\n    return NULL;\n}\n\nstatic void AssembleLine(void)\n{\n    sourceOps_t* op;\n    int          hash;\n\n    Parse();\n    if (!token[0])\n    {\n        return;\n    }\n\n    hash = HashString(token);\n"),
  ("    for (hc = hashtable_get(optable, hash); hc; hc = hc->next)\n    {\n        op = (sourceOps_t*)(hc->data);\n        i  = op - sourceOps;\n        if ((hash == opcodesHash[i]) && (!strcmp(token, op->name)))\n        {\n            int opcode;", "    {\n        op = FindOp(hash);\n        if (op)\n        {\n            int opcode;"))
R('table-nohash', ("        if ((hash == opcodesHash[i]) && (!strcmp(token, op->name)))", "        (void)i;\n        if (strcmp(token, op->name) == 0)"))
R('emit-code-once', ("                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n            }\n            else\n            {\n                EmitByte(&segment[CODESEG], opcode);\n            }\n\n            instructionCount++;\n            return;", "                EmitByte(&segment[CODESEG], opcode);\n                EmitInt(&segment[CODESEG], expression);\n                instructionCount++;\n                return;\n            }\n            EmitByte(&segment[CODESEG], opcode);\n            instructionCount++;\n            return;"))
R('sex-ternary', ("                if (token[0] == '1')\n                {\n                    opcode = OP_SEX8;\n                }\n                else if (token[0] == '2')\n                {\n                    opcode = OP_SEX16;\n                }\n                else\n                {\n                    CodeError(\"Bad sign extension: %s\\n\", token);\n                    return;\n                }", "                if (token[0] != '1' && token[0] != '2')\n                {\n                    CodeError(\"Bad sign extension: %s\\n\", token);\n                    return;\n                }\n                opcode = token[0] == '1' ? OP_SEX8 : OP_SEX16;"))
R('sex-switch', ("                if (token[0] == '1')\n                {\n                    opcode = OP_SEX8;\n                }\n                else if (token[0] == '2')\n                {\n                    opcode = OP_SEX16;\n                }\n                else\n                {\n                    CodeError(\"Bad sign extension: %s\\n\", token);\n                    return;\n                }", "                switch (token[0])\n                {\n                case '1':\n                    break;\n                case '2':\n                    opcode = OP_SEX16;\n                    break;\n                default:\n                    CodeError(\"Bad sign extension: %s\\n\", token);\n                    return;\n                }"))
R('byte-emitint', ("        for (i = 0; i < v; i++)\n        {\n            EmitByte(currentSegment, (v2 & 0xFF)); /* paranoid ANDing  -PH */\n            v2 >>= 8;\n        }", "        if (v == 4)\n        {\n            EmitInt(currentSegment, v2);\n        }\n        else\n        {\n            EmitByte(currentSegment, v2);\n        }\n        (void)i;"))
R('byte-while', ("        for (i = 0; i < v; i++)\n        {\n            EmitByte(currentSegment, (v2 & 0xFF)); /* paranoid ANDing  -PH */\n            v2 >>= 8;\n        }", "        i = 0;\n        while (i < v)\n        {\n            EmitByte(currentSegment, (v2 >> (8 * i)) & 0xFF);\n            i++;\n        }"))
R('byte-switch', ("        if (v == 1)\n        {\n            /* Character (1-byte) values go into lit(eral) segment. */\n            HackToSegment(LITSEG);\n        }\n        else if (v == 4)\n        {\n            /* 32-bit (4-byte) values go into data segment. */\n            HackToSegment(DATASEG);\n        }\n        else\n        {", "        if (v == 1 || v == 4)\n        {\n            HackToSegment(v == 1 ? LITSEG : DATASEG);\n        }\n        else\n        {"))
R('hack-nested', ("    if (currentSegment == &segment[seg] ||\n        (!first && currentSegment != &segment[CODESEG]))\n    {\n        return;\n    }\n", "    if (currentSegment == &segment[seg])\n    {\n        return;\n    }\n    if (!first && currentSegment != segment + CODESEG)\n    {\n        return;\n    }\n"))
R('hack-var', ("    currentSegment = &segment[seg];\n    ReserveSpace(currentSegment, -currentSegment->imageUsed & 3);", "    {\n        segment_t* const s = &segment[seg];\n        ReserveSpace(s, (4 - (s->imageUsed & 3)) & 3);\n        currentSegment = s;\n    }"))
R('seg-helper', ("ASM(CODE)\n{", "static int SelectSegment(segmentName_t s)\n{\n    currentSegment = &segment[s];\n    return 1;\n}\n\nASM(CODE)\n{"), ("        STAT(\"CODE\");\n        currentSegment = &segment[CODESEG];\n        return 1;", "        return SelectSegment(CODESEG);"), ("        STAT(\"LIT\");\n        currentSegment = &segment[LITSEG];\n        return 1;", "        return SelectSegment(LITSEG);"))
R('ignored-merged', ("    if (!strcmp(token, \"export\"))", "    if (!strcmp(token, \"export\") || !strcmp(token, \"line\"))"))
R('asm-order', ("    ASM(CALL)\n    ASM(POP)\n    ASM(RET)\n", "    ASM(RET)\n    ASM(POP)\n    ASM(CALL)\n"), ("    ASM(BSS)\n    ASM(DATA)\n", "    ASM(DATA)\n    ASM(BSS)\n"))
R('align-loop', ("        ReserveSpace(currentSegment, -currentSegment->imageUsed & (v - 1));", "        ReserveSpace(currentSegment, ((currentSegment->imageUsed + v - 1) & ~(v - 1)) - currentSegment->imageUsed);"))
R('label-value-var', ("        if (currentSegment == &segment[CODESEG])\n        {\n            DefineSymbol(token, instructionCount);\n        }\n        else\n        {\n            DefineSymbol(token, currentSegment->imageUsed);\n        }", "        DefineSymbol(token, currentSegment == &segment[CODESEG] ? instructionCount : currentSegment->imageUsed);"))
R('wvm-split', ("    if (errorCount != 0)\n    {\n        report(\"Not writing a file due to errors\\n\");\n        return;\n    }\n", "    if (errorCount > 0 || errorCount < 0)\n    {\n        report(\"Not writing a file due to errors\\n\");\n        return;\n    }\n"))
R('hdr-helper', ("static void WriteVmFile(void)\n{", "static void FillHeader(vmHeader_t* h)\n{\n    h->vmMagic = VM_MAGIC;\n    h->codeOffset       = sizeof(*h);\n    h->codeLength       = segment[CODESEG].imageUsed;\n    h->dataOffset       = h->codeOffset + h->codeLength;\n    h->dataLength       = segment[DATASEG].imageUsed;\n    h->litLength        = segment[LITSEG].imageUsed;\n    h->bssLength        = segment[BSSSEG].imageUsed;\n    h->instructionCount = instructionCount;\n}\n\nstatic void WriteVmFile(void)\n{"),
  ("    header.instructionCount = instructionCount;\n    header.codeOffset       = headerSize;\n    header.codeLength       = segment[CODESEG].imageUsed;\n    header.dataOffset       = header.codeOffset + segment[CODESEG].imageUsed;\n    header.dataLength       = segment[DATASEG].imageUsed;\n    header.litLength        = segment[LITSEG].imageUsed;\n    header.bssLength        = segment[BSSSEG].imageUsed;\n", "    FillHeader(&header);\n"))
R('write-loop', ("    SafeWrite(f, &segment[CODESEG].image, segment[CODESEG].imageUsed);\n    SafeWrite(f, &segment[DATASEG].image, segment[DATASEG].imageUsed);\n    SafeWrite(f, &segment[LITSEG].image, segment[LITSEG].imageUsed);\n", "    {\n        int i;\n        for (i = CODESEG; i <= LITSEG; i++)\n        {\n            SafeWrite(f, segment[i].image, segment[i].imageUsed);\n        }\n    }\n"))
R('write-helper', ("static void WriteVmFile(void)\n{", "static void WriteSegment(FILE* f, const segment_t* s)\n{\n    SafeWrite(f, s->image, s->imageUsed);\n}\nstatic void WriteVmFile(void)\n{"), ("    SafeWrite(f, &segment[DATASEG].image, segment[DATASEG].imageUsed);\n", "    WriteSegment(f, &segment[DATASEG]);\n"))
R('pass-helper', ("static void Assemble(void)\n{", "static void StartPass(void)\n{\n    int i;\n    segment[LITSEG].segmentBase = segment[DATASEG].imageUsed;\n    segment[BSSSEG].segmentBase = segment[LITSEG].segmentBase + segment[LITSEG].imageUsed;\n    segment[JTRGSEG].segmentBase = segment[BSSSEG].segmentBase + segment[BSSSEG].imageUsed;\n    for (i = 0; i < NUM_SEGMENTS; i++)\n    {\n        segment[i].imageUsed = (i == DATASEG) ? 4 : 0;\n    }\n    instructionCount = 0;\n    currentSegment   = &segment[CODESEG];\n    objectStart      = qfalse;\n    currentLocals = currentArgs = currentArgOffset = 0;\n}\n\nstatic void Assemble(void)\n{"),
  ("        segment[LITSEG].segmentBase = segment[DATASEG].imageUsed;\n        segment[BSSSEG].segmentBase =\n            segment[LITSEG].segmentBase + segment[LITSEG].imageUsed;\n        segment[JTRGSEG].segmentBase =\n            segment[BSSSEG].segmentBase + segment[BSSSEG].imageUsed;\n        for (i = 0; i < NUM_SEGMENTS; i++)\n        {\n            segment[i].imageUsed = 0;\n        }\n        segment[DATASEG].imageUsed =\n            4; // skip the 0 byte, so NULL pointers are fixed up properly\n        instructionCount = 0;\n        currentSegment   = &segment[CODESEG];\n        objectStart      = qfalse;\n        currentLocals    = 0;\n        currentArgs      = 0;\n        currentArgOffset = 0;\n", "        StartPass();\n"))
R('file-helper', ("static void Assemble(void)\n{", "static void AssembleFile(int i)\n{\n    char* ptr;\n    currentFileIndex = i;\n    currentFileName  = asmFileNames[i];\n    currentFileLine  = 0;\n    report(\"pass %i: %s\\n\", passNumber, currentFileName);\n    for (ptr = asmFiles[i]; ptr; )\n    {\n        ptr = ExtractLine(ptr);\n        AssembleLine();\n    }\n}\n\nstatic void Assemble(void)\n{"),
  ("            currentFileIndex = i;\n            currentFileName  = asmFileNames[i];\n            currentFileLine  = 0;\n            report(\"pass %i: %s\\n\", passNumber, currentFileName);\n            fflush(NULL);\n            ptr = asmFiles[i];\n            while (ptr)\n            {\n                ptr = ExtractLine(ptr);\n                AssembleLine();\n            }\n", "            AssembleFile(i);\n"), ("    char* ptr;\n\n    report(\"outputFilename", "    report(\"outputFilename"))
R('pass-memset', ("        for (i = 0; i < NUM_SEGMENTS; i++)\n        {\n            segment[i].imageUsed = 0;\n        }\n", "        segment[CODESEG].imageUsed = segment[LITSEG].imageUsed = 0;\n        segment[BSSSEG].imageUsed = segment[JTRGSEG].imageUsed = 0;\n"))
R('align-while', ("        for (i = 0; i < NUM_SEGMENTS; i++)\n        {\n            segment[i].imageUsed = (segment[i].imageUsed + 3) & ~3;\n        }", "        for (i = NUM_SEGMENTS - 1; i >= 0; i--)\n        {\n            segment[i].imageUsed += -segment[i].imageUsed & 3;\n        }"))
R('pass-do', ("    for (passNumber = 0; passNumber < 2; passNumber++)\n    {", "    for (passNumber = 0; passNumber <= 1; ++passNumber)\n    {"))
R('main-return', ("    return errorCount ? 1 : 0;", "    if (errorCount > 0)\n    {\n        return 1;\n    }\n    return errorCount != 0;"))
R('main-helper', ("/*\n==============\nmain\n==============\n*/\n", "static int ExitStatus(void)\n{\n    return errorCount != 0;\n}\n"), ("    return errorCount ? 1 : 0;", "    return ExitStatus();"))
R('codeerror-order', ("    errorCount++;\n\n    fprintf(stderr, \"%s:%i \", currentFileName, currentFileLine);\n", "    fprintf(stderr, \"%s:%i \", currentFileName, currentFileLine);\n    errorCount += 1;\n"))
R('lookup-restructure', ("    for (hc = hashtable_get(symtable, hash); hc; hc = hc->next)\n    {\n        s = (symbol_t*)hc->data; /* ugly typecasting, but it's fast! */\n        if ((hash == s->hash) && !strcmp(sym, s->name))\n        {\n            return s->segment->segmentBase + s->value;\n        }\n    }\n", "    hc = hashtable_get(symtable, hash);\n    while (hc)\n    {\n        s = (symbol_t*)hc->data;\n        if (hash == s->hash && strcmp(s->name, sym) == 0)\n        {\n            return s->value + s->segment->segmentBase;\n        }\n        hc = hc->next;\n    }\n"))
R('symname-helper', ("static void DefineSymbol(char* sym, int value)\n{", "static char* GlobalName(char* sym, char* expanded)\n{\n    if (sym[0] != '$')\n    {\n        return sym;\n    }\n    sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n    return expanded;\n}\n\nstatic void DefineSymbol(char* sym, int value)\n{"),
  ("    if (sym[0] == '$')\n    {\n        sprintf(expanded, \"%s_%i\", sym, currentFileIndex);\n        sym = expanded;\n    }\n", "    sym = GlobalName(sym, expanded);\n"))
R('define-find', ("static void DefineSymbol(char* sym, int value)\n{", "static symbol_t* FindSymbol(int hash, const char* sym)\n{\n    hashchain_t* hc;\n    for (hc = hashtable_get(symtable, hash); hc; hc = hc->next)\n    {\n        symbol_t* s = (symbol_t*)hc->data;\n        if (hash == s->hash && !strcmp(sym, s->name))\n        {\n            return s;\n        }\n    }\n    return NULL;\n}\n\nstatic void DefineSymbol(char* sym, int value)\n{"),
  ("    for (hc = hashtable_get(symtable, hash); hc; hc = hc->next)\n    {\n        s = (symbol_t*)hc->data; /* ugly typecasting, but it's fast! */\n        if ((hash == s->hash) && !strcmp(sym, s->name))\n        {\n            return s->segment->segmentBase + s->value;\n        }\n    }\n", "    s = FindSymbol(hash, sym);\n    (void)hc;\n    if (s)\n    {\n        return s->segment->segmentBase + s->value;\n    }\n"),
  ("    if (hashtable_symbol_exists(symtable, hash, sym))", "    if (FindSymbol(hash, sym) != NULL)"))
R('expr-helper', ("static int ParseExpression(void)\n{", "static int TermEnd(int i)\n{\n    while (i < MAX_LINE_LENGTH && token[i] != '+' && token[i] != '-' && token[i] != 0)\n    {\n        i++;\n    }\n    return i;\n}\n\nstatic int ParseExpression(void)\n{"),
  ("        for (j = i + 1; j < MAX_LINE_LENGTH; j++)\n        {\n            if (token[j] == '+' || token[j] == '-' || token[j] == 0)\n            {\n                break;\n            }\n        }\n", "        j = TermEnd(i + 1);\n"))
R('expr-isdigit', ("    switch (*sym)\n    { /* Resolve depending on first character. */\n    /* Optimizing compilers can convert cases into \"calculated jumps\".  I think\n     * these are faster.  -PH */\n    case '-':\n    case '0':\n    case '1':\n    case '2':\n    case '3':\n    case '4':\n    case '5':\n    case '6':\n    case '7':\n    case '8':\n    case '9':\n        v = atoiNoCap(sym);\n        break;\n    default:\n        v = LookupSymbol(sym);\n        break;\n    }\n", "    if (*sym == '-' || (*sym >= '0' && *sym <= '9'))\n    {\n        v = atoiNoCap(sym);\n    }\n    else\n    {\n        v = LookupSymbol(sym);\n    }\n"))
R('atoi-simple', ("    l = atoi64(s);\n    /* Now smash to signed 32 bits accordingly. */\n    if (l < 0)\n    {\n        retval.i = (int)l;\n    }\n    else\n    {\n        retval.u = (unsigned int)l;\n    }\n    return retval.i; /* <- union hackage.  I feel dirty with this.  -PH */", "    (void)retval;\n    l = strtoll(s, NULL, 10);\n    return (int)l;"))
R('hash-const', ("        acc &= 0xffffffffU;\n        acc ^= randbox[((*str++ >> 4) + acc) & 0xf];", "        acc ^= randbox[((*str >> 4) + acc) & 0xf];\n        str++;"))
R('parse-helper', ("    strncpy(token, q, p - q);\n    token[p - q] = 0;", "    memcpy(token, q, p - q);\n    token[p - q] = '\\0';"))
R('extract-strchr', ("    for (; !((*p == 0) || (*p == '\\n')); p++) /* nop */\n        ;\n", "    while (*p != 0 && *p != '\\n')\n    {\n        p++;\n    }\n"))
R('equ-value', ("        Parse();\n        old            = currentSegment;", "        old            = currentSegment;"), ("DefineSymbol(name, atoiNoCap(token));", "DefineSymbol(name, ParseValue());"))
R('safewrite', ("    if (fwrite(buffer, 1, count, f) != (size_t)count)", "    const size_t n = (size_t)count;\n    if (fwrite(buffer, 1, n, f) < n)"), file='q3asm/cmdlib.c')
R('init-reverse', ("    for (i = 0; i < NUM_SOURCE_OPS; i++)\n    {\n        opcodesHash[i] = HashString(sourceOps[i].name);\n        hashtable_add(optable, opcodesHash[i], sourceOps + i);\n    }", "    for (i = 0; i < NUM_SOURCE_OPS; i++)\n    {\n        const int h = (int)HashString(sourceOps[i].name);\n        opcodesHash[i] = h;\n        hashtable_add(optable, h, &sourceOps[i]);\n    }"))

R('sym-head-insert', ("        /* Get hc to point to last node in chain. */\n        for (hc = *hb; hc && hc->next; hc = hc->next)\n            ;\n        if (hc)\n        {\n            hc->next = calloc(1, sizeof(*hc));\n            hc       = hc->next;\n        }\n    }\n    if (hc)\n    {\n        hc->data = datum;\n        hc->next = 0;\n    }", "        hc = calloc(1, sizeof(**hb));\n        hc->next = *hb;\n        *hb      = hc;\n    }\n    hc->data = datum;"))
R('sym-struct-order', ("    s          = malloc(sizeof(*s));\n    s->next    = NULL;\n    s->name    = copystring(sym);\n    s->hash    = hash;\n    s->value   = value;\n    s->segment = currentSegment;\n\n    hashtable_add(symtable, hash, s);\n", "    s          = calloc(1, sizeof(*s));\n    s->segment = currentSegment;\n    s->value   = value;\n    s->hash    = hash;\n    s->name    = copystring(sym);\n    hashtable_add(symtable, s->hash, s);\n"))
R('sym-list-tail', ("    if (symbols == 0)\n    {\n        lastSymbol = symbols = s;\n    }\n    else\n    {\n        lastSymbol->next = s;\n        lastSymbol       = s;\n    }", "    if (symbols != 0)\n    {\n        lastSymbol->next = s;\n    }\n    else\n    {\n        symbols = s;\n    }\n    lastSymbol = s;"))
R('init-while', ("    for (i = 0; i < NUM_SOURCE_OPS; i++)\n    {\n        opcodesHash[i] = HashString(sourceOps[i].name);\n        hashtable_add(optable, opcodesHash[i], sourceOps + i);\n    }", "    i = 0;\n    while (i != NUM_SOURCE_OPS)\n    {\n        hashtable_add(optable, HashString(sourceOps[i].name), sourceOps + i);\n        opcodesHash[i] = HashString(sourceOps[i].name);\n        ++i;\n    }"))
R('sym-count', ("    hashtable_add(symtable, hash, s);\n", "    hashtable_add(symtable, hash, s);\n    numSymbols++;\n"))
