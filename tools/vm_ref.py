V = 'src/vm/vm.c'
EDITS = []
def R(name, *edits):
    EDITS.append((name, 'ref', V, list(edits), []))

R('none')
R('if-pos', ("header.h->instructionCount > header.h->codeLength)\n", "header.h->codeLength < header.h->instructionCount)\n"))
R('hdr-helper',
  ("static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,\n                                    int length, vmHeader_t* hostHeader)\n{",
   """static int headerOk(const vmHeader_t* h, int length)
{
    if (h->bssLength < 0 || h->dataLength < 0 || h->litLength < 0 || h->codeLength <= 0)
        return 0;
    if (h->codeOffset < 0 || h->dataOffset < 0 || h->instructionCount <= 0)
        return 0;
    if (h->bssLength > VM_MAX_BSS_LENGTH)
        return 0;
    if (h->codeOffset > length || h->dataOffset > length)
        return 0;
    if (h->codeLength > length - h->codeOffset || h->dataLength > length - h->dataOffset)
        return 0;
    if (h->litLength > length - h->dataOffset - h->dataLength)
        return 0;
    return h->instructionCount <= h->codeLength;
}
static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
                                    int length, vmHeader_t* hostHeader)
{"""),
  ("""        if (header.h->bssLength < 0 || header.h->dataLength < 0 ||
            header.h->litLength < 0 || header.h->codeLength <= 0 ||
            header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
            header.h->instructionCount <= 0 ||
            header.h->bssLength > VM_MAX_BSS_LENGTH ||
            header.h->codeOffset > length || header.h->dataOffset > length ||
            header.h->codeLength > length - header.h->codeOffset ||
            header.h->dataLength > length - header.h->dataOffset ||
            header.h->litLength >
                length - header.h->dataOffset - header.h->dataLength ||
            header.h->instructionCount > header.h->codeLength)""", "if (!headerOk(header.h, length))"))
R('hdr-order', ("header.h->bssLength < 0 || header.h->dataLength < 0 ||", "header.h->dataLength < 0 || header.h->bssLength < 0 ||"))
R('hdr-swap-unrolled', ("""        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
        {
            ((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);
        }
""", """        int *dst = (int*)hostHeader;
        const int *src = (const int*)header.h;
        for (i = sizeof(vmHeader_t) / 4; i > 0; i--)
        {
            *dst++ = LittleLong(*src++);
        }
"""))
R('hdr-while', ("""        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
        {
            ((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);
        }
""", """        i = 0;
        while (i < (int)(sizeof(vmHeader_t)) / 4)
        {
            ((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);
            i++;
        }
"""))
R('hdr-memcpy', ("""        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
        {
            ((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);
        }
""", """        Com_Memcpy(hostHeader, header.h, sizeof(vmHeader_t));
        for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
        {
            ((int*)hostHeader)[i] = LittleLong(((int*)hostHeader)[i]);
        }
"""))
R('pow2-while', ("""    for (i = 0; dataLength > (1 << i); i++)
    {
    }
    dataLength = 1 << i;
""", """    i = 0;
    while ((1 << i) < dataLength)
    {
        i++;
    }
    dataLength = 1 << i;
"""))
R('pow2-helper', ("""    for (i = 0; dataLength > (1 << i); i++)
    {
    }
    dataLength = 1 << i;
""", "    dataLength = nextPow2(dataLength);\n"),
  ("static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,\n                                    int length, vmHeader_t* hostHeader)\n{",
   """static int nextPow2(int n)
{
    int shift = 0;
    while (n > (1 << shift))
    {
        shift++;
    }
    return 1 << shift;
}
static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
                                    int length, vmHeader_t* hostHeader)
{"""))
R('pow2-double', ("""    for (i = 0; dataLength > (1 << i); i++)
    {
    }
    dataLength = 1 << i;
""", """    i = 1;
    while (i < dataLength)
    {
        i *= 2;
    }
    dataLength = i;
"""))
R('pow2-shl', ("""    for (i = 0; dataLength > (1 << i); i++)
    {
    }
    dataLength = 1 << i;
""", """    for (i = 1; i < dataLength; i <<= 1)
    {
    }
    dataLength = i;
"""))
R('swap-ptr', ("""    for (i = 0; i < header.h->dataLength; i += sizeof(int))
    {
        *(int*)(vm->dataBase + i) = LittleLong(*(int*)(vm->dataBase + i));
    }
""", """    for (i = 0; i < header.h->dataLength; i += 4)
    {
        int* word = (int*)&vm->dataBase[i];
        *word     = LittleLong(*word);
    }
"""))
R('magic-first', ("""    if (LittleLong(header.h->vmMagic) == VM_MAGIC)
    {
""", """    const int magic = LittleLong(header.h->vmMagic);
    if (!(magic != VM_MAGIC))
    {
"""))
R('malloc-test-order', ("""    vm->dataMask  = dataLength - 1;
    if (vm->dataBase == NULL)
    {
        Com_Error(VM_MALLOC_FAILED, "Data malloc failed: out of memory?\\n");
        return NULL;
    }
""", """    if (!vm->dataBase)
    {
        Com_Error(VM_MALLOC_FAILED, "Data malloc failed: out of memory?\\n");
        return NULL;
    }
    vm->dataMask  = dataLength - 1;
"""))
R('call-loop', ("""    for (i = 1; i < (int)ARRAY_LEN(args); i++)
    {
        args[i] = va_arg(ap, int);
    }
""", """    i = 1;
    while (i < MAX_VMMAIN_ARGS)
    {
        args[i++] = va_arg(ap, int);
    }
"""))
R('call-fail-helper', ("""    if (vm->codeLength < 1)
    {
        vm->lastError = VM_NOT_LOADED;
        Com_Error(vm->lastError, "VM not loaded");
        return -1;
    }
""", """    if (vm->codeLength < 1)
    {
        return vmFail(vm, VM_NOT_LOADED, "VM not loaded");
    }
"""), ("intptr_t VM_Call(vm_t* vm, int command, ...)\n{", """static int vmFail(vm_t* vm, vmErrorCode_t code, const char* text)
{
    vm->lastError = code;
    Com_Error(code, text);
    return -1;
}

intptr_t VM_Call(vm_t* vm, int command, ...)
{"""))
R('free-helper', ("""    if (vm->codeBase)
    {
        Com_free(vm->codeBase, vm, VM_ALLOC_CODE_SEC);
        vm->codeBase = NULL;
    }

    if (vm->dataBase)
    {
        Com_free(vm->dataBase, vm, VM_ALLOC_DATA_SEC);
        vm->dataBase = NULL;
    }
""", """    freeBuf(vm, &vm->dataBase, VM_ALLOC_DATA_SEC);
    freeBuf(vm, &vm->codeBase, VM_ALLOC_CODE_SEC);
"""), ("void VM_Free(vm_t* vm)\n{", """static void freeBuf(vm_t* vm, uint8_t** p, vmMallocType_t type)
{
    if (*p != NULL)
    {
        Com_free(*p, vm, type);
        *p = NULL;
    }
}

void VM_Free(vm_t* vm)
{"""))
R('free-order', ("""    if (vm->codeBase)
    {
        Com_free(vm->codeBase, vm, VM_ALLOC_CODE_SEC);
        vm->codeBase = NULL;
    }

    if (vm->dataBase)
    {
        Com_free(vm->dataBase, vm, VM_ALLOC_DATA_SEC);
        vm->dataBase = NULL;
    }
""", """    if (vm->dataBase)
    {
        uint8_t* base = vm->dataBase;
        vm->dataBase = NULL;
        Com_free(base, vm, VM_ALLOC_DATA_SEC);
    }

    if (vm->codeBase)
    {
        Com_free(vm->codeBase, vm, VM_ALLOC_CODE_SEC);
        vm->codeBase = NULL;
    }
"""))
R('range-split', ("""    if ((dest & dataMask) != dest || len > dataMask ||
        ((dest + len) & dataMask) != dest + len)
    {
        Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
        return -1;
    }
    else
    {
        return 0;
    }
""", """    if (dest > dataMask || len > dataMask || dest + len > dataMask)
    {
        Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
        return -1;
    }
    return 0;
"""))
R('bc-compare', ("""    if ((dest & dataMask) != dest || (src & dataMask) != src || n > dataMask ||
        ((dest + n) & dataMask) != dest + n ||
        ((src + n) & dataMask) != src + n)
    {""", """    if (dest > dataMask || src > dataMask || n > dataMask || n > dataMask - dest ||
        n > dataMask - src)
    {"""))
R('bc-split', ("""    if ((dest & dataMask) != dest || (src & dataMask) != src || n > dataMask ||
        ((dest + n) & dataMask) != dest + n ||
        ((src + n) & dataMask) != src + n)
    {
        Com_Error(vm->lastError = VM_BLOCKCOPY_OUT_OF_RANGE,
                  "OP_BLOCK_COPY out of range");
        return;
    }

    Com_Memcpy(vm->dataBase + dest, vm->dataBase + src, n);
""", """    int ok = (dest & dataMask) == dest && (src & dataMask) == src && n <= dataMask;
    ok = ok && ((dest + n) & dataMask) == dest + n;
    ok = ok && ((src + n) & dataMask) == src + n;
    if (ok)
    {
        Com_Memcpy(&vm->dataBase[dest], &vm->dataBase[src], n);
    }
    else
    {
        vm->lastError = VM_BLOCKCOPY_OUT_OF_RANGE;
        Com_Error(VM_BLOCKCOPY_OUT_OF_RANGE, "OP_BLOCK_COPY out of range");
    }
"""))
R('le-plus', ("return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);", "return b[0] + (b[1] << 8) + (b[2] << 16) + ((unsigned)b[3] << 24);"))
R('le-loop', ("return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);", "uint32_t v = 0; int k; for (k = 3; k >= 0; k--) v = (v << 8) | b[k]; return (int)v;"))
R('prep-for', ("""    while (instruction < header->instructionCount)
    {
        vm->instructionPointers[instruction] = int_pc;
        instruction++;
""", """    for (instruction = 0; instruction < header->instructionCount; instruction++)
    {
        vm->instructionPointers[instruction] = int_pc;
"""))
R('prep2-for', ("""    while (instruction < header->instructionCount)
    {
        op = codeBase[int_pc];
        instruction++;
        int_pc++;
""", """    for (instruction = 0; instruction < header->instructionCount; instruction++)
    {
        op = codeBase[int_pc++];
"""))
R('prep-postinc', ("""        op               = (int)code[byte_pc];
        codeBase[int_pc] = op;

        byte_pc++;
        int_pc++;
""", """        op                 = code[byte_pc++];
        codeBase[int_pc++] = op;
"""))
WID = """        case OP_ENTER:
        case OP_CONST:
        case OP_LOCAL:
        case OP_LEAVE:
        case OP_EQ:
        case OP_NE:
        case OP_LTI:
        case OP_LEI:
        case OP_GTI:
        case OP_GEI:
        case OP_LTU:
        case OP_LEU:
        case OP_GTU:
        case OP_GEU:
        case OP_EQF:
        case OP_NEF:
        case OP_LTF:
        case OP_LEF:
        case OP_GTF:
        case OP_GEF:
        case OP_BLOCK_COPY:
            if (header->codeLength - byte_pc < 4)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM_PrepareInterpreter: operand out of range");
                return -1;
            }
            codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
            byte_pc += 4;
            int_pc++;
            break;
        case OP_ARG:
            if (byte_pc >= header->codeLength)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM_PrepareInterpreter: operand out of range");
                return -1;
            }
            codeBase[int_pc] = (int)code[byte_pc];
            byte_pc++;
            int_pc++;
            break;
        default:
            if (op < 0 || op >= OP_MAX)
            {
                vm->lastError = VM_BAD_INSTRUCTION;
                Com_Error(vm->lastError, "Bad VM instruction");
                return -1;
            }
            break;
        }
"""
SW = "        /* these are the only opcodes that aren't a single byte */\n        switch (op)\n        {\n" + WID
HLP = """static int operandSize(int op)
{
    switch (op)
    {
    case OP_ENTER: case OP_CONST: case OP_LOCAL: case OP_LEAVE: case OP_BLOCK_COPY:
        return 4;
    case OP_ARG:
        return 1;
    default:
        return op >= OP_EQ && op <= OP_GEF ? 4 : 0;
    }
}
"""
PI = "static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,\n                                 const uint8_t* bytecode)\n{"
R('operand-size-helper', (PI, HLP + PI), (SW, """        if (op < 0 || op >= OP_MAX)
        {
            vm->lastError = VM_BAD_INSTRUCTION;
            Com_Error(vm->lastError, "Bad VM instruction");
            return -1;
        }
        int size = operandSize(op);
        if (size > header->codeLength - byte_pc)
        {
            Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                      "VM_PrepareInterpreter: operand out of range");
            return -1;
        }
        if (size == 4)
        {
            codeBase[int_pc++] = LittleEndianToHost(&code[byte_pc]);
        }
        else if (size == 1)
        {
            codeBase[int_pc++] = code[byte_pc];
        }
        byte_pc += size;
"""))
R('prep-table', (PI, """static const uint8_t operandBytes[OP_MAX] = {
    [OP_ENTER] = 4, [OP_CONST] = 4, [OP_LOCAL] = 4, [OP_LEAVE] = 4, [OP_EQ] = 4, [OP_NE] = 4,
    [OP_LTI] = 4, [OP_LEI] = 4, [OP_GTI] = 4, [OP_GEI] = 4, [OP_LTU] = 4, [OP_LEU] = 4, [OP_GTU] = 4,
    [OP_GEU] = 4, [OP_EQF] = 4, [OP_NEF] = 4, [OP_LTF] = 4, [OP_LEF] = 4, [OP_GTF] = 4, [OP_GEF] = 4,
    [OP_BLOCK_COPY] = 4, [OP_ARG] = 1};
""" + PI), (SW, """        if (op < 0 || op >= OP_MAX)
        {
            vm->lastError = VM_BAD_INSTRUCTION;
            Com_Error(vm->lastError, "Bad VM instruction");
            return -1;
        }
        if (header->codeLength - byte_pc < operandBytes[op])
        {
            Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                      "VM_PrepareInterpreter: operand out of range");
            return -1;
        }
        if (operandBytes[op] == 4)
        {
            codeBase[int_pc++] = LittleEndianToHost(&code[byte_pc]);
            byte_pc += 4;
        }
        else if (operandBytes[op] == 1)
        {
            codeBase[int_pc++] = code[byte_pc++];
        }
"""))
R('emit-helper', (PI, """static int readOperand(int* out, const uint8_t* code, int byte_pc, const vmHeader_t* header)
{
    if (header->codeLength - byte_pc < 4)
    {
        return -1;
    }
    *out = LittleEndianToHost(code + byte_pc);
    return 0;
}
""" + PI), ("""            if (header->codeLength - byte_pc < 4)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM_PrepareInterpreter: operand out of range");
                return -1;
            }
            codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
""", """            if (readOperand(&codeBase[int_pc], code, byte_pc, header) != 0)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM_PrepareInterpreter: operand out of range");
                return -1;
            }
"""))
R('default-bad-op-first', ("""        op               = (int)code[byte_pc];
        codeBase[int_pc] = op;
""", """        op = (int)code[byte_pc];
        if (op >= OP_MAX)
        {
            vm->lastError = VM_BAD_INSTRUCTION;
            Com_Error(vm->lastError, "Bad VM instruction");
            return -1;
        }
        codeBase[int_pc] = op;
"""), ("""        default:
            if (op < 0 || op >= OP_MAX)
            {
                vm->lastError = VM_BAD_INSTRUCTION;
                Com_Error(vm->lastError, "Bad VM instruction");
                return -1;
            }
            break;
        }
""", """        default:
            break;
        }
"""))
R('branch-unsigned', ("""            if (codeBase[int_pc] < 0 ||
                codeBase[int_pc] >= vm->instructionCount)
""", """            if ((unsigned)codeBase[int_pc] >= (unsigned)vm->instructionCount)
"""))
R('branch-temp', ("""            if (codeBase[int_pc] < 0 ||
                codeBase[int_pc] >= vm->instructionCount)
            {
                Com_Error(""", """            v = codeBase[int_pc];
            if (v < 0 || v >= header->instructionCount)
            {
                Com_Error("""), ("vm->instructionPointers[codeBase[int_pc]];\n            int_pc++;", "vm->instructionPointers[v];\n            int_pc++;"), ("    int*           codeBase;\n\n    /* we're now", "    int*           codeBase;\n    int v;\n\n    /* we're now"))
R('second-pass-helper', ("""    int_pc      = 0;
    instruction = 0;

    /* Now that""", """    return VM_TranslateBranches(vm, header);
}

static int VM_TranslateBranches(vm_t* vm, const vmHeader_t* header)
{
    int op, int_pc = 0, instruction = 0;
    int* codeBase = (int*)vm->codeBase;
    /* Now that"""), (PI, "static int VM_TranslateBranches(vm_t* vm, const vmHeader_t* header);\n" + PI))
R('entry-order', ("""    *(int*)&image[(programStack + 4) & dataMask] = 0; /* return stack */
    /* will terminate the loop on return */
    *(int*)&image[programStack & dataMask] = -1;
""", """    *(int*)&image[programStack & dataMask]       = -1;
    *(int*)&image[(programStack + 4) & dataMask] = 0; /* return stack */
"""))
R('entry-ptr', ("""    for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
    {
        *(int*)&image[(programStack + 8 + arg * 4) & dataMask] = args[arg];
    }
""", """    for (arg = MAX_VMMAIN_ARGS - 1; arg >= 0; arg--)
    {
        int ofs = (programStack + 8 + arg * 4) & dataMask;
        *(int*)(image + ofs) = args[arg];
    }
"""))
R('load-temp', ("            r0 = opStack[opStackOfs] = *(int*)&image[r0 & dataMask];\n", "            r0 = *(int*)&image[r0 & dataMask];\n            opStack[opStackOfs] = r0;\n"))
R('store-macro', ("            *(int*)&image[r1 & dataMask] = r0;\n            opStackOfs -= 2;\n            DISPATCH();\n        goto_OP_STORE2:", "            opStackOfs -= 2;\n            *(int*)(image + (dataMask & r1)) = r0;\n            DISPATCH();\n        goto_OP_STORE2:"))
R('store-helper', ("            *(int*)&image[r1 & dataMask] = r0;\n            opStackOfs -= 2;\n            DISPATCH();\n        goto_OP_STORE2:", "            storeInt(image, dataMask, r1, r0);\n            opStackOfs -= 2;\n            DISPATCH();\n        goto_OP_STORE2:"),
  ("            *(int*)&image[programStack & dataMask] = programCounter;\n", "            storeInt(image, dataMask, programStack, programCounter);\n"),
  ("static int VM_CallInterpreted(vm_t* vm, int* args)\n{", "static void storeInt(uint8_t* image, int mask, int addr, int v)\n{\n    *(int*)&image[addr & mask] = v;\n}\nstatic int VM_CallInterpreted(vm_t* vm, int* args)\n{"))
R('syscall-helper', ("""                {
                    intptr_t argarr[MAX_VMSYSCALL_ARGS];
                    int      i;
                    for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)
                    {
                        argarr[i] = *(int*)&image[(programStack + 4 + i * 4) &
                                                  dataMask];
                    }
                    r = vm->systemCall(vm, argarr);
                }
""", "                r = doSyscall(vm, image, programStack + 4, dataMask);\n"),
  ("static int VM_CallInterpreted(vm_t* vm, int* args)\n{", """static int doSyscall(vm_t* vm, const uint8_t* image, int base, int mask)
{
    intptr_t argarr[MAX_VMSYSCALL_ARGS];
    int      i;
    for (i = 0; i < MAX_VMSYSCALL_ARGS; ++i)
    {
        argarr[i] = *(const int*)&image[(base + i * 4) & mask];
    }
    return vm->systemCall(vm, argarr);
}
static int VM_CallInterpreted(vm_t* vm, int* args)
{"""))
R('call-order', ("""            /* save current program counter */
            *(int*)&image[programStack & dataMask] = programCounter;

            v1 = programCounter;

            /* jump to the location on the stack */
            programCounter = r0;
            opStackOfs--;
""", """            v1 = programCounter;
            *(int*)&image[programStack & dataMask] = v1;
            opStackOfs--;
            programCounter = r0;
"""))
R('call-invert', ("""            else if ((unsigned)programCounter >= (unsigned)vm->instructionCount)
            {
                vm->lastError = VM_PC_OUT_OF_RANGE;
                Com_Error(vm->lastError,
                          "VM program counter out of range in OP_CALL");
                return -1;
            }
            else
            {
                programCounter = vm->instructionPointers[programCounter];
            }
""", """            else if (programCounter < vm->instructionCount)
            {
                programCounter = vm->instructionPointers[programCounter];
            }
            else
            {
                vm->lastError = VM_PC_OUT_OF_RANGE;
                Com_Error(vm->lastError,
                          "VM program counter out of range in OP_CALL");
                return -1;
            }
"""))
R('leave-invert', ("""            if (programCounter == -1)
            {
                goto done;
            }
            /* only a return address saved by OP_CALL is valid: the word
               behind any other word could be an unchecked operand */
            else if (programCounter < 1 || programCounter >= vm->codeLength ||
                     codeImage[programCounter - 1] != OP_CALL)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM program counter out of range in OP_LEAVE");
                return -1;
            }
            DISPATCH();
""", """            if (programCounter == -1)
            {
                goto done;
            }
            if (programCounter > 0 && programCounter < vm->codeLength &&
                codeImage[programCounter - 1] == OP_CALL)
            {
                DISPATCH();
            }
            Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                      "VM program counter out of range in OP_LEAVE");
            return -1;
"""))
R('jump-invert', ("""            if ((unsigned)r0 >= (unsigned)vm->instructionCount)
            {
                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                          "VM program counter out of range in OP_JUMP");
                return -1;
            }

            programCounter = vm->instructionPointers[r0];

            opStackOfs--;
            DISPATCH();
""", """            if (r0 < 0 || r0 >= vm->instructionCount)
            {
                vm->lastError = VM_PC_OUT_OF_RANGE;
                Com_Error(VM_PC_OUT_OF_RANGE,
                          "VM program counter out of range in OP_JUMP");
                return -1;
            }
            opStackOfs -= 1;
            programCounter = (int)vm->instructionPointers[r0];
            DISPATCH();
"""))
BR = """            if (r1 == r0)
            {
                programCounter = r2; /* vm->instructionPointers[r2]; */
                DISPATCH();
            }
            else
            {
                programCounter += 1;
                DISPATCH();
            }
"""
R('branch-ternary', (BR, "            programCounter = (r1 == r0) ? r2 : programCounter + 1;\n            DISPATCH();\n"))
R('branch-neg', (BR, "            if (r1 != r0)\n            {\n                programCounter++;\n            }\n            else\n            {\n                programCounter = r2;\n            }\n            DISPATCH();\n"))
R('const-reorder', ("""            opStackOfs++;
            r1 = r0;
            r0 = opStack[opStackOfs] = r2;

            programCounter += 1;
            DISPATCH2();
        goto_OP_LOCAL:""", """            r1 = r0;
            r0 = r2;
            programCounter++;
            opStackOfs++;
            opStack[opStackOfs] = r0;
            DISPATCH2();
        goto_OP_LOCAL:"""))
R('const-dispatch1', ("""            r0 = opStack[opStackOfs] = r2;

            programCounter += 1;
            DISPATCH2();
        goto_OP_LOCAL:""", """            r0 = opStack[opStackOfs] = r2;

            programCounter += 1;
            DISPATCH();
        goto_OP_LOCAL:"""))
R('stack-index-helper', ("opStackOfs++;\n            DISPATCH();", "opStackOfs = (uint8_t)(opStackOfs + 1);\n            DISPATCH();"))
R('create-nullcheck', ("    if (vm == NULL)\n    {\n        Com_Error(VM_INVALID_POINTER, \"Invalid vm pointer\");", "    if (!vm)\n    {\n        Com_Error(VM_INVALID_POINTER, \"Invalid vm pointer\");"))
R('create-fail-helper', ("""    if (!vm->instructionPointers)
    {
        VM_Free(vm); /* clears lastError */
        vm->lastError = VM_MALLOC_FAILED;
        Com_Error(vm->lastError,
                  "Instr. pointer malloc failed: out of memory?");
        return -1;
    }
""", """    if (!vm->instructionPointers)
    {
        return createFailed(vm, VM_MALLOC_FAILED, "Instr. pointer malloc failed: out of memory?");
    }
"""), ("""        VM_Free(vm); /* clears lastError */
        vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
        Com_Error(vm->lastError, "Failed to load bytecode");
        return -1;
""", """        return createFailed(vm, VM_FAILED_TO_LOAD_BYTECODE, "Failed to load bytecode");
"""), ("int VM_Create(vm_t* vm, const char* name,", """static int createFailed(vm_t* vm, vmErrorCode_t e, const char* msg)
{
    VM_Free(vm);
    vm->lastError = e;
    Com_Error(e, msg);
    return -1;
}
int VM_Create(vm_t* vm, const char* name,"""))
R('create-goto-fail', ("""        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
        {
            const vmErrorCode_t lastError = vm->lastError;
            VM_Free(vm); /* clears lastError */
            vm->lastError = lastError;
            return -1;
        }
""", """        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
        {
            goto fail;
        }
"""), ("""    Com_Printf("Instruction count: %i\\n", header->instructionCount);
#endif

    return 0;
}""", """    Com_Printf("Instruction count: %i\\n", header->instructionCount);
#endif

    return 0;
fail:
    {
    const vmErrorCode_t lastError = vm->lastError;
    VM_Free(vm); /* clears lastError */
    vm->lastError = lastError;
    return -1;
    }
}"""))
R('create-sp-early', ("    vm->codeLength = header->codeLength;\n", "    vm->codeLength = header->codeLength;\n    vm->programStack = vm->dataMask + 1;\n    vm->stackBottom  = vm->programStack - VM_PROGRAM_STACK_SIZE;\n"),
  ("    /* the stack is implicitly at the end of the image */\n    vm->programStack = vm->dataMask + 1;\n    vm->stackBottom  = vm->programStack - VM_PROGRAM_STACK_SIZE;\n", ""))
R('argptr-ternary', ("    if (!vmAddr)\n    {\n        return NULL;\n    }\n    if (vm == NULL)", "    if (vmAddr == 0)\n    {\n        return NULL;\n    }\n    if (!vm)"), ("    return (void*)(vm->dataBase + (vmAddr & vm->dataMask));", "    uint8_t* base = vm->dataBase;\n    return &base[vm->dataMask & vmAddr];"))
R('float-memcpy', ("""    fi.i = x;
    return fi.f;
""", """    float r;
    memcpy(&r, &x, sizeof(r));
    return r;
"""))
R('divi-reorder', ("        goto_OP_DIVI:", "        goto_OP_DIVI:\n            ;"))
R('call-interp-tail', ("    r = VM_CallInterpreted(vm, args);\n    --vm->callLevel;", "    r = VM_CallInterpreted(vm, args);\n    vm->callLevel -= 1;"))
R('call-level-save', ("    ++vm->callLevel;\n    r = VM_CallInterpreted(vm, args);\n    --vm->callLevel;", "    int level = vm->callLevel;\n    vm->callLevel = level + 1;\n    r = VM_CallInterpreted(vm, args);\n    vm->callLevel = level;"))
R('ci-bool', ("vm->currentlyInterpreting = vm->callLevel > 0;", "if (vm->callLevel > 0)\n        vm->currentlyInterpreting = 1;\n    else\n        vm->currentlyInterpreting = 0;"))
R('debug-noop', ("    image          = vm->dataBase;\n", "    (void)arg;\n    image          = vm->dataBase;\n"))
R('hoist-locals', ("    dataMask       = vm->dataMask;\n", "    dataMask       = vm->dataMask;\n    const int instructionCount = vm->instructionCount;\n    const intptr_t* ip = vm->instructionPointers;\n"),
  ("            if ((unsigned)r0 >= (unsigned)vm->instructionCount)", "            if ((unsigned)r0 >= (unsigned)instructionCount)"),
  ("            programCounter = vm->instructionPointers[r0];", "            programCounter = ip[r0];"))
