V = 'src/vm/vm.c'
EDITS = []
def B(name, exp, *edits, file=V):
    EDITS.append((name, 'bug', file, list(edits), exp.split()))

B('store2-nomask', 'C01 C07', ("*(short*)&image[r1 & dataMask] = r0;", "*(short*)&image[(unsigned)r1 <= (unsigned)dataMask + 2 ? r1 : r1 & dataMask] = r0;"))
B('load1-maskplus', 'C01 C07', ("r0 = opStack[opStackOfs] = image[r0 & dataMask];", "r0 = opStack[opStackOfs] = image[r0 & (dataMask | 4)];"))
B('guard-2', 'C01 C16 C04', ("vm->dataAlloc = dataLength + 4;", "vm->dataAlloc = dataLength + 2;"))
B('mask-full', 'C01 C16', ("vm->dataMask  = dataLength - 1;", "vm->dataMask  = dataLength;"))
B('bc-src-unchecked', 'C01', ("((src + n) & dataMask) != src + n)", "((dest + n) & dataMask) != dest + n)"))
B('bc-no-return', 'C01', ("                  \"OP_BLOCK_COPY out of range\");\n        return;\n", "                  \"OP_BLOCK_COPY out of range\");\n"))
B('arg-nomask', 'C01', ("*(int*)&image[(codeImage[programCounter] + programStack) &\n                          dataMask] = r0;", "*(int*)&image[codeImage[programCounter] + (programStack & dataMask)] = r0;"))
B('syscall-arg-linear', 'C01 C12', ("argarr[i] = *(int*)&image[(programStack + 4 + i * 4) &\n                                                  dataMask];", "argarr[i] = *(int*)&image[((programStack + 4) & dataMask) + i * 4];"))
B('sys-arr-16', 'C12', ("for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)", "for (i = 0; i < (int)ARRAY_LEN(argarr) - 1; ++i)"))
B('sys-arr-17', 'C01', ("for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)", "for (i = 0; i <= (int)ARRAY_LEN(argarr); ++i)"))
B('call-le', 'C02', ("else if ((unsigned)programCounter >= (unsigned)vm->instructionCount)", "else if ((unsigned)programCounter > (unsigned)vm->instructionCount)"))
B('jump-le', 'C02', ("if ((unsigned)r0 >= (unsigned)vm->instructionCount)", "if ((unsigned)r0 > (unsigned)vm->instructionCount)"))
B('jump-codelen', 'C02', ("if ((unsigned)r0 >= (unsigned)vm->instructionCount)", "if ((unsigned)r0 >= (unsigned)vm->codeLength)"))
B('jump-signed', 'C02', ("if ((unsigned)r0 >= (unsigned)vm->instructionCount)", "if (r0 >= vm->instructionCount)"))
B('leave-neg', 'C02', ("else if (programCounter < 1 || programCounter >= vm->codeLength ||\n                     codeImage", "else if (programCounter >= vm->codeLength ||\n                     codeImage"))
B('leave-nocall', 'C02', ("programCounter >= vm->codeLength ||\n                     codeImage[programCounter - 1] != OP_CALL)", "programCounter >= vm->codeLength)"))
B('leave-any-neg', 'C02 C09 C13 C07', ("if (programCounter == -1)\n            {\n                goto done;", "if (programCounter < 0)\n            {\n                goto done;"))
B('branch-le', 'C02 C05', ("codeBase[int_pc] >= vm->instructionCount)", "codeBase[int_pc] > vm->instructionCount)"))
B('branch-noneg', 'C02 C05 C04', ("            if (codeBase[int_pc] < 0 ||\n                codeBase[int_pc] >= vm->instructionCount)", "            if (codeBase[int_pc] >= vm->instructionCount)"))
B('branch-gef-not-translated', 'C02 C06', ("        case OP_GTF:\n        case OP_GEF:\n            if (codeBase[int_pc] < 0 ||", "        case OP_GTF:\n            if (codeBase[int_pc] < 0 ||"), ("        case OP_BLOCK_COPY:\n        case OP_ARG:\n            int_pc++;", "        case OP_BLOCK_COPY:\n        case OP_ARG:\n        case OP_GEF:\n            int_pc++;"))
B('sentinel-ignore', 'C02', ("Com_Memset(vm->codeBase, OP_UNDEF, (vm->codeLength + 1) * 4);", "Com_Memset(vm->codeBase, OP_IGNORE, (vm->codeLength + 1) * 4);"))
B('no-sentinel', 'C02', ("(vm->codeLength + 1) * 4, vm,", "vm->codeLength * 4, vm,"), ("Com_Memset(vm->codeBase, OP_UNDEF, (vm->codeLength + 1) * 4);", "Com_Memset(vm->codeBase, OP_UNDEF, vm->codeLength * 4);"))
B('opstack-int', 'C03', ("uint8_t  opStackOfs;", "int      opStackOfs;"))
B('opstack-noclear', 'C03', ("    Com_Memset(stack, 0, sizeof(stack)); /* the VM can read all of it */\n", ""))
B('opstack-r1', 'C03', ("r1 = opStack[(uint8_t)(opStackOfs - 1)]; ", "r1 = opStack[opStackOfs - 1]; "))
B('opstack-size', 'C03', ("uint8_t  stack[OPSTACK_SIZE + 15];", "uint8_t  stack[OPSTACK_SIZE];"))
B('push-two', 'C07', ("        goto_OP_PUSH:\n            opStackOfs++;", "        goto_OP_PUSH:\n            opStackOfs += 2;"))
B('hdr-codelen-only', 'C04 C05', ("header.h->codeLength > length - header.h->codeOffset ||", "header.h->codeLength > length ||"))
B('hdr-lit', 'C04 C05', ("length - header.h->dataOffset - header.h->dataLength ||", "length - header.h->dataOffset ||"))
B('hdr-neg-lit', 'C04 C05', ("header.h->litLength < 0 || header.h->codeLength <= 0 ||", "header.h->codeLength <= 0 ||"))
B('hdr-bss', 'C04', ("            header.h->bssLength > VM_MAX_BSS_LENGTH ||\n", ""))
B('hdr-ic0', 'C05', ("header.h->instructionCount <= 0 ||", "header.h->instructionCount < 0 ||"))
B('hdr-strict', 'C05', ("header.h->codeOffset > length || header.h->dataOffset > length ||", "header.h->codeOffset > length || header.h->dataOffset >= length ||"))
B('hdr-len', 'C04', ("length <= (int)sizeof(vmHeader_t) ||", "length < (int)sizeof(vmHeader_t) - 4 ||"))
B('size-limit', 'C05', ("length > VM_MAX_IMAGE_SIZE)", "length > VM_MAX_IMAGE_SIZE / 2)"))
B('oper-short', 'C04 C05', ("if (header->codeLength - byte_pc < 4)", "if (header->codeLength - byte_pc < 3)"))
B('oper-le', 'C05', ("if (header->codeLength - byte_pc < 4)", "if (header->codeLength - byte_pc <= 4)"))
B('arg-oper-nocheck', 'C04 C05', ("        case OP_ARG:\n            if (byte_pc >= header->codeLength)", "        case OP_ARG:\n            if (byte_pc > header->codeLength)"))
B('pc-check-gone', 'C04 C05', ("        if (byte_pc >= header->codeLength)\n        {\n            Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,\n                      \"VM_PrepareInterpreter: pc", "        if (byte_pc > header->codeLength)\n        {\n            Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,\n                      \"VM_PrepareInterpreter: pc"))
B('opmax-le', 'C05 C06', ("if (op < 0 || op >= OP_MAX)", "if (op < 0 || op > OP_MAX)"))
B('arg-4', 'C06', ("            codeBase[int_pc] = (int)code[byte_pc];\n            byte_pc++;", "            codeBase[int_pc] = (int8_t)code[byte_pc];\n            byte_pc++;"))
B('operand-be', 'C06', ("return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);", "return (b[0] << 0) | (b[1] << 8) | (b[2] << 24) | (b[3] << 16);"))
B('ip-off', 'C06 C02', ("        vm->instructionPointers[instruction] = int_pc;\n        instruction++;", "        vm->instructionPointers[instruction] = byte_pc;\n        instruction++;"))
for op, old, new in [
        ('LTU', "if (((unsigned)r1) < ((unsigned)r0))", "if (r1 < r0)"),
        ('GEU', "if (((unsigned)r1) >= ((unsigned)r0))", "if ((unsigned)r1 > (unsigned)r0)"),
        ('LEI', "if (r1 <= r0)", "if (r1 < r0)"),
        ('RSHU', "((unsigned)r1) >> r0", "r1 >> r0"),
        ('CVFI', "Q_ftol(((float", "(int)(0.5f + ((float"),
        ('SEX8', "= (int8_t)op", "= (uint8_t)op"),
        ('SEX16', "= (int16_t)op", "= (uint16_t)op"),
        ('LOAD2', "*(unsigned short*)&image[r0", "*(short*)&image[r0"),
        ]:
    B('op-' + op, 'C07', (old, new))
B('call-pc', 'C07 C02', ("            *(int*)&image[programStack & dataMask] = programCounter;", "            *(int*)&image[programStack & dataMask] = programCounter - 1;"))
B('enter-sub', 'C07', ("            programCounter += 1;\n            programStack -= v1;", "            programCounter += 1;\n            programStack -= v1 & ~3;"))
B('const-r1', 'C07', ("            opStackOfs++;\n            r1 = r0;\n            r0 = opStack[opStackOfs] = r2;\n", "            opStackOfs++;\n            r0 = opStack[opStackOfs] = r2;\n"))
B('local-r1', 'C07', ("            r1 = r0;\n            r0 = opStack[opStackOfs] = r2 + programStack;", "            r0 = opStack[opStackOfs] = r2 + programStack;"))
B('err-noreport-leave', 'C09', ("                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,\n                          \"VM program counter out of range in OP_LEAVE\");\n", "                vm->lastError = VM_PC_OUT_OF_RANGE;\n"))
B('err-notrecorded', 'C09', ("                vm->lastError = VM_PC_OUT_OF_RANGE;\n                Com_Error(vm->lastError,\n                          \"VM program counter out of range in OP_CALL\");", "                Com_Error(VM_PC_OUT_OF_RANGE,\n                          \"VM program counter out of range in OP_CALL\");"))
B('err-order', 'C09', ("        VM_Free(vm); /* clears lastError */\n        vm->lastError = VM_MALLOC_FAILED;", "        vm->lastError = VM_MALLOC_FAILED;\n        VM_Free(vm); /* clears lastError */"))
B('err-ret0', 'C09', ("        vm->lastError = VM_NO_SYSCALL_CALLBACK;\n        Com_Error(vm->lastError, \"No systemcalls provided\");\n        return -1;", "        vm->lastError = VM_NO_SYSCALL_CALLBACK;\n        Com_Error(vm->lastError, \"No systemcalls provided\");\n        return 0;"))
B('leak-prepare', 'C10', ("            VM_Free(vm); /* clears lastError */\n            vm->lastError = lastError;", "            vm->lastError = lastError;"))
B('free-type', 'C10', ("Com_free(vm->instructionPointers, vm, VM_ALLOC_INSTRUCTION_POINTERS);", "Com_free(vm->instructionPointers, vm, VM_ALLOC_CODE_SEC);"))
B('free-code-leak', 'C10', ("    if (vm->codeBase)\n    {\n        Com_free(vm->codeBase, vm, VM_ALLOC_CODE_SEC);", "    if (vm->codeBase && vm->compiled)\n    {\n        Com_free(vm->codeBase, vm, VM_ALLOC_CODE_SEC);"))
B('free-running', 'C10', ("    if (vm->callLevel)\n    {\n        vm->lastError = VM_FREE", "    if (vm->callLevel > 1)\n    {\n        vm->lastError = VM_FREE"))
B('free-norezero', 'C10', ("    Com_Memset(vm, 0, sizeof(*vm));\n}", "}"), )
B('ci-zero', 'C11', ("vm->currentlyInterpreting = vm->callLevel > 0;", "vm->currentlyInterpreting = 0;"))
B('sp-syscall', 'C11', ("vm->programStack = programStack - 4;", "vm->programStack = programStack + 4;"))
B('sp-norestore', 'C11', ("    vm->programStack          = stackOnEntry;\n    vm->currently", "    vm->currently"))
B('level-on-error', 'C11', ("    --vm->callLevel;", "    if (!vm->lastError)\n        --vm->callLevel;"))
B('sys-uint', 'C12', ("argarr[i] = *(int*)&image[(programStack", "argarr[i] = *(unsigned*)&image[(programStack"))
B('sys-number', 'C12', ("                    -1 - programCounter;\n\n                /* the vm", "                    -programCounter;\n\n                /* the vm"))
B('sys-retslot', 'C12 C07', ("                opStackOfs++;\n                opStack[opStackOfs] = r;", "                opStack[opStackOfs] = r;\n                opStackOfs++;"))
B('sys-pc', 'C12 C02', ("                programCounter = v1;\n", "                programCounter = *(int*)&image[programStack & dataMask];\n"))
B('main-args', 'C13', ("    for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)", "    for (arg = 0; arg < MAX_VMMAIN_ARGS - 1; arg++)"))
B('main-frame', 'C13', ("programStack -= (8 + 4 * MAX_VMMAIN_ARGS);", "programStack -= (4 + 4 * MAX_VMMAIN_ARGS);"))
B('main-va', 'C13', ("    for (i = 1; i < (int)ARRAY_LEN(args); i++)\n    {\n        args[i] = va_arg(ap, int);", "    for (i = 1; i < (int)ARRAY_LEN(args); i++)\n    {\n        args[i] = (short)va_arg(ap, int);"))
B('main-ret', 'C13', ("    return opStack[opStackOfs];", "    return opStack[1];"))
B('main-retaddr', 'C13', ("*(int*)&image[programStack & dataMask] = -1;", "*(int*)&image[programStack & dataMask] = 0;"))
B('image-write', 'C14', ("((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);", "((int*)hostHeader)[i] = ((int*)header.h)[i] = LittleLong(((int*)header.h)[i]);"))
B('image-retain', 'C14', ("    vm->codeLength = header->codeLength;\n", "    vm->codeLength = header->codeLength;\n    vm->searchPath = (const char*)bytecode;\n"))
B('static-args', 'C15', ("    int      args[MAX_VMMAIN_ARGS];\n    va_list", "    static int args[MAX_VMMAIN_ARGS];\n    va_list"))
B('static-arr', 'C15', ("intptr_t argarr[MAX_VMSYSCALL_ARGS];", "static intptr_t argarr[MAX_VMSYSCALL_ARGS];"))
B('static-stack', 'C15', ("    uint8_t  stack[OPSTACK_SIZE + 15];", "    static uint8_t  stack[OPSTACK_SIZE + 15];"))
B('no-zero', 'C16', ("    Com_Memset(vm->dataBase, 0, vm->dataAlloc);\n", "    Com_Memset(vm->dataBase, 0, vm->dataMask);\n"))
B('lit-lost', 'C16', ("               header.h->dataLength + header.h->litLength);", "               header.h->dataLength);"))
B('bss-notcounted', 'C16', ("        header.h->dataLength + header.h->litLength + header.h->bssLength;", "        header.h->dataLength + header.h->litLength;"))
B('stack-top', 'C16', ("vm->programStack = vm->dataMask + 1;", "vm->programStack = vm->dataMask - 3;"))
B('pow2-lt', 'C16', ("for (i = 0; dataLength > (1 << i); i++)", "for (i = 0; dataLength >= (1 << i) * 2; i++)"))
B('argptr-nomask', 'C17', ("return (void*)(vm->dataBase + (vmAddr & vm->dataMask));", "return (void*)(vm->dataBase + (vmAddr & (vm->dataMask + 1)));"))
B('range-trunc', 'C17', ("    const unsigned dest     = vmAddr;", "    const unsigned dest     = (unsigned short)vmAddr;"))
B('f2i-round', 'C17', ("    fi.f = f;\n    return fi.i;", "    return (int32_t)f;"))
B('div-zero', 'C08 C07', ("if (r0 == 0)", "if (r0 == 0 && r1 == 0)"))
B('div-min', 'C08', ("r0 == -1", "r0 == -2"))
