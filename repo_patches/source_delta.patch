From 35830742566398bd5fab907a02494f03c3cfd742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:44 +0000
Subject: [PATCH 01/40] fix: reject .qvm headers whose segment sums overflow or
 that claim more instructions than code bytes

codeOffset + codeLength and dataOffset + dataLength + litLength wrapped
around for large values and passed the check, and instructionCount was not
bounded at all. Both let the loader read outside the supplied image.
---
 src/vm/vm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 88d6092..bd8122b 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -472,9 +472,12 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
             header.h->codeOffset < 0 || header.h->dataOffset < 0 ||
             header.h->instructionCount <= 0 ||
             header.h->bssLength > VM_MAX_BSS_LENGTH ||
-            header.h->codeOffset + header.h->codeLength > length ||
-            header.h->dataOffset + header.h->dataLength + header.h->litLength >
-                length)
+            header.h->codeOffset > length || header.h->dataOffset > length ||
+            header.h->codeLength > length - header.h->codeOffset ||
+            header.h->dataLength > length - header.h->dataOffset ||
+            header.h->litLength >
+                length - header.h->dataOffset - header.h->dataLength ||
+            header.h->instructionCount > header.h->codeLength)
         {
             Com_Printf("Warning: %s has bad header\n", vm->name);
             return NULL;
-- 
2.43.0


From f93d650567fd7b2725d009e8a6af48809b1f26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:14 +0000
Subject: [PATCH 02/40] fix: do not write the byte swapped header into the
 caller's const bytecode

VM_LoadQVM swapped the header in place through a cast. A read-only image
crashed the host, and on big endian hosts a second VM_Create with the same
image failed.
---
 src/vm/vm.c | 45 +++++++++++++++++++++++++--------------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index bd8122b..4d60de7 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -276,16 +276,19 @@ const static char* opnames[OPCODE_TABLE_SIZE] = {
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] bytecode Pointer to bytecode.
  * @param[in] length Number of bytes in bytecode array.
- * @return Pointer to start/header of vm bytecode. */
+ * @param[out] hostHeader Bytecode header in host byte order.
+ * @return hostHeader, or NULL if the bytecode can't be loaded. */
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length);
+                                    int length, vmHeader_t* hostHeader);
 
 /** Helper function for VM_Create: Set up the virtual machine during loading.
  * Ensure consistency and prepare the jumps.
  * @param[in,out] vm Pointer to virtual machine, prepared by VM_Create.
  * @param[in] header Header of .qvm bytecode.
+ * @param[in] bytecode Pointer to bytecode.
  * @return 0 if everything is OK. -1 otherwise. */
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header);
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode);
 
 /** Run a function from the virtual machine with the interpreter (i.e. no JIT).
  * @param[in] vm Pointer to initialized virtual machine.
@@ -378,7 +381,8 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 
     Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
-    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length);
+    vmHeader_t        hostHeader;
+    const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
     if (!header)
     {
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
@@ -409,7 +413,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     vm->compiled = 0; /* no JIT */
     if (!vm->compiled)
     {
-        if (VM_PrepareInterpreter(vm, header) != 0)
+        if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
             VM_Free(vm);
             return -1;
@@ -440,11 +444,11 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
 }
 
 static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
-                                    int length)
+                                    int length, vmHeader_t* hostHeader)
 {
     int dataLength;
     int i;
-    const union {
+    union {
         const vmHeader_t* h;
         const uint8_t*    v;
     } header = {.v = bytecode };
@@ -460,11 +464,12 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
 
     if (LittleLong(header.h->vmMagic) == VM_MAGIC)
     {
-        /* byte swap the header */
+        /* byte swap the header (the bytecode itself is not touched) */
         for (i = 0; i < (int)(sizeof(vmHeader_t)) / 4; i++)
         {
-            ((int*)header.h)[i] = LittleLong(((int*)header.h)[i]);
+            ((int*)hostHeader)[i] = LittleLong(((int*)header.h)[i]);
         }
+        header.h = hostHeader;
 
         /* validate */
         if (header.h->bssLength < 0 || header.h->dataLength < 0 ||
@@ -515,7 +520,7 @@ static const vmHeader_t* VM_LoadQVM(vm_t* vm, const uint8_t* bytecode,
     Com_Memset(vm->dataBase, 0, vm->dataAlloc);
 
     /* copy the intialized data */
-    Com_Memcpy(vm->dataBase, header.v + header.h->dataOffset,
+    Com_Memcpy(vm->dataBase, bytecode + header.h->dataOffset,
                header.h->dataLength + header.h->litLength);
 
     /* byte swap the longs */
@@ -694,14 +699,15 @@ static int LittleEndianToHost(const uint8_t b[4])
     return (b[0] << 0) | (b[1] << 8) | (b[2] << 16) | (b[3] << 24);
 }
 
-static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
+static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
+                                 const uint8_t* bytecode)
 {
-    int      op;
-    int      byte_pc;
-    int      int_pc;
-    uint8_t* code;
-    int      instruction;
-    int*     codeBase;
+    int            op;
+    int            byte_pc;
+    int            int_pc;
+    const uint8_t* code;
+    int            instruction;
+    int*           codeBase;
 
     vm->codeBase = (uint8_t*)Com_malloc(
         vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
@@ -712,14 +718,13 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header)
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, (uint8_t*)header + header->codeOffset,
-               vm->codeLength);
+    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
     int_pc = byte_pc = 0;
     instruction      = 0;
-    code             = (uint8_t*)header + header->codeOffset;
+    code             = bytecode + header->codeOffset;
     codeBase         = (int*)vm->codeBase;
 
     /* Copy and expand instructions to words while
-- 
2.43.0


From 7cc4dd8964408a7b1517f9f16a61056da99b4f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 03/40] fix: check the code length before reading an
 instruction or its operand

VM_PrepareInterpreter read the opcode first, compared with > instead of >=
and never checked that the operand of the last instruction is inside the
code segment: reads behind the bytecode, writes behind codeBase.
---
 src/vm/vm.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 4d60de7..c7be22a 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -734,14 +734,14 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         vm->instructionPointers[instruction] = int_pc;
         instruction++;
 
-        op               = (int)code[byte_pc];
-        codeBase[int_pc] = op;
-        if (byte_pc > header->codeLength)
+        if (byte_pc >= header->codeLength)
         {
             Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
-                      "VM_PrepareInterpreter: pc > header->codeLength");
+                      "VM_PrepareInterpreter: pc >= header->codeLength");
             return -1;
         }
+        op               = (int)code[byte_pc];
+        codeBase[int_pc] = op;
 
         byte_pc++;
         int_pc++;
@@ -770,11 +770,23 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_GTF:
         case OP_GEF:
         case OP_BLOCK_COPY:
+            if (header->codeLength - byte_pc < 4)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand out of range");
+                return -1;
+            }
             codeBase[int_pc] = LittleEndianToHost(&code[byte_pc]);
             byte_pc += 4;
             int_pc++;
             break;
         case OP_ARG:
+            if (byte_pc >= header->codeLength)
+            {
+                Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
+                          "VM_PrepareInterpreter: operand out of range");
+                return -1;
+            }
             codeBase[int_pc] = (int)code[byte_pc];
             byte_pc++;
             int_pc++;
-- 
2.43.0


From e0f8313c40590c0907858c9a7db2ad10358ab592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:44 +0000
Subject: [PATCH 04/40] fix: off by one in the check of branch targets

A branch to instruction number instructionCount was accepted and translated
with a word read from behind the instructionPointers array.
---
 src/vm/vm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c7be22a..8d19c55 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -833,7 +833,8 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         case OP_LEF:
         case OP_GTF:
         case OP_GEF:
-            if (codeBase[int_pc] < 0 || codeBase[int_pc] > vm->instructionCount)
+            if (codeBase[int_pc] < 0 ||
+                codeBase[int_pc] >= vm->instructionCount)
             {
                 Com_Error(vm->lastError = VM_JUMP_TO_INVALID_INSTRUCTION,
                           "VM_PrepareInterpreter: Jump to invalid "
-- 
2.43.0


From 57c114b49710069940eba9506a761af4af1291a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:45 +0000
Subject: [PATCH 05/40] fix: keep the program counter on validated instructions

The words of codeBase behind the last instruction were left uninitialized or
held a copy of the raw bytecode, and OP_LEAVE accepted any saved return
address below codeLength. Both let bytecode execute operand words with branch
targets VM_PrepareInterpreter never checked, e.g. jump out of codeBase.
---
 src/vm/vm.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 8d19c55..7b8ad1c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -709,8 +709,10 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
     int            instruction;
     int*           codeBase;
 
-    vm->codeBase = (uint8_t*)Com_malloc(
-        vm->codeLength * 4, vm, VM_ALLOC_CODE_SEC); /* we're now int aligned */
+    /* we're now int aligned; one extra word, so that running off the end of
+       the code ends in an OP_UNDEF */
+    vm->codeBase = (uint8_t*)Com_malloc((vm->codeLength + 1) * 4, vm,
+                                        VM_ALLOC_CODE_SEC);
     if (!vm->codeBase)
     {
         Com_Error(VM_MALLOC_FAILED,
@@ -718,7 +720,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
         return -1;
     }
 
-    Com_Memcpy(vm->codeBase, bytecode + header->codeOffset, vm->codeLength);
+    Com_Memset(vm->codeBase, OP_UNDEF, (vm->codeLength + 1) * 4);
 
     /* we don't need to translate the instructions, but we still need
        to find each instructions starting point for jumps */
@@ -1220,7 +1222,10 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             {
                 goto done;
             }
-            else if ((unsigned)programCounter >= (unsigned)vm->codeLength)
+            /* only a return address saved by OP_CALL is valid: the word
+               behind any other word could be an unchecked operand */
+            else if (programCounter < 1 || programCounter >= vm->codeLength ||
+                     codeImage[programCounter - 1] != OP_CALL)
             {
                 Com_Error(vm->lastError = VM_PC_OUT_OF_RANGE,
                           "VM program counter out of range in OP_LEAVE");
-- 
2.43.0


From d97680d588a84814f0bfd03761798c1cb4185769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:20 +0000
Subject: [PATCH 06/40] fix: mask every access relative to the program stack

OP_CALL, OP_LEAVE, system calls and the frame set up by VM_Call used
programStack as an unmasked index into the data segment. The bytecode controls
it with OP_ENTER/OP_LEAVE operands (or by deep recursion, or with a data
segment smaller than the VM_Call frame) and could read and write host memory.
---
 src/vm/vm.c | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 7b8ad1c..c624372 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -928,11 +928,12 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 
     for (arg = 0; arg < MAX_VMMAIN_ARGS; arg++)
     {
-        *(int*)&image[programStack + 8 + arg * 4] = args[arg];
+        *(int*)&image[(programStack + 8 + arg * 4) & dataMask] = args[arg];
     }
 
-    *(int*)&image[programStack + 4] = 0; /* return stack */
-    *(int*)&image[programStack] = -1;    /* will terminate the loop on return */
+    *(int*)&image[(programStack + 4) & dataMask] = 0; /* return stack */
+    /* will terminate the loop on return */
+    *(int*)&image[programStack & dataMask] = -1;
 
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
@@ -1098,7 +1099,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_CALL:
             /* save current program counter */
-            *(int*)&image[programStack] = programCounter;
+            *(int*)&image[programStack & dataMask] = programCounter;
 
             /* jump to the location on the stack */
             programCounter = r0;
@@ -1116,38 +1117,35 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save the stack to allow recursive VM entry */
                 vm->programStack = programStack - 4;
 #ifdef DEBUG_VM
-                int stomped = *(int*)&image[programStack + 4];
+                int stomped = *(int*)&image[(programStack + 4) & dataMask];
 #endif
-                *(int*)&image[programStack + 4] = -1 - programCounter;
+                *(int*)&image[(programStack + 4) & dataMask] =
+                    -1 - programCounter;
 
                 /* the vm has ints on the stack, we expect
-                   pointers so we might have to convert it */
-                if (sizeof(intptr_t) != sizeof(int))
+                   pointers so we might have to convert it. The arguments
+                   might wrap around at the end of the data segment. */
                 {
                     intptr_t argarr[MAX_VMSYSCALL_ARGS];
-                    int*     imagePtr = (int*)&image[programStack];
                     int      i;
                     for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)
                     {
-                        argarr[i] = *(++imagePtr);
+                        argarr[i] = *(int*)&image[(programStack + 4 + i * 4) &
+                                                  dataMask];
                     }
                     r = vm->systemCall(vm, argarr);
                 }
-                else
-                {
-                    r = vm->systemCall(vm, (intptr_t*)&image[programStack + 4]);
-                }
 
 #ifdef DEBUG_VM
                 /* this is just our stack frame pointer, only needed
                    for debugging */
-                *(int*)&image[programStack + 4] = stomped;
+                *(int*)&image[(programStack + 4) & dataMask] = stomped;
 #endif
 
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter      = *(int*)&image[programStack];
+                programCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
@@ -1185,7 +1183,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             /* save old stack frame for debugging traces */
-            *(int*)&image[programStack + 4] = programStack + v1;
+            *(int*)&image[(programStack + 4) & dataMask] = programStack + v1;
             if (vm_debugLevel)
             {
                 Com_Printf("%s%i---> %s\n", VM_Indent(vm), opStackOfs,
@@ -1208,7 +1206,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             programStack += v1;
 
             /* grab the saved program counter */
-            programCounter = *(int*)&image[programStack];
+            programCounter = *(int*)&image[programStack & dataMask];
 #ifdef DEBUG_VM
             profileSymbol = VM_ValueToFunctionSymbol(vm, programCounter);
             if (vm_debugLevel)
-- 
2.43.0


From c375bd71c141baa554c5d63749ef7f049c49a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 07/40] fix: do not take the return address of a system call
 from VM memory

Bytecode can let a system call (memset, memcpy) overwrite the saved program
counter, which was then used unchecked: execution continued anywhere.
---
 src/vm/vm.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index c624372..ce638d5 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1101,6 +1101,8 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             /* save current program counter */
             *(int*)&image[programStack & dataMask] = programCounter;
 
+            v1 = programCounter;
+
             /* jump to the location on the stack */
             programCounter = r0;
             opStackOfs--;
@@ -1145,7 +1147,8 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
                 /* save return value */
                 opStackOfs++;
                 opStack[opStackOfs] = r;
-                programCounter = *(int*)&image[programStack & dataMask];
+                /* not from the image: the system call can overwrite it */
+                programCounter = v1;
 #ifdef DEBUG_VM
                 if (vm_debugLevel)
                 {
-- 
2.43.0


From 29aa47b213b6905592e19fa8bad71eda2ea62f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:39 +0000
Subject: [PATCH 08/40] fix: reject huge lengths in VM_MemoryRangeValid and
 VM_BlockCopy

A negative length is a huge size_t: address + length wrapped around to a small
number inside the data segment and the range was accepted.
---
 src/vm/vm.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index ce638d5..bbfec4c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -656,7 +656,8 @@ int VM_MemoryRangeValid(intptr_t vmAddr, size_t len, const vm_t* vm)
     }
     const unsigned dest     = vmAddr;
     const unsigned dataMask = vm->dataMask;
-    if ((dest & dataMask) != dest || ((dest + len) & dataMask) != dest + len)
+    if ((dest & dataMask) != dest || len > dataMask ||
+        ((dest + len) & dataMask) != dest + len)
     {
         Com_Error(VM_DATA_OUT_OF_RANGE, "Memory access out of range");
         return -1;
@@ -682,7 +683,7 @@ static void VM_BlockCopy(unsigned int dest, unsigned int src, size_t n,
 {
     unsigned int dataMask = vm->dataMask;
 
-    if ((dest & dataMask) != dest || (src & dataMask) != src ||
+    if ((dest & dataMask) != dest || (src & dataMask) != src || n > dataMask ||
         ((dest + n) & dataMask) != dest + n ||
         ((src + n) & dataMask) != src + n)
     {
-- 
2.43.0


From 1ef8bbe456adafd1879887c8e1155a3dfb042b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:04 +0000
Subject: [PATCH 09/40] fix: integer division in the bytecode can't crash the
 host

DIVI, DIVU, MODI and MODU by zero, and INT_MIN / -1, raised SIGFPE in the host
process. Report VM_DIVIDE_BY_ZERO and wrap around instead.
---
 src/vm/vm.c | 25 +++++++++++++++++++++++--
 src/vm/vm.h |  1 +
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index bbfec4c..d05bc67 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -1473,18 +1473,35 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
             DISPATCH();
         goto_OP_DIVI:
             opStackOfs--;
-            opStack[opStackOfs] = r1 / r0;
+            if (r0 == 0)
+            {
+                goto divideByZero;
+            }
+            /* INT_MIN / -1 would trap */
+            opStack[opStackOfs] = r0 == -1 ? (int)(0u - (unsigned)r1) : r1 / r0;
             DISPATCH();
         goto_OP_DIVU:
             opStackOfs--;
+            if (r0 == 0)
+            {
+                goto divideByZero;
+            }
             opStack[opStackOfs] = ((unsigned)r1) / ((unsigned)r0);
             DISPATCH();
         goto_OP_MODI:
             opStackOfs--;
-            opStack[opStackOfs] = r1 % r0;
+            if (r0 == 0)
+            {
+                goto divideByZero;
+            }
+            opStack[opStackOfs] = r0 == -1 ? 0 : r1 % r0;
             DISPATCH();
         goto_OP_MODU:
             opStackOfs--;
+            if (r0 == 0)
+            {
+                goto divideByZero;
+            }
             opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);
             DISPATCH();
         goto_OP_MULI:
@@ -1564,6 +1581,10 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
         }
     }
 
+divideByZero:
+    Com_Error(vm->lastError = VM_DIVIDE_BY_ZERO, "VM divide by zero");
+    return -1;
+
 done:
     vm->currentlyInterpreting = 0;
 
diff --git a/src/vm/vm.h b/src/vm/vm.h
index 959e2eb..4c6d1dc 100644
--- a/src/vm/vm.h
+++ b/src/vm/vm.h
@@ -77,6 +77,7 @@ typedef enum {
     VM_MALLOC_FAILED               = -13, /**< Not enough memory */
     VM_BAD_INSTRUCTION             = -14, /**< Unknown OP code in bytecode */
     VM_NOT_LOADED                  = -15, /**< VM not loaded */
+    VM_DIVIDE_BY_ZERO              = -16, /**< Integer division by zero */
 } vmErrorCode_t;
 
 /** VM alloc type. This is just an information passed to the host malloc
-- 
2.43.0


From aedd9f4faf7a8dde76565ae42a1579ea5a04c709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:27 +0000
Subject: [PATCH 10/40] fix: restore the program stack after a failed VM_Call

The error exits of VM_CallInterpreted left vm->programStack at the value of the
last system call and currentlyInterpreting set: every failed call lost stack.
A nested call also cleared currentlyInterpreting while the outer call was
still running.
---
 src/vm/vm.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index d05bc67..85c054c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -538,6 +538,7 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     int      args[MAX_VMMAIN_ARGS];
     va_list  ap;
     int      i;
+    int      stackOnEntry;
 
     if (vm == NULL)
     {
@@ -560,9 +561,13 @@ intptr_t VM_Call(vm_t* vm, int command, ...)
     }
     va_end(ap);
 
+    stackOnEntry = vm->programStack;
     ++vm->callLevel;
     r = VM_CallInterpreted(vm, args);
     --vm->callLevel;
+    /* a failed call does not clean up: don't lose its stack frames */
+    vm->programStack          = stackOnEntry;
+    vm->currentlyInterpreting = vm->callLevel > 0;
 
     return r;
 }
-- 
2.43.0


From 67d601d2394cc6fdc30277940bc581bdae91adf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 11/40] fix: keep lastError when VM_Create fails

VM_Create called VM_Free on its error paths, which clears the whole struct and
with it the error code the README tells the host to look at.
---
 src/vm/vm.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index 85c054c..b99a66d 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -385,9 +385,9 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
     if (!header)
     {
+        VM_Free(vm); /* clears lastError */
         vm->lastError = VM_FAILED_TO_LOAD_BYTECODE;
         Com_Error(vm->lastError, "Failed to load bytecode");
-        VM_Free(vm);
         return -1;
     }
 
@@ -401,10 +401,10 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         VM_ALLOC_INSTRUCTION_POINTERS);
     if (!vm->instructionPointers)
     {
+        VM_Free(vm); /* clears lastError */
         vm->lastError = VM_MALLOC_FAILED;
         Com_Error(vm->lastError,
                   "Instr. pointer malloc failed: out of memory?");
-        VM_Free(vm);
         return -1;
     }
 
@@ -415,7 +415,9 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
     {
         if (VM_PrepareInterpreter(vm, header, bytecode) != 0)
         {
-            VM_Free(vm);
+            const vmErrorCode_t lastError = vm->lastError;
+            VM_Free(vm); /* clears lastError */
+            vm->lastError = lastError;
             return -1;
         }
     }
@@ -721,7 +723,7 @@ static int VM_PrepareInterpreter(vm_t* vm, const vmHeader_t* header,
                                         VM_ALLOC_CODE_SEC);
     if (!vm->codeBase)
     {
-        Com_Error(VM_MALLOC_FAILED,
+        Com_Error(vm->lastError = VM_MALLOC_FAILED,
                   "Data pointer malloc failed: out of memory?");
         return -1;
     }
-- 
2.43.0


From d55c3e9de590ea8d5dee472f88cdb96cbaeb5e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:06 +0000
Subject: [PATCH 12/40] fix: initialize vm_t before the first error return of
 VM_Create

Without a system call handler VM_Create returned with an uninitialized struct:
a following VM_Free released garbage pointers, VM_Call ran on garbage.
---
 src/vm/vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index b99a66d..a729a59 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -372,6 +372,7 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         Com_Error(VM_INVALID_POINTER, "Invalid vm pointer");
         return -1;
     }
+    Com_Memset(vm, 0, sizeof(vm_t));
     if (!systemCalls)
     {
         vm->lastError = VM_NO_SYSCALL_CALLBACK;
@@ -379,7 +380,6 @@ int VM_Create(vm_t* vm, const char* name, const uint8_t* bytecode, int length,
         return -1;
     }
 
-    Com_Memset(vm, 0, sizeof(vm_t));
     Q_strncpyz(vm->name, name, sizeof(vm->name));
     vmHeader_t        hostHeader;
     const vmHeader_t* header = VM_LoadQVM(vm, bytecode, length, &hostHeader);
-- 
2.43.0


From bda8d5e6d0e356ebc7849697e85322bceb673073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:07 +0000
Subject: [PATCH 13/40] fix: do not hand uninitialized host stack memory to the
 bytecode

OP_PUSH (and popping too much) exposed whatever was on the host stack.
---
 src/vm/vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vm/vm.c b/src/vm/vm.c
index a729a59..6fa3b6c 100644
--- a/src/vm/vm.c
+++ b/src/vm/vm.c
@@ -946,6 +946,7 @@ static int VM_CallInterpreted(vm_t* vm, int* args)
     /* leave a free spot at start of stack so
        that as long as opStack is valid, opStack-1 will
        not corrupt anything */
+    Com_Memset(stack, 0, sizeof(stack)); /* the VM can read all of it */
     opStack    = PADP(stack, 16);
     *opStack   = 0x0000BEEF;
     opStackOfs = 0;
-- 
2.43.0


From 8b3d3240ff9152b12b27b95e454025286ff6d39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:42 +0000
Subject: [PATCH 14/40] fix: q3asm exit status

The error count was the exit status: 256 errors looked like success.
---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 00982df..32e4af3 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1778,5 +1778,5 @@ int main(int argc, char** argv)
     end = I_FloatTime();
     report("%5.0f seconds elapsed\n", end - start);
 
-    return errorCount;
+    return errorCount ? 1 : 0;
 }
-- 
2.43.0


From fd11b884b146e907583c43f370064a2167926c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:43 +0000
Subject: [PATCH 15/40] fix: q3asm hangs on lines with 1024 or more characters

ExtractLine reported the error and returned the same line again, forever.
lcc -Wf-g copies source lines as comments into the .asm file, so a long source
line is enough.
---
 q3asm/q3asm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 32e4af3..d0c65e7 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -691,8 +691,8 @@ static char* ExtractLine(char* data)
 
     if ((p - q) >= MAX_LINE_LENGTH)
     {
-        CodeError("MAX_LINE_LENGTH");
-        return data;
+        CodeError("MAX_LINE_LENGTH\n");
+        return (*p == '\n') ? p + 1 : p; /* don't get stuck on this line */
     }
 
     memcpy(lineBuffer, data, (p - data));
-- 
2.43.0


From 662b236dbc1adc01398b6f750818379935cba28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 16/40] fix: q3asm ignores write errors

Small files are only written by fclose, whose result was dropped: a truncated
.qvm or .map file (disk full) was reported as success.
---
 q3asm/q3asm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index d0c65e7..ccf28f7 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1434,7 +1434,10 @@ static void WriteMapFile(void)
             fprintf(f, "%i %8x %s\n", seg, s->value, s->name);
         }
     }
-    fclose(f);
+    if (ferror(f) | fclose(f))
+    {
+        Error("Error writing %s: %s", imageName, strerror(errno));
+    }
 }
 
 /*
@@ -1511,7 +1514,10 @@ static void WriteVmFile(void)
         SafeWrite(f, &segment[JTRGSEG].image, segment[JTRGSEG].imageUsed);
     }
 
-    fclose(f);
+    if (fclose(f) != 0)
+    {
+        Error("Error writing %s: %s", imageName, strerror(errno));
+    }
 }
 
 /*
-- 
2.43.0


From 663bd67d37e2bc6cf171c6ff072b9a21dbab9af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:44 +0000
Subject: [PATCH 17/40] fix: q3asm hash table index out of range

abs(INT_MIN) is negative: a symbol that hashes to 0x80000000 indexed in front
of the table. -b 0 divided by zero.
---
 q3asm/q3asm.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index ccf28f7..95dc667 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -259,7 +259,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 {
     hashchain_t *hc, **hb;
 
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     hb        = &(H->table[hashvalue]);
     if (*hb == 0)
     {
@@ -287,7 +287,7 @@ static void hashtable_add(hashtable_t* H, int hashvalue, void* datum)
 
 static hashchain_t* hashtable_get(hashtable_t* H, int hashvalue)
 {
-    hashvalue = (abs(hashvalue) % H->buckets);
+    hashvalue = ((unsigned)hashvalue % H->buckets);
     return (H->table[hashvalue]);
 }
 
@@ -343,7 +343,7 @@ static int hashtable_symbol_exists(hashtable_t* H, int hash, char* sym)
     hashchain_t* hc;
     symbol_t*    s;
 
-    hash = (abs(hash) % H->buckets);
+    hash = ((unsigned)hash % H->buckets);
     hc   = H->table[hash];
     if (hc == 0)
     {
@@ -1722,6 +1722,10 @@ int main(int argc, char** argv)
             }
             i++;
             symtablelen = atoiNoCap(argv[i]);
+            if (symtablelen < 1)
+            {
+                Error("-b requires a positive number");
+            }
             continue;
         }
 
-- 
2.43.0


From 3f51622674f3b4e30d9b5ce263e76ade647d12a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:45 +0000
Subject: [PATCH 18/40] fix: q3asm option file parser overflows its token
 buffer

An unterminated quote or a word of 1024 or more characters in the -f file wrote
behind com_token.
---
 q3asm/cmdlib.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/q3asm/cmdlib.c b/q3asm/cmdlib.c
index 592f89e..4aea796 100644
--- a/q3asm/cmdlib.c
+++ b/q3asm/cmdlib.c
@@ -496,6 +496,10 @@ skipwhite:
                 com_token[len] = 0;
                 return data;
             }
+            if (c == 0)
+                Error("COM_Parse: missing quote");
+            if (len >= (int)sizeof(com_token) - 1)
+                Error("COM_Parse: token too long");
             com_token[len] = c;
             len++;
         } while (1);
@@ -513,6 +517,8 @@ skipwhite:
     // parse a regular word
     do
     {
+        if (len >= (int)sizeof(com_token) - 1)
+            Error("COM_Parse: token too long");
         com_token[len] = c;
         data++;
         len++;
-- 
2.43.0


From 7d719dd1fa64cb1a806112aa2ff4520175d2dc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 19/40] fix: q3asm skip and align directives can leave the
 segment image

A negative or huge skip (or align 0) moved imageUsed outside of the image:
writes in front of it, or host memory behind it ended up in the .qvm file.
---
 q3asm/q3asm.c | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 95dc667..f37bf2e 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -540,6 +540,25 @@ static void EmitInt(segment_t* seg, int v)
     seg->imageUsed += 4;
 }
 
+/*
+============
+ReserveSpace
+
+Leave n bytes free. Only the bss segment may be larger than its image, the
+contents are not written to the file.
+============
+*/
+static void ReserveSpace(segment_t* seg, int n)
+{
+    const int limit = (seg == &segment[BSSSEG]) ? 0x40000000 : VM_MAX_IMAGE_SIZE;
+
+    if (n < 0 || n > limit - seg->imageUsed)
+    {
+        Error("VM_MAX_IMAGE_SIZE");
+    }
+    seg->imageUsed += n;
+}
+
 /*
 ============
 DefineSymbol
@@ -1145,8 +1164,12 @@ ASM(ALIGN)
     {
         STAT("ALIGN");
         v = ParseValue();
-        currentSegment->imageUsed =
-            (currentSegment->imageUsed + v - 1) & ~(v - 1);
+        if (v < 1 || v > VM_MAX_IMAGE_SIZE || (v & (v - 1)) != 0)
+        {
+            CodeError("Bad alignment: %i\n", v);
+            return 1;
+        }
+        ReserveSpace(currentSegment, -currentSegment->imageUsed & (v - 1));
         return 1;
     }
     return 0;
@@ -1159,7 +1182,7 @@ ASM(SKIP)
     {
         STAT("SKIP");
         v = ParseValue();
-        currentSegment->imageUsed += v;
+        ReserveSpace(currentSegment, v);
         return 1;
     }
     return 0;
-- 
2.43.0


From 9ea940291c20a30a2920dcc2c2925232802bdd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:46 +0000
Subject: [PATCH 20/40] fix: q3asm overflows on long file names or more than
 256 files

---
 q3asm/q3asm.c | 47 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index f37bf2e..fe229fd 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1543,6 +1543,8 @@ static void WriteVmFile(void)
     }
 }
 
+static void CopyPath(char dest[MAX_OS_PATH], const char* src);
+
 /*
 ===============
 Assemble
@@ -1558,7 +1560,7 @@ static void Assemble(void)
 
     for (i = 0; i < numAsmFiles; i++)
     {
-        strcpy(filename, asmFileNames[i]);
+        CopyPath(filename, asmFileNames[i]);
         DefaultExtension(filename, ".asm");
         LoadFile(filename, (void**)&asmFiles[i]);
     }
@@ -1620,6 +1622,37 @@ static void Assemble(void)
     }
 }
 
+/*
+=============
+CopyPath
+
+Leaves room for a file extension
+=============
+*/
+static void CopyPath(char dest[MAX_OS_PATH], const char* src)
+{
+    if (strlen(src) + sizeof(".q3asm") > MAX_OS_PATH)
+    {
+        Error("Path too long: %s", src);
+    }
+    strcpy(dest, src);
+}
+
+/*
+=============
+AddAsmFile
+=============
+*/
+static void AddAsmFile(const char* filename)
+{
+    if (numAsmFiles >= MAX_ASM_FILES)
+    {
+        Error("More than %i files to assemble", MAX_ASM_FILES);
+    }
+    asmFileNames[numAsmFiles] = copystring(filename);
+    numAsmFiles++;
+}
+
 /*
 =============
 ParseOptionFile
@@ -1631,7 +1664,7 @@ static void ParseOptionFile(const char* filename)
     char  expanded[MAX_OS_PATH];
     char *text, *text_p;
 
-    strcpy(expanded, filename);
+    CopyPath(expanded, filename);
     DefaultExtension(expanded, ".q3asm");
     LoadFile(expanded, (void**)&text);
     if (!text)
@@ -1649,13 +1682,12 @@ static void ParseOptionFile(const char* filename)
             text_p = COM_Parse(text_p);
             if (text_p)
             {
-                strcpy(outputFilename, com_token);
+                CopyPath(outputFilename, com_token);
             }
             continue;
         }
 
-        asmFileNames[numAsmFiles] = copystring(com_token);
-        numAsmFiles++;
+        AddAsmFile(com_token);
     }
 }
 
@@ -1721,7 +1753,7 @@ int main(int argc, char** argv)
             }
             /* Timbo of Tremulous pointed out -o not working; stock ID q3asm
              * folded in the change. Yay. */
-            strcpy(outputFilename, argv[i + 1]);
+            CopyPath(outputFilename, argv[i + 1]);
             i++;
             continue;
         }
@@ -1782,8 +1814,7 @@ int main(int argc, char** argv)
     // the rest of the command line args are asm files
     for (; i < argc; i++)
     {
-        asmFileNames[numAsmFiles] = copystring(argv[i]);
-        numAsmFiles++;
+        AddAsmFile(argv[i]);
     }
     // In some case it Segfault without this check
     if (numAsmFiles == 0)
-- 
2.43.0


From a957929fe1efc09c87a9e25f381977f0d8c4bb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:47 +0000
Subject: [PATCH 21/40] fix: q3asm crashes on data in front of the first symbol

---
 q3asm/q3asm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index fe229fd..b9c6668 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -873,7 +873,7 @@ static void HackToSegment(segmentName_t seg)
     }
 
     currentSegment = &segment[seg];
-    if (passNumber == 0)
+    if (passNumber == 0 && lastSymbol)
     {
         lastSymbol->segment = currentSegment;
         lastSymbol->value   = currentSegment->imageUsed;
-- 
2.43.0


From ba8351408bf0ceda719e9ee88493448ade42aa46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:09 +0000
Subject: [PATCH 22/40] fix: q3asm crashes on labels in front of the first
 segment directive

---
 q3asm/q3asm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index b9c6668..2897df5 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1580,6 +1580,10 @@ static void Assemble(void)
         segment[DATASEG].imageUsed =
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
+        currentSegment   = &segment[CODESEG];
+        currentLocals    = 0;
+        currentArgs      = 0;
+        currentArgOffset = 0;
 
         for (i = 0; i < numAsmFiles; i++)
         {
-- 
2.43.0


From 3a60e34700a94a8b18969ede6e7d81a40978cbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 23/40] fix: q3asm writes undecodable code for surplus or
 missing operands

---
 q3asm/q3asm.c | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 2897df5..780cb69 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1247,6 +1247,19 @@ ASM(LABEL)
     return 0;
 }
 
+/*
+==============
+HasOperand
+
+The virtual machine reads four more bytes after these opcodes
+==============
+*/
+static qboolean HasOperand(int opcode)
+{
+    return opcode == OP_CONST || opcode == OP_BLOCK_COPY ||
+           (opcode >= OP_EQ && opcode <= OP_GEF);
+}
+
 /*
 ==============
 AssembleLine
@@ -1315,7 +1328,17 @@ static void AssembleLine(void)
 
             // check for expression
             Parse();
-            if (token[0] && op->opcode != OP_CVIF && op->opcode != OP_CVFI)
+            if (op->opcode == OP_CVIF || op->opcode == OP_CVFI)
+            {
+                token[0] = 0; // size of the operand
+            }
+            if (HasOperand(opcode) != (token[0] != 0))
+            {
+                CodeError("%s operand: %s\n",
+                          token[0] ? "Unexpected" : "Missing", op->name);
+                return;
+            }
+            if (token[0])
             {
                 expression = ParseExpression();
 
-- 
2.43.0


From c7b1cabf9153be4a20d1f825cac77dad212e6b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:23 +0000
Subject: [PATCH 24/40] fix: q3asm writes data into the code segment

---
 q3asm/q3asm.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 780cb69..1ed37c2 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -556,6 +556,11 @@ static void ReserveSpace(segment_t* seg, int n)
     {
         Error("VM_MAX_IMAGE_SIZE");
     }
+    if (n != 0 && seg == &segment[CODESEG])
+    {
+        CodeError("Data in the code segment\n");
+        return;
+    }
     seg->imageUsed += n;
 }
 
@@ -1207,10 +1212,11 @@ ASM(BYTE)
             /* 32-bit (4-byte) values go into data segment. */
             HackToSegment(DATASEG);
         }
-        else if (v == 2)
+        else
         {
             /* and 16-bit (2-byte) values will cause q3asm to barf. */
-            CodeError("16 bit initialized data not supported");
+            CodeError("%i bit initialized data not supported\n", 8 * v);
+            return 1;
         }
 
         // emit little endien
-- 
2.43.0


From 27d5594d4c57b8b415f0251891b94b703f89a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 25/40] fix: q3asm splits initialized objects between segments

The label of a struct with members of different sizes was moved again by every
member that changed the segment.
---
 q3asm/q3asm.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index 1ed37c2..af40196 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -202,6 +202,8 @@ char lineBuffer[MAX_LINE_LENGTH];
 int  lineParseOffset;
 char token[MAX_LINE_LENGTH];
 
+qboolean objectStart; // no data since the last label
+
 int instructionCount;
 
 typedef struct
@@ -866,19 +868,27 @@ initialized strng variables are put in the data segment.
 I can change segments here, but I also need to fixup the
 label that was just defined
 
+Only the first datum behind a label decides: the rest of the object has to
+follow it in the same segment.
+
 Note that the lit segment is read-write in the VM, so strings
 aren't read only as in some architectures.
 ==============
 */
 static void HackToSegment(segmentName_t seg)
 {
-    if (currentSegment == &segment[seg])
+    const qboolean first = objectStart;
+
+    objectStart = qfalse;
+    if (currentSegment == &segment[seg] ||
+        (!first && currentSegment != &segment[CODESEG]))
     {
         return;
     }
 
     currentSegment = &segment[seg];
-    if (passNumber == 0 && lastSymbol)
+    ReserveSpace(currentSegment, -currentSegment->imageUsed & 3);
+    if (passNumber == 0 && first && lastSymbol)
     {
         lastSymbol->segment = currentSegment;
         lastSymbol->value   = currentSegment->imageUsed;
@@ -1188,6 +1198,7 @@ ASM(SKIP)
         STAT("SKIP");
         v = ParseValue();
         ReserveSpace(currentSegment, v);
+        objectStart = qfalse;
         return 1;
     }
     return 0;
@@ -1248,6 +1259,7 @@ ASM(LABEL)
         {
             DefineSymbol(token, currentSegment->imageUsed);
         }
+        objectStart = qtrue;
         return 1;
     }
     return 0;
@@ -1610,6 +1622,7 @@ static void Assemble(void)
             4; // skip the 0 byte, so NULL pointers are fixed up properly
         instructionCount = 0;
         currentSegment   = &segment[CODESEG];
+        objectStart      = qfalse;
         currentLocals    = 0;
         currentArgs      = 0;
         currentArgOffset = 0;
-- 
2.43.0


From c527e30c1b4f6429ce812bbdda102ce1a397d959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:31 +0000
Subject: [PATCH 26/40] fix: equ defines a number, whatever segment is current

A symbol defined by equ in the data, lit or bss segment was moved by the
address of that segment.
---
 q3asm/q3asm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/q3asm/q3asm.c b/q3asm/q3asm.c
index af40196..80efb17 100644
--- a/q3asm/q3asm.c
+++ b/q3asm/q3asm.c
@@ -1159,14 +1159,18 @@ ASM(FILE)
 
 ASM(EQU)
 {
-    char name[1024];
+    char       name[1024];
+    segment_t* old;
     if (!strcmp(token, "equ"))
     {
         STAT("EQU");
         Parse();
         strcpy(name, token);
         Parse();
+        old            = currentSegment;
+        currentSegment = &segment[CODESEG]; // a number, not an address
         DefineSymbol(name, atoiNoCap(token));
+        currentSegment = old;
         return 1;
     }
     return 0;
-- 
2.43.0


From 6ea624dbfbf20c2ae5f1dcc282ccdc207111195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:59 +0000
Subject: [PATCH 27/40] fix: rcc folded shifts into the sign bit to values that
 do not fit int

On hosts with 64 bit long (1<<31) became the constant 2147483648, so that
(1<<31) < 0 was folded to 0. The sign bit test of extend() used an int
constant.
---
 lcc/src/c.h    | 2 +-
 lcc/src/simp.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/c.h b/lcc/src/c.h
index 43bec08..dd4cd42 100644
--- a/lcc/src/c.h
+++ b/lcc/src/c.h
@@ -32,7 +32,7 @@
 #define roundup(x,n) (((x)+((n)-1))&(~((n)-1)))
 #define mkop(op,ty) (specific((op) + ttob(ty)))
 
-#define extend(x,ty) ((x)&(1<<(8*(ty)->size-1)) ? (x)|((~0UL)<<(8*(ty)->size-1)) : (x)&ones(8*(ty)->size))
+#define extend(x,ty) ((x)&(1UL<<(8*(ty)->size-1)) ? (x)|((~0UL)<<(8*(ty)->size-1)) : (x)&ones(8*(ty)->size))
 #define ones(n) ((n)>=8*sizeof (unsigned long) ? ~0UL : ~((~0UL)<<(n)))
 
 #define isqual(t)     ((t)->op >= CONST)
diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index ea26ab6..71a8079 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -437,7 +437,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			if (l->op == CNST+I && r->op == CNST+I
 			&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size
 			&& muli(l->u.v.i, 1<<r->u.v.i, ty->u.sym->u.limits.min.i, ty->u.sym->u.limits.max.i, needconst))
-				return cnsttree(ty, (long)(l->u.v.i<<r->u.v.i));
+				return cnsttree(ty, (long)extend(l->u.v.i<<r->u.v.i,ty));
 			if (r->op == CNST+I && (r->u.v.i >= 8*ty->size || r->u.v.i < 0)) {
 				warning("shifting an `%t' by %d bits is undefined\n", ty, r->u.v.i);
 				break;
-- 
2.43.0


From d08acce176c06ae2876836edb4289ee824d233e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:22 +0000
Subject: [PATCH 28/40] fix: rcc folded 0 - INT_MIN to a constant that does not
 fit int

---
 lcc/src/simp.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 71a8079..4444747 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -176,6 +176,8 @@ static int muld(double x, double y, double min, double max, int needconst) {
 }
 /* sub[id] - return 1 if min <= x-y <= max, 0 otherwise */
 static int subi(long x, long y, long min, long max, int needconst) {
+	if (x == 0 && y == min)
+		x = 1;	/* 0 - min overflows, too, but addi accepts x == 0 */
 	return addi(x, -y, min, max, needconst);
 }
 
-- 
2.43.0


From 9e2f390d47f645a30f844e8c2700f62d42a75d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 29/40] fix: rcc sign extends negative enumeration constants

With 64 bit long consttree() zero extended its unsigned argument, so that with
enum { M = -1 } the expression M < 0 was folded to 0 and M / 2 to 2147483647.
---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index d59c31b..034a3ea 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -195,6 +195,8 @@ Tree consttree(unsigned n, Type ty) {
 	if (isarray(ty))
 		ty = atop(ty);
 	else assert(isint(ty));
+	if (ty->op == INT)
+		return cnsttree(ty, (long)(int)n);
 	return cnsttree(ty, (unsigned long)n);
 }
 static Tree cmptree(int op, Tree l, Tree r) {
-- 
2.43.0


From 1adbdf69ddc845827ba051526c2b2c2cf157b86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 30/40] fix: rcc passed an int where cnsttree() reads a long

---
 lcc/src/simp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index 4444747..af5d957 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -524,7 +524,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 			break;
 		case NOT+I:
 			op = NOT;
-			ufoldcnst(I,cnsttree(ty, !l->u.v.i));
+			ufoldcnst(I,cnsttree(ty, (long)!l->u.v.i));
 			break;
 		case RSH+I:
 			identity(r,l,I,i,0);
-- 
2.43.0


From 2b85d2bc38759fcee6187e0d11f363af00cb2e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 31/40] fix: rcc did not truncate values converted to unsigned
 char or short

---
 lcc/src/bytecode.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 871056a..863f394 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -112,6 +112,10 @@ static void dumptree(Node p) {
 		assert(!p->kids[1]);
 		assert(p->syms[0]);
 		dumptree(p->kids[0]);
+		// a narrow unsigned value that was not loaded still has its upper bits
+		if (generic(p->op) == CVU && p->syms[0]->u.c.v.i < 4
+		&& generic(p->kids[0]->op) != INDIR)
+			print("CNSTU4 %d\nBANDU4\n", (1 << (8 * (int)p->syms[0]->u.c.v.i)) - 1);
 		print("%s %d\n", opname(p->op), p->syms[0]->u.c.v.i);
 		return;
 	case ARG: case BCOM: case NEG: case INDIR: case JUMP: case RET:
-- 
2.43.0


From c49f7b341865b0b489cc3ccb0ee1a70600ae5f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:00 +0000
Subject: [PATCH 32/40] fix: rcc did not truncate a constant assigned to a
 signed bit field

---
 lcc/src/enode.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lcc/src/enode.c b/lcc/src/enode.c
index 034a3ea..f9df0d0 100644
--- a/lcc/src/enode.c
+++ b/lcc/src/enode.c
@@ -322,6 +322,8 @@ Tree asgntree(int op, Tree l, Tree r) {
 				n = r->u.v.i;
 				if (n&(1<<(fieldsize(l->u.field)-1)))
 					n |= ~0UL<<fieldsize(l->u.field);
+				else
+					n &= ~(~0UL<<fieldsize(l->u.field));
 				r = cnsttree(r->type, n);
 			} else
 				r = shtree(RSH,
-- 
2.43.0


From bde9504f6b6d0f560cad739905a0fe543c00e234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 33/40] fix: rcc computed with a value cast to a qualified type
 as an int

---
 lcc/src/expr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lcc/src/expr.c b/lcc/src/expr.c
index 96eec21..2970573 100644
--- a/lcc/src/expr.c
+++ b/lcc/src/expr.c
@@ -246,6 +246,7 @@ static Tree unary(void) {
 					p->type, ty1);
 				ty1 = inttype;
 			}
+			ty1 = unqual(ty1);	/* as the types of other values: binary() compares them */
 			if (generic(p->op) == INDIR || ty->size == 0)
 				p = tree(RIGHT, ty1, NULL, p);
 			else
-- 
2.43.0


From 0c9066fefb9caa4f94b3694c2bb8fc6ff23c01aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:42 +0000
Subject: [PATCH 34/40] fix: rcc reused values computed only in the second
 operand of a nested && or ||

AND and OR forgot common subexpressions only when not nested, so a value
first needed in the conditionally evaluated operand of an inner && or ||
was stored to its temporary there and read from it afterwards even if
that operand had not been evaluated:
c && ((a+b) + (d && a+b > 3 ? 1 : 2)) > 5 read an unset local for d == 0.
---
 lcc/src/dag.c | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lcc/src/dag.c b/lcc/src/dag.c
index 420cbe7..0ab56be 100644
--- a/lcc/src/dag.c
+++ b/lcc/src/dag.c
@@ -16,7 +16,6 @@ int assignargs = 1;
 int prunetemps = -1;
 static Node *tail;
 
-static int depth = 0;
 static Node replace(Node);
 static Node prune(Node);
 static Node asgnnode(Symbol, Node);
@@ -109,7 +108,7 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		return tp->node;
 	op = tp->op + sizeop(tp->type->size);
 	switch (generic(tp->op)) {
-	case AND:   { if (depth++ == 0) reset();
+	case AND:   { reset();
 		      if (flab) {
 		      	listnodes(tp->kids[0], 0, flab);
 		      	listnodes(tp->kids[1], 0, flab);
@@ -117,10 +116,8 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      	listnodes(tp->kids[0], 0, flab = genlabel(1));
 		      	listnodes(tp->kids[1], tlab, 0);
 		      	labelnode(flab);
-		      }
-		      depth--; } break;
-	case OR:    { if (depth++ == 0)
-		      	reset();
+		      } } break;
+	case OR:    { reset();
 		      if (tlab) {
 		      	listnodes(tp->kids[0], tlab, 0);
 		      	listnodes(tp->kids[1], tlab, 0);
@@ -130,7 +127,6 @@ Node listnodes(Tree tp, int tlab, int flab) {
 		      	listnodes(tp->kids[1], 0, flab);
 		      	labelnode(tlab);
 		      }
-		      depth--;
  } break;
 	case NOT:   { return listnodes(tp->kids[0], flab, tlab); }
 	case COND:  { Tree q = tp->kids[1];
-- 
2.43.0


From cd69ada96cf8b9c19f115565bc41220d605478b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:48 +0000
Subject: [PATCH 35/40] fix: rcc laid out bit fields for a big endian machine

The virtual machine is little endian: with little_endian = 0, initialisers of
bit fields put the bits in the wrong bytes of the word, and a bit field followed
by other members shared its bits with them (struct { unsigned a:5; short x; }).
---
 lcc/src/bytecode.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/bytecode.c b/lcc/src/bytecode.c
index 863f394..126009f 100644
--- a/lcc/src/bytecode.c
+++ b/lcc/src/bytecode.c
@@ -335,7 +335,7 @@ Interface bytecodeIR = {
 	{4, 4, 0},	/* long double */		// JDC: don't ever emit 8 byte double code
 	{4, 4, 0},	/* T* */
 	{0, 4, 0},	/* struct */
-	0,		/* little_endian */
+	1,		/* little_endian */
 	0,		/* mulops_calls */
 	0,		/* wants_callb */
 	0,		/* wants_argb */
-- 
2.43.0


From 8fc859981e82da79635dc8b69e7484a56d3cd7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:40 +0000
Subject: [PATCH 36/40] fix: rcc initialised further members of a union that
 starts with a bit field

---
 lcc/src/init.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/init.c b/lcc/src/init.c
index 2f015b4..237649e 100644
--- a/lcc/src/init.c
+++ b/lcc/src/init.c
@@ -168,7 +168,7 @@ static int initstruct(int len, Type ty, int lev) {
 		}
 		if (p->lsb) {
 			Field q = p;
-			while (q->link && q->link->offset == p->offset)
+			while (!isunion(ty) && q->link && q->link->offset == p->offset)
 				q = q->link;
 			n += initfields(p, q->link);
 			p = q;
@@ -185,7 +185,7 @@ static int initstruct(int len, Type ty, int lev) {
 			(*IR->space)(a - n%a);
 			n = roundup(n, a);
 		}
-		if ((len > 0 && n >= len) || t != ',')
+		if (isunion(ty) || (len > 0 && n >= len) || t != ',')
 			break;
 		t = gettok();
 	} while (t != '}');
-- 
2.43.0


From 13a17f3bbb63ae5fcbfcbad11cbca4813e4db1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:09 +0000
Subject: [PATCH 37/40] fix: rcc truncated the width of a bit field to 16 bits
 before checking it

---
 lcc/src/decl.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lcc/src/decl.c b/lcc/src/decl.c
index 132241e..3e4e52c 100644
--- a/lcc/src/decl.c
+++ b/lcc/src/decl.c
@@ -565,6 +565,7 @@ static void fields(Type ty) {
 			if (Aflag >= 1 && !hasproto(p->type))
 				warning("missing prototype\n");
 			if (t == ':') {
+				int width;
 				if (unqual(p->type) != inttype
 				&&  unqual(p->type) != unsignedtype) {
 					error("`%t' is an illegal bit-field type\n",
@@ -572,10 +573,11 @@ static void fields(Type ty) {
 					p->type = inttype;
 				}
 				t = gettok();
-				p->bitsize = intexpr(0, 0);
-				if (p->bitsize > 8*inttype->size || p->bitsize < 0) {
+				width = intexpr(0, 0);
+				p->bitsize = width;
+				if (width > 8*inttype->size || width < 0) {
 					error("`%d' is an illegal bit-field size\n",
-						p->bitsize);
+						width);
 					p->bitsize = 8*inttype->size;
 				} else if (p->bitsize == 0 && id) {
 					warning("extraneous 0-width bit field `%t %s' ignored\n", p->type, id);
-- 
2.43.0


From 96c5568e7fadd72d188ff2b3a01d69987cf1fa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:35 +0000
Subject: [PATCH 38/40] fix: rcc did not fold unsigned comparisons of constants
 with 0 and constants % 1

---
 lcc/src/simp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lcc/src/simp.c b/lcc/src/simp.c
index af5d957..2b7567c 100644
--- a/lcc/src/simp.c
+++ b/lcc/src/simp.c
@@ -44,7 +44,7 @@
 	&& r->u.v.i >= 0 && r->u.v.i < 8*l->type->size) \
 		return cnsttree(ty, (unsigned long)(l->u.v.u OP r->u.v.i))
 #define geu(L,R,V) \
-	if (R->op == CNST+U && R->u.v.u == 0) do { \
+	if (R->op == CNST+U && R->u.v.u == 0 && L->op != CNST+U) do { \
 		warning("result of unsigned comparison is constant\n"); \
 		return tree(RIGHT, inttype, root(L), cnsttree(inttype, (long)(V))); } while(0)
 #define idempotent(OP) if (l->op == OP) return l->kids[0]
@@ -465,7 +465,7 @@ Tree simplify(int op, Type ty, Tree l, Tree r) {
 				return eqtree(NE, r, l);
 			break;
 		case MOD+I:
-			if (r->op == CNST+I && r->u.v.i == 1)	/* l%1 => (l,0) */
+			if (r->op == CNST+I && r->u.v.i == 1 && l->op != CNST+I)	/* l%1 => (l,0) */
 				return tree(RIGHT, ty, root(l), cnsttree(ty, 0L));
 			if ((r->op == CNST+I && r->u.v.i == 0)
 			||  (l->op == CNST+I && l->u.v.i == ty->u.sym->u.limits.min.i
-- 
2.43.0


From 693a76dbf70bda99702272a90a868500c4cee06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 39/40] fix: rcc's switch on an unsigned value with case 0
 jumped through memory in front of its table for values above INT_MAX

---
 lcc/src/stmt.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lcc/src/stmt.c b/lcc/src/stmt.c
index 9c3bdbe..be1bf13 100644
--- a/lcc/src/stmt.c
+++ b/lcc/src/stmt.c
@@ -440,8 +440,7 @@ void swcode(Swtch swp, int b[], int lb, int ub) {
 		Symbol table = genident(STATIC,
 			array(voidptype, u - l + 1, 0), GLOBAL);
 		(*IR->defsymbol)(table);
-		if (!isunsigned(swp->sym->type) || v[l] != 0)
-			cmp(LT, swp->sym, v[l], lolab);
+		cmp(LT, swp->sym, v[l], lolab);	/* cmp is signed, for unsigned values, too */
 		cmp(GT, swp->sym, v[u], hilab);
 		e = (*optree['-'])(SUB, cast(idtree(swp->sym), ty), cnsttree(ty, v[l]));
 		if (e->type->size < unsignedptr->size)
-- 
2.43.0


From f6a74e265a1bba08baf410c9068075ed3cacb029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:35 +0000
Subject: [PATCH 40/40] fix: rcc took -0.0 for 0.0 (and 0.0 for -0.0) where
 both occur in a file

---
 lcc/src/sym.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lcc/src/sym.c b/lcc/src/sym.c
index 2a1cfeb..26ee164 100644
--- a/lcc/src/sym.c
+++ b/lcc/src/sym.c
@@ -171,7 +171,7 @@ Symbol constant(Type ty, Value v) {
 			switch (ty->op) {
 			case INT:      if (equalp(i)) return &p->sym; break;
 			case UNSIGNED: if (equalp(u)) return &p->sym; break;
-			case FLOAT:    if (equalp(d)) return &p->sym; break;
+			case FLOAT:    if (memcmp(&v.d, &p->sym.u.c.v.d, sizeof v.d) == 0) return &p->sym; break;
 			case FUNCTION: if (equalp(g)) return &p->sym; break;
 			case ARRAY:
 			case POINTER:  if (equalp(p)) return &p->sym; break;
-- 
2.43.0

