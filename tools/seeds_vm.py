"""Planted bugs in src/vm (C01-C17)."""
V = 'src/vm/vm.c'
PRE = r'''
/* Host and image builder for the demonstrations. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "vm.h"
enum { UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP, EQ, NE, LTI, LEI, GTI, GEI, LTU, LEU,
       GTU, GEU, EQF, NEF, LTF, LEF, GTF, GEF, LOAD1, LOAD2, LOAD4, STORE1, STORE2, STORE4, ARG, BLOCK_COPY, SEX8, SEX16,
       NEGI, ADD, SUB, DIVI, DIVU, MODI, MODU, MULI, MULU, BAND, BOR, BXOR, BCOM, LSH, RSHI, RSHU, NEGF, ADDF, SUBF, DIVF,
       MULF, CVIF, CVFI, MAX };
static int lastErr, errs, live, badFree;
static int fill = 0;
static struct { void* p; int t; } al[64];
void Com_Error(vmErrorCode_t l, const char* e) { lastErr = l; errs++; (void)e; }
void* Com_malloc(size_t s, vm_t* v, vmMallocType_t t) {
    void* p = malloc(s); (void)v; if (p) { memset(p, fill, s); for (int i = 0; i < 64; i++) if (!al[i].p) { al[i].p = p; al[i].t = t; live++; break; } } return p; }
void Com_free(void* p, vm_t* v, vmMallocType_t t) {
    (void)v; int i; for (i = 0; i < 64; i++) if (al[i].p == p) { if (al[i].t != (int)t) badFree++; al[i].p = 0; live--; break; }
    if (i == 64) badFree++; free(p); }
static uint8_t code[65536]; static int cl, ic; static uint8_t init[4096]; static int ni;
static void op(int o) { code[cl++] = (uint8_t)o; ic++; }
static void op4(int o, int v) { op(o); memcpy(code + cl, &v, 4); cl += 4; }
static void op1(int o, int v) { op(o); code[cl++] = (uint8_t)v; }
static void reset(void) { cl = ic = ni = 0; }
/* header, code, then dataLength + litLength bytes; the buffer is exactly as long as the image */
static uint8_t* img(int data, int lit, int bss, int* len) {
    vmHeader_t h = { VM_MAGIC, ic, sizeof h, cl, (int)sizeof h + cl, data, lit, bss };
    *len = (int)sizeof h + cl + data + (lit > 0 ? lit : 0); uint8_t* p = malloc(*len);
    memset(p, 0, *len); memcpy(p, &h, sizeof h); memcpy(p + sizeof h, code, cl); memcpy(p + sizeof h + cl, init, data + (lit > 0 ? lit : 0)); return p;
}
static intptr_t nosys(vm_t* vm, intptr_t* a) { (void)vm; (void)a; return 0; }
#define CHECK(c) do { if (!(c)) { printf("FAILED: %s\n", #c); exit(1); } } while (0)
static vm_t vm;
static int load(int data, int lit, int bss, intptr_t (*sys)(vm_t*, intptr_t*)) {
    int n; uint8_t* p = img(data, lit, bss, &n); int r = VM_Create(&vm, "demo", p, n, sys); free(p); return r; }
'''
SH = r'''#!/bin/bash
# run with cwd /repo: 0 if the interpreter behaves, nonzero otherwise
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
%s -g -O1 -w %s -I src/vm "$D/demo.c" src/vm/vm.c %s -o "$W/demo" || exit 99
cd "$W" || exit 99
ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
r=$?
echo "demo: $r"
[ $r = 0 ]
'''
SEEDS = []


def S(id, prop, needs, breaks, edits, main, flags='', cc='gcc', libs='-lm'):
    SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=[(V, o, n) for o, n in edits],
                      files={'demo.c': PRE + main, 'demo.sh': SH % (cc, flags, libs)}))


ASAN = '-fsanitize=address -fno-omit-frame-pointer'
S('c01-block-copy-source', 'C01', 'an OP_BLOCK_COPY whose source range ends behind the data segment while the destination range is fine',
  'the end of the source range is not checked (the destination is checked twice): the module reads host memory behind its data segment',
  [("((src + n) & dataMask) != src + n)", "((dest + n) & dataMask) != dest + n)")], r'''
int main(void) {
    op4(CONST, 0); op4(CONST, 65536 - 16); op4(BLOCK_COPY, 4096); op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); VM_Call(&vm, 0);
    CHECK(lastErr == VM_BLOCKCOPY_OUT_OF_RANGE); return 0; }
''', ASAN)
S('c01-arg-offset-unmasked', 'C01', 'OP_ARG in a frame at the end of the data segment with an offset that crosses the end',
  'the program stack is masked before the offset is added, so the argument is stored behind the data segment',
  [("*(int*)&image[(codeImage[programCounter] + programStack) &\n                          dataMask] = r0;",
    "*(int*)&image[codeImage[programCounter] + (programStack & dataMask)] = r0;")], r'''
int main(void) {
    /* ENTER with a negative frame moves the program stack to the very end of the segment */
    op4(ENTER, -(8 + 4 * 13) + 8); op4(CONST, 0x11223344); op1(ARG, 252); op4(CONST, 1); op4(LEAVE, -(8 + 4 * 13) + 8);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == 1); return 0; }
''', ASAN)
S('c02-jump-signed', 'C02', 'a computed jump (OP_JUMP) to a negative instruction number',
  'the target of OP_JUMP is compared as a signed number: negative targets read in front of the jump table and execute whatever they point to',
  [("if ((unsigned)r0 >= (unsigned)vm->instructionCount)", "if (r0 >= vm->instructionCount)")], r'''
int main(void) {
    op4(CONST, -9); op(JUMP); op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == -1); CHECK(lastErr == VM_PC_OUT_OF_RANGE); return 0; }
''', ASAN)
S('c02-call-last', 'C02', 'a call of exactly the instruction number behind the last instruction',
  'off by one in the range check of OP_CALL: one entry behind the jump table is used as the next program counter',
  [("else if ((unsigned)programCounter >= (unsigned)vm->instructionCount)", "else if ((unsigned)programCounter > (unsigned)vm->instructionCount)")], r'''
int main(void) {
    op4(CONST, 4); op(CALL); op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == -1); CHECK(lastErr == VM_PC_OUT_OF_RANGE); return 0; }
''', ASAN)
S('c03-wide-stack-index', 'C03', 'a module that pushes more values than the operand stack holds',
  'the operand stack index no longer wraps around: pushes run over the end of the operand stack on the host stack',
  [("    uint8_t  opStackOfs;\n", "    unsigned opStackOfs;\n")], r'''
int main(void) {
    for (int i = 0; i < 400; i++) op4(CONST, i); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == 399); return 0; }
''', ASAN)
S('c04-negative-lit', 'C04', 'an image with a negative litLength that makes the sum of the segments small',
  'a negative literal length is no longer refused: the copy of the initialised data uses a wrong length',
  [("            header.h->litLength < 0 || header.h->codeLength <= 0 ||", "            header.h->codeLength <= 0 ||")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(16, -64, 4096, nosys) != 0); return 0; }
''', ASAN)
S('c05-unknown-opcode', 'C05', 'an image with the opcode byte right behind the last defined opcode',
  'the loader accepts an image with an undefined opcode',
  [("if (op < 0 || op >= OP_MAX)", "if (op < 0 || op > OP_MAX)")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0); op(MAX);
    CHECK(load(0, 0, 4096, nosys) != 0); return 0; }
''')
S('c05-half-bss', 'C05', 'a valid image with more than 5 MiB of uninitialised data... larger images than any test uses',
  'a well-formed image is refused because of the size of its file',
  [("        length > VM_MAX_IMAGE_SIZE)", "        length >= VM_MAX_IMAGE_SIZE / 4)")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0); int n; uint8_t* p = img(0, 0, 4096, &n); uint8_t* q = calloc(1, 3 << 20); memcpy(q, p, n);
    CHECK(VM_Create(&vm, "demo", q, 3 << 20, nosys) == 0); CHECK(VM_Call(&vm, 0) == 1); return 0; }
''')
S('c06-signed-arg-offset', 'C06', 'an OP_ARG with an offset of 128 or more: a call with more than 30 arguments',
  'the one byte operand of OP_ARG is sign extended, the argument is stored below the frame',
  [("            codeBase[int_pc] = (int)code[byte_pc];\n", "            codeBase[int_pc] = (int8_t)code[byte_pc];\n")], r'''
int main(void) {
    op4(ENTER, 256); op4(CONST, 77); op1(ARG, 200); op4(LOCAL, 200); op(LOAD4); op4(LEAVE, 256);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == 77); return 0; }
''')
S('c07-sex16', 'C07', 'sign extension of a negative 16 bit value',
  'OP_SEX16 extends from bit 15 of a value that was truncated to 15 bits: negative shorts become positive',
  [("opStack[opStackOfs] = (int16_t)opStack[opStackOfs];", "opStack[opStackOfs] = (opStack[opStackOfs] & 0x7fff) - (opStack[opStackOfs] & 0x4000) * 2;")], r'''
int main(void) {
    op4(CONST, 0x18001); op(SEX16); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == (int)0xffff8001); return 0; }
''')
S('c07-gtf-nan', 'C07', 'a float comparison where one operand is not a number',
  'OP_GTF is computed as not less or equal, which is true for NaN',
  [("            if (((float*)opStack)[(uint8_t)(opStackOfs + 1)] >\n                ((float*)opStack)[(uint8_t)(opStackOfs + 2)])",
    "            if (!(((float*)opStack)[(uint8_t)(opStackOfs + 1)] <=\n                  ((float*)opStack)[(uint8_t)(opStackOfs + 2)]))")], r'''
int main(void) {
    op4(CONST, 0x7fc00000); op4(CONST, 0); op4(GTF, 5); op4(CONST, 0); op4(LEAVE, 0); op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == 0); return 0; }
''')
S('c08-modu-signed', 'C08', 'an unsigned remainder of 0x80000000 by 0xffffffff',
  'OP_MODU computes a signed remainder: the smallest integer by -1 traps the host CPU',
  [("opStack[opStackOfs] = ((unsigned)r1) % ((unsigned)r0);", "opStack[opStackOfs] = (int)((unsigned)(r1 % r0));")], r'''
int main(void) {
    op4(CONST, (int)0x80000000); op4(CONST, -1); op(MODU); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == (int)0x80000000); return 0; }
''')
S('c09-block-copy-code', 'C09', 'a block copy that is refused',
  'the refused block copy is reported to the host but the error code is not kept in the VM',
  [("        Com_Error(vm->lastError = VM_BLOCKCOPY_OUT_OF_RANGE,", "        Com_Error(VM_BLOCKCOPY_OUT_OF_RANGE,")], r'''
int main(void) {
    op4(CONST, 65000); op4(CONST, 0); op4(BLOCK_COPY, 4096); op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); VM_Call(&vm, 0);
    CHECK(errs == 1); CHECK(vm.lastError == VM_BLOCKCOPY_OUT_OF_RANGE); return 0; }
''')
S('c10-free-while-running', 'C10', 'the host frees the VM from inside a system call of the outermost call',
  'a running VM is freed: the interpreter goes on in released memory',
  [("    if (vm->callLevel)\n    {\n        vm->lastError = VM_FREE_ON_RUNNING_VM;", "    if (vm->callLevel > 1)\n    {\n        vm->lastError = VM_FREE_ON_RUNNING_VM;")], r'''
static intptr_t sys(vm_t* v, intptr_t* a) { (void)a; VM_Free(v); return live; }
int main(void) {
    op4(ENTER, 16); op4(CONST, -1); op(CALL); op4(LEAVE, 16);
    CHECK(load(0, 0, 65536, sys) == 0); CHECK(VM_Call(&vm, 0) == 3); CHECK(lastErr == VM_FREE_ON_RUNNING_VM); return 0; }
''')
S('c10-free-type', 'C10', 'a host allocator that uses the allocation type to find the pool',
  'the jump table is released with the type of the code segment',
  [("Com_free(vm->instructionPointers, vm, VM_ALLOC_INSTRUCTION_POINTERS);", "Com_free(vm->instructionPointers, vm, VM_ALLOC_CODE_SEC);")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); VM_Free(&vm); CHECK(live == 0); CHECK(badFree == 0); return 0; }
''')
S('c11-nested-stack', 'C11', 'a system call handler that calls the VM again while the caller still needs the arguments in its frame',
  'a nested call gets its frame above the frame of the caller that is waiting for the system call',
  [("vm->programStack = programStack - 4;", "vm->programStack = programStack + 12;")], r'''
static intptr_t sys(vm_t* v, intptr_t* a) { (void)a; return VM_Call(v, 1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12); }
int main(void) {
    op4(ENTER, 32);
    op4(LOCAL, 32 + 8); op(LOAD4); op4(CONST, 1); op4(EQ, 13); /* nested */
    op4(CONST, 4711); op1(ARG, 8); op4(CONST, -1); op(CALL); op(POP);
    op4(LOCAL, 8); op(LOAD4); op4(LEAVE, 32);
    op4(CONST, 0); op4(LEAVE, 32);
    CHECK(load(0, 0, 65536, sys) == 0); CHECK(VM_Call(&vm, 0) == 4711); return 0; }
''')
S('c12-last-argument', 'C12', 'a system call that uses the fifteenth argument word',
  'the last argument word of a system call is not passed on: the host sees uninitialised stack memory',
  [("for (i = 0; i < (int)ARRAY_LEN(argarr); ++i)", "for (i = 0; i < (int)ARRAY_LEN(argarr) - 1; ++i)")], r'''
static intptr_t last;
static intptr_t sys(vm_t* v, intptr_t* a) { (void)v; last = a[15]; return 0; }
int main(void) {
    op4(ENTER, 128); op4(CONST, -123456); op1(ARG, 4 + 15 * 4); op4(CONST, -1); op(CALL); op4(LEAVE, 128);
    CHECK(load(0, 0, 65536, sys) == 0); VM_Call(&vm, 0); CHECK(last == -123456); return 0; }
''')
S('c12-static-args', 'C12', 'a system call handler that calls the VM again, which makes system calls itself, and uses its arguments afterwards',
  'the argument words handed to the host are overwritten by the system calls of a nested call',
  [("                    intptr_t argarr[MAX_VMSYSCALL_ARGS];", "                    static intptr_t argarr[MAX_VMSYSCALL_ARGS];")], r'''
static intptr_t after; static int depth;
static intptr_t sys(vm_t* v, intptr_t* a) { if (depth++ == 0) { VM_Call(v, 99); after = a[1]; } return 0; }
int main(void) {
    op4(ENTER, 32); op4(LOCAL, 32 + 8); op(LOAD4); op1(ARG, 8); op4(CONST, -1); op(CALL); op4(LEAVE, 32);
    CHECK(load(0, 0, 65536, sys) == 0); VM_Call(&vm, 5); CHECK(after == 5); return 0; }
''')
SEEDS[-1]['property'] = 'C15'
SEEDS[-1]['id'] = 'c15-static-args'
S('c13-unsigned-result', 'C13', 'a module that returns a negative value to a host that uses all of the intptr_t',
  'negative results of a call from the host arrive as large positive numbers',
  [("    intptr_t r;\n    int      args[MAX_VMMAIN_ARGS];", "    unsigned r;\n    int      args[MAX_VMMAIN_ARGS];")], r'''
int main(void) {
    op4(CONST, -5); op4(LEAVE, 0);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == -5); return 0; }
''')
S('c13-short-arguments', 'C13', 'a host call with an argument that does not fit into 16 bits',
  'the arguments of a host call are truncated to 16 bits',
  [("        args[i] = va_arg(ap, int);", "        args[i] = (short)va_arg(ap, int);")], r'''
int main(void) {
    op4(ENTER, 16); op4(LOCAL, 16 + 8 + 3 * 4); op(LOAD4); op4(LEAVE, 16);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0, 1, 2, 0x12345678) == 0x12345678); return 0; }
''')
S('c14-retain', 'C14', 'a host that releases the image after loading and looks at the VM object',
  'the VM keeps a pointer into the image of the caller',
  [("    vm->systemCall = systemCalls;\n", "    vm->systemCall = systemCalls;\n    vm->searchPath = (void*)(intptr_t)(bytecode + header->codeOffset);\n"),
   ("    vm->compiled = 0; /* no JIT */", "    vm->compiled = (vm->searchPath == NULL); /* no JIT */")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0); int n; uint8_t* p = img(0, 0, 4096, &n); CHECK(VM_Create(&vm, "demo", p, n, nosys) == 0);
    for (size_t i = 0; i + sizeof(uintptr_t) <= sizeof vm; i++) { uintptr_t u; memcpy(&u, (char*)&vm + i, sizeof u); CHECK(!(u >= (uintptr_t)p && u < (uintptr_t)p + n)); }
    return 0; }
''')
S('c16-guard-not-zero', 'C16', 'an allocator that does not return zero filled memory and a string that fills the end of the data segment',
  'the end of the data segment and the guard behind it are not cleared',
  [("    Com_Memset(vm->dataBase, 0, vm->dataAlloc);\n", "    Com_Memset(vm->dataBase, 0, vm->dataMask);\n")], r'''
int main(void) {
    fill = 0xa5; op4(CONST, 1); op4(LEAVE, 0); CHECK(load(0, 0, 65536, nosys) == 0);
    for (int i = 0; i <= vm.dataMask + 1; i++) CHECK(vm.dataBase[i] == 0);
    return 0; }
''')
S('c16-stack-top', 'C16', 'a module that uses the last word of the data segment as stack',
  'the program stack starts below the end of the data segment',
  [("    vm->programStack = vm->dataMask + 1;", "    vm->programStack = vm->dataAlloc - 8;")], r'''
int main(void) {
    op4(ENTER, 16); op4(LOCAL, 16 + 8 + 13 * 4); op4(LEAVE, 16);
    CHECK(load(0, 0, 65536, nosys) == 0); CHECK(VM_Call(&vm, 0) == 65536); return 0; }
''')
S('c17-negative-address', 'C17', 'a negative VM address passed to a system call',
  'negative addresses are translated to pointers in front of the data segment',
  [("    return (void*)(vm->dataBase + (vmAddr & vm->dataMask));", "    return (void*)(vm->dataBase + (vmAddr % ((intptr_t)vm->dataMask + 1)));")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0); CHECK(load(0, 0, 65536, nosys) == 0);
    uint8_t* p = VM_ArgPtr(-4, &vm); CHECK(p >= vm.dataBase && p <= vm.dataBase + vm.dataMask); return 0; }
''')
S('c17-range-start', 'C17', 'a range that starts behind the data segment',
  'the start of a range is masked before it is checked: a range outside of the segment is accepted',
  [("    const unsigned dest     = vmAddr;", "    const unsigned dest     = vmAddr & vm->dataMask;")], r'''
int main(void) {
    op4(CONST, 1); op4(LEAVE, 0); CHECK(load(0, 0, 65536, nosys) == 0);
    CHECK(VM_MemoryRangeValid(65536 + 32, 64, &vm) != 0); CHECK(VM_MemoryRangeValid(32, 64, &vm) == 0); return 0; }
''')
