/* Concrete demonstrations of the vm.c defects repaired by the "fix:" commits.
 * Build twice with -fsanitize=address,undefined against the old and the new vm.c:
 *   clang -g -fsanitize=address -I SRC demo_vm.c SRC/vm.c -o demo
 * Each case runs in a child; the line says how it ended.  Not used by any check. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include "vm.h"
static int lastErr;
void Com_Error(vmErrorCode_t l, const char* e) { lastErr = l; (void)e; }
void* Com_malloc(size_t s, vm_t* v, vmMallocType_t t) { (void)v; (void)t; return malloc(s); }
void Com_free(void* p, vm_t* v, vmMallocType_t t) { (void)v; (void)t; free(p); }
enum { UNDEF, IGNORE, BREAK, ENTER, LEAVE, CALL, PUSH, POP, CONST, LOCAL, JUMP, EQ, LOAD4=29, STORE4=32, BLOCK_COPY=34, DIVI=40, ADD=38 };
static intptr_t sys(vm_t* vm, intptr_t* args) {
    if (args[0] == 0) { memset(VMA(1, vm), (int)args[2], (size_t)args[3]); }
    return 7;
}
static uint8_t code[4096]; static int cl, ic;
static void op(int o) { code[cl++] = o; ic++; }
static void op4(int o, int v) { op(o); memcpy(code + cl, &v, 4); cl += 4; }
static uint8_t* img(int data, int bss, int* len) {
    vmHeader_t h = { VM_MAGIC, ic, sizeof h, cl, sizeof h + cl, data, 0, bss };
    *len = sizeof h + cl + data + 1; uint8_t* p = calloc(1, *len);
    memcpy(p, &h, sizeof h); memcpy(p + sizeof h, code, cl); return p;
}
static intptr_t run(int data, int bss) {
    int n; uint8_t* p = img(data, bss, &n); vm_t vm; intptr_t r = -77;
    if (VM_Create(&vm, "demo", p, n, sys) == 0) { r = VM_Call(&vm, 0); }
    printf("ret %ld lastError %d ", (long)r, vm.lastError); VM_Free(&vm); free(p); return r;
}
static void c_hdr(void) { int n; op4(CONST, 1); op4(LEAVE, 0); uint8_t* p = img(0, 64, &n); ((vmHeader_t*)p)->codeOffset = 0x7ffffffc; vm_t vm; printf("create %d ", VM_Create(&vm, "d", p, n, sys)); }
static void c_count(void) { int n; op4(CONST, 1); op4(LEAVE, 0); uint8_t* p = img(0, 64, &n); ((vmHeader_t*)p)->instructionCount = 100000; vm_t vm; printf("create %d ", VM_Create(&vm, "d", p, n, sys)); }
static void c_trunc(void) { op(CONST); run(0, 64); }
static void c_branch(void) { op4(CONST, 1); op4(CONST, 1); op4(EQ, 4); op4(LEAVE, 0); run(0, 65536); }
static void c_stack(void) { op4(ENTER, 0x40001000); op4(CONST, -2); op(CALL); op4(LEAVE, 0x40001000); run(0, 65536); }
static void c_small(void) { op4(CONST, 1); op4(LEAVE, 0); run(0, 4); }
static void c_bcopy(void) { op4(CONST, 16); op4(CONST, 32); op4(BLOCK_COPY, -8); op4(CONST, 1); op4(LEAVE, 0); run(0, 65536); }
static void c_falloff(void) { op4(CONST, 1); op4(CONST, 1); run(0, 65536); }
static void c_leave(void) { /* forged return address in front of an unchecked branch operand */
    op4(ENTER, 8); op4(LOCAL, 8); op4(CONST, 12); op(STORE4); op4(LEAVE, 8); op4(CONST, 1); op4(CONST, 12 /* NE */); op(59); run(0, 65536); }
static void c_sysret(void) { /* system call overwrites its own return address */
    op4(ENTER, 64); op4(LOCAL, 8); op4(LOCAL, 0); op(STORE4); op4(LOCAL, 12); op4(CONST, 0x41); op(STORE4); op4(LOCAL, 16); op4(CONST, 4); op(STORE4);
    op4(CONST, -1); op(CALL); op4(LEAVE, 64); run(0, 65536); }
static void c_div(void) { op4(CONST, 1); op4(CONST, 0); op(DIVI); op4(LEAVE, 0); run(0, 65536); }
static void c_div2(void) { op4(CONST, (int)0x80000000); op4(CONST, -1); op(DIVI); op4(LEAVE, 0); run(0, 65536); }
static void c_ro(void) { int n; op4(CONST, 1); op4(LEAVE, 0); uint8_t* p = img(0, 65536, &n); uint8_t* q = mmap(0, 4096, 3, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); memcpy(q, p, n); mprotect(q, 4096, PROT_READ); vm_t vm; printf("create %d ", VM_Create(&vm, "d", q, n, sys)); }
static void c_lasterr(void) { uint8_t b[64] = {0}; vm_t vm; VM_Create(&vm, "d", b, 64, sys); printf("lastError %d ", vm.lastError); if (vm.lastError == 0) { abort(); } }
static void c_nosys(void) { vm_t vm; memset(&vm, 0x41, sizeof vm); vm.callLevel = 0; VM_Create(&vm, "d", 0, 0, 0); VM_Free(&vm); }
static void c_failstack(void) { int n, i; op4(ENTER, 64); op4(CONST, -2); op(CALL); op(UNDEF); op4(LEAVE, 64); uint8_t* p = img(0, 65536, &n); vm_t vm; VM_Create(&vm, "d", p, n, sys); int s = vm.programStack; for (i = 0; i < 10; i++) { VM_Call(&vm, 0); } printf("programStack moved by %d ", s - vm.programStack); if (s != vm.programStack) { abort(); } }
static void c_push(void) { op(PUSH); op4(LEAVE, 0); intptr_t r = run(0, 65536); if (r) { abort(); } }
static void c_range(void) { int n; op4(CONST, 1); op4(LEAVE, 0); uint8_t* p = img(0, 65536, &n); vm_t vm; VM_Create(&vm, "d", p, n, sys); int r = VM_MemoryRangeValid(32, (size_t)-8, &vm); printf("range %d ", r); if (r == 0) { abort(); } }
#define C(f) { #f, f }
static struct { const char* n; void (*f)(void); } cs[] = { C(c_hdr), C(c_count), C(c_trunc), C(c_branch), C(c_stack), C(c_small), C(c_bcopy), C(c_falloff), C(c_leave), C(c_sysret), C(c_div), C(c_div2), C(c_ro), C(c_lasterr), C(c_nosys), C(c_failstack), C(c_push), C(c_range) };
int main(void) {
    for (unsigned i = 0; i < sizeof cs / sizeof *cs; i++) {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0) { alarm(10); cs[i].f(); fflush(stdout); _exit(0); }
        int st; waitpid(p, &st, 0);
        printf("%-12s %s (status 0x%x)\n", cs[i].n, st ? "FAILS" : "ok", st);
    }
    return 0;
}
