/* Callee-saved registers across a call; and live values across go(). */
#include <stdint.h>
#include <stddef.h>
#include <libdill.h>
#if defined(__x86_64__)
/* returns: low byte = mask of registers that changed, bit 8 = the call returned nonzero */
int reg_call(int (*fn)(void *), void *arg, uint64_t seed);
asm(".text\n.globl reg_call\n.type reg_call,@function\nreg_call:\n"
    "push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
    "sub $24, %rsp\n"
    "mov %rdx, (%rsp)\n"
    "mov %rdi, %rax\n mov %rsi, %rdi\n"
    "lea 1(%rdx), %rbx\n lea 2(%rdx), %rbp\n lea 3(%rdx), %r12\n lea 4(%rdx), %r13\n lea 5(%rdx), %r14\n lea 6(%rdx), %r15\n"
    "call *%rax\n"
    "mov (%rsp), %rdx\n"
    "xor %ecx, %ecx\n"
    "test %eax, %eax\n jz 1f\n or $256, %ecx\n 1:\n"
    "lea 1(%rdx), %rax\n cmp %rax, %rbx\n je 1f\n or $1, %ecx\n 1:\n"
    "lea 2(%rdx), %rax\n cmp %rax, %rbp\n je 1f\n or $2, %ecx\n 1:\n"
    "lea 3(%rdx), %rax\n cmp %rax, %r12\n je 1f\n or $4, %ecx\n 1:\n"
    "lea 4(%rdx), %rax\n cmp %rax, %r13\n je 1f\n or $8, %ecx\n 1:\n"
    "lea 5(%rdx), %rax\n cmp %rax, %r14\n je 1f\n or $16, %ecx\n 1:\n"
    "lea 6(%rdx), %rax\n cmp %rax, %r15\n je 1f\n or $32, %ecx\n 1:\n"
    "mov %ecx, %eax\n"
    "add $24, %rsp\n"
    "pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
    ".size reg_call,.-reg_call\n");
#else
int reg_call(int (*fn)(void *), void *arg, uint64_t seed) { return fn(arg) ? 256 : 0; }
#endif
static void fail(int *bad, int bit) { *bad |= bit; }
/* many arguments of different kinds, and a result checked by the coroutine itself */
struct args_out { int bad; void (*f)(void *); void *a; };
dill_coroutine static void args(struct args_out *o, int a, long b, double c, float d, char e, void *p, uint64_t g, short h, int i, double j, long k) {
    if (a != 11 || b != 22222222222l || c != 3.25 || d != 4.5f || e != 'x' || p != (void *)o || g != 0x123456789abcdef0ull || h != -7 || i != 9 || j != -10.75 || k != 12) o->bad |= 1;
    volatile char local[64]; for (int q = 0; q < 64; ++q) local[q] = (char)(q + a);
    if (o->f) o->f(o->a);
    for (int q = 0; q < 64; ++q) if (local[q] != (char)(q + 11)) o->bad |= 2;
    if (a != 11 || b != 22222222222l || c != 3.25 || d != 4.5f || e != 'x' || g != 0x123456789abcdef0ull || h != -7 || i != 9 || j != -10.75 || k != 12) o->bad |= 4;
}
/* launches a coroutine with many live values around; returns bundle handle or -1; *bad gets a mask */
int reg_go_args(struct args_out *o, int bndl, void *mem, size_t len, long seed, int *bad) {
    long a = seed * 3, b = seed * 5 + 1, c = seed ^ 0x55, d = seed + 1000, e = seed * seed, f = ~seed, g = seed << 3, h = seed - 99, i = seed * 7, j = seed % 1001;
    asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f));
    asm volatile("" : "+r"(g), "+r"(h), "+r"(i), "+r"(j));
    int rc;
    if (bndl >= 0) { if (mem) rc = dill_bundle_go_mem(bndl, args(o, 11, 22222222222l, 3.25, 4.5f, 'x', (void *)o, 0x123456789abcdef0ull, -7, 9, -10.75, 12), mem, len);
        else rc = dill_bundle_go(bndl, args(o, 11, 22222222222l, 3.25, 4.5f, 'x', (void *)o, 0x123456789abcdef0ull, -7, 9, -10.75, 12)); }
    else { if (mem) rc = dill_go_mem(args(o, 11, 22222222222l, 3.25, 4.5f, 'x', (void *)o, 0x123456789abcdef0ull, -7, 9, -10.75, 12), mem, len);
        else rc = dill_go(args(o, 11, 22222222222l, 3.25, 4.5f, 'x', (void *)o, 0x123456789abcdef0ull, -7, 9, -10.75, 12)); }
    asm volatile("" : "+r"(a), "+r"(b), "+r"(c), "+r"(d), "+r"(e), "+r"(f));
    asm volatile("" : "+r"(g), "+r"(h), "+r"(i), "+r"(j));
    if (a != seed * 3 || b != seed * 5 + 1 || c != (seed ^ 0x55) || d != seed + 1000 || e != seed * seed || f != ~seed || g != seed << 3 || h != seed - 99 || i != seed * 7 || j != seed % 1001) fail(bad, 1);
    return rc;
}
