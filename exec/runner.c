/* Runs generated code and records what happened.  Freestanding; built for
   x86-64 and for i386.  See lib/execlib.py for the formats. */
typedef unsigned char u8;
typedef unsigned int u32;
typedef unsigned long long u64;
typedef unsigned long word;

#define HOOKS 0x1F000000ul
#define STACK 0x1E000000ul
#define STKLEN 0x40000ul
#define INMAX (64u << 20)

struct hook { u32 pop, clob; u64 ret, ret2; };
struct test { u64 entry, gpr[16]; u8 xmm[16][16]; u32 nstack, dumplen; u64 dumpaddr; u64 stack[64]; };
struct head { u32 magic, ntests; u64 base, map, filelen; u32 nhooks, maxcalls; };
struct regs { u64 gpr[16]; u8 xmm[16][16]; };
struct call { u32 id, flags; struct regs r; u64 stack[40]; };

/* order: ax cx dx bx sp bp si di 8..15 */
struct regs R;                  /* registers at the last entry into the runner, and to load */
word g_rsp, g_ret, g_entry, g_flags, g_sp, g_live, hook_id, hook_rsp;
u8 altstk[65536] __attribute__((aligned(64)));
u8 sigstk[65536] __attribute__((aligned(64)));
static u8 in[4096];
static u32 ncalls, maxcalls, curtest_calls;
static struct hook *hooks;
static u32 nhooks;
static u8 *out;
static u64 outlen;

static long sys(long n, long a, long b, long c, long d, long e, long f);
#ifdef __x86_64__
#define NR_read 0
#define NR_write 1
#define NR_mmap 9
#define NR_sigaction 13
#define NR_sigaltstack 131
#define NR_setitimer 38
#define NR_exit 231
static long sys(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
#else
#define NR_read 3
#define NR_write 4
#define NR_mmap 192
#define NR_sigaction 174
#define NR_sigaltstack 186
#define NR_setitimer 104
#define NR_exit 252
static long sys(long n, long a, long b, long c, long d, long e, long f)
{
    long r;
    long x[7] = { n, a, b, c, d, e, f };
    __asm__ volatile("push %%ebp\n push %%ebx\n mov %1,%%eax\n mov 4(%%eax),%%ebx\n mov 8(%%eax),%%ecx\n mov 12(%%eax),%%edx\n mov 16(%%eax),%%esi\n"
                     "mov 20(%%eax),%%edi\n mov 24(%%eax),%%ebp\n mov (%%eax),%%eax\n int $0x80\n pop %%ebx\n pop %%ebp"
                     : "=a"(r) : "a"(x) : "ecx", "edx", "esi", "edi", "memory");
    return r;
}
#endif
void *memcpy(void *d, const void *s, word n) { u8 *a = d; const u8 *b = s; while (n--) *a++ = *b++; return d; }
void *memset(void *d, int c, word n) { u8 *a = d; while (n--) *a++ = c; return d; }

static void die(int c) { for (;;) sys(NR_exit, c, 0, 0, 0, 0, 0); }
static void rd(void *p, u64 n)
{
    u8 *q = p;
    while (n) {
        long r = sys(NR_read, 0, (long)q, n > 1u << 20 ? 1 << 20 : (long)n, 0, 0, 0);
        if (r <= 0) die(90);
        q += r; n -= r;
    }
}
static void put(const void *p, u64 n)
{
    if (outlen + n > INMAX) die(91);
    memcpy(out + outlen, p, n);
    outlen += n;
}
static void *map(word at, word n)
{
    long f = 0x22 | (at ? 0x10 : 0);    /* private, anonymous, fixed */
    long r = sys(NR_mmap, (long)at, (n + 4095) & ~4095ul, 7, f, -1, 0);
    if ((word)r > (word)-4096) die(92);
    return (void *)r;
}

void run_asm(void);
void hook_common(void);
void recover(int sig);

#ifdef __x86_64__
__asm__(
".globl run_asm\nrun_asm:\n"
" push %rbx\n push %rbp\n push %r12\n push %r13\n push %r14\n push %r15\n"
" mov %rsp, g_rsp\n"
" lea R+128(%rip), %rax\n"
" movups (%rax),%xmm0\n movups 16(%rax),%xmm1\n movups 32(%rax),%xmm2\n movups 48(%rax),%xmm3\n movups 64(%rax),%xmm4\n movups 80(%rax),%xmm5\n movups 96(%rax),%xmm6\n movups 112(%rax),%xmm7\n"
" movups 128(%rax),%xmm8\n movups 144(%rax),%xmm9\n movups 160(%rax),%xmm10\n movups 176(%rax),%xmm11\n movups 192(%rax),%xmm12\n movups 208(%rax),%xmm13\n movups 224(%rax),%xmm14\n movups 240(%rax),%xmm15\n"
" pushq g_flags\n popfq\n"
" mov R+0, %rax\n mov R+8, %rcx\n mov R+16, %rdx\n mov R+24, %rbx\n mov R+40, %rbp\n mov R+48, %rsi\n mov R+56, %rdi\n"
" mov R+64, %r8\n mov R+72, %r9\n mov R+80, %r10\n mov R+88, %r11\n mov R+96, %r12\n mov R+104, %r13\n mov R+112, %r14\n mov R+120, %r15\n"
" mov g_sp, %rsp\n"
" call *g_entry\n"
" mov %rsp, g_sp\n"
" mov $back, %rsp\n jmp 1f\n"
"back:\n"
"1: mov g_rsp, %rsp\n"
" pushfq\n popq g_flags\n cld\n"
" call save\n"
" pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
"save:\n"
" mov %rax, R+0\n mov %rcx, R+8\n mov %rdx, R+16\n mov %rbx, R+24\n mov %rbp, R+40\n mov %rsi, R+48\n mov %rdi, R+56\n"
" mov %r8, R+64\n mov %r9, R+72\n mov %r10, R+80\n mov %r11, R+88\n mov %r12, R+96\n mov %r13, R+104\n mov %r14, R+112\n mov %r15, R+120\n"
" lea R+128(%rip), %rax\n"
" movups %xmm0,(%rax)\n movups %xmm1,16(%rax)\n movups %xmm2,32(%rax)\n movups %xmm3,48(%rax)\n movups %xmm4,64(%rax)\n movups %xmm5,80(%rax)\n movups %xmm6,96(%rax)\n movups %xmm7,112(%rax)\n"
" movups %xmm8,128(%rax)\n movups %xmm9,144(%rax)\n movups %xmm10,160(%rax)\n movups %xmm11,176(%rax)\n movups %xmm12,192(%rax)\n movups %xmm13,208(%rax)\n movups %xmm14,224(%rax)\n movups %xmm15,240(%rax)\n"
" ret\n"
".globl hook_common\nhook_common:\n"
" pop hook_id\n"
" mov %rsp, hook_rsp\n"
" mov $altstk+65536-64, %rsp\n"
" pushfq\n popq g_flags\n cld\n"
" call save\n"
" call c_hook\n"
" lea R+128(%rip), %rax\n"
" movups (%rax),%xmm0\n movups 16(%rax),%xmm1\n movups 32(%rax),%xmm2\n movups 48(%rax),%xmm3\n movups 64(%rax),%xmm4\n movups 80(%rax),%xmm5\n movups 96(%rax),%xmm6\n movups 112(%rax),%xmm7\n"
" movups 128(%rax),%xmm8\n movups 144(%rax),%xmm9\n movups 160(%rax),%xmm10\n movups 176(%rax),%xmm11\n movups 192(%rax),%xmm12\n movups 208(%rax),%xmm13\n movups 224(%rax),%xmm14\n movups 240(%rax),%xmm15\n"
" mov R+0, %rax\n mov R+8, %rcx\n mov R+16, %rdx\n mov R+24, %rbx\n mov R+40, %rbp\n mov R+48, %rsi\n mov R+56, %rdi\n"
" mov R+64, %r8\n mov R+72, %r9\n mov R+80, %r10\n mov R+88, %r11\n mov R+96, %r12\n mov R+104, %r13\n mov R+112, %r14\n mov R+120, %r15\n"
" mov hook_rsp, %rsp\n ret\n"
".globl recover2\nrecover2:\n"
" mov g_rsp, %rsp\n cld\n"
" pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbp\n pop %rbx\n ret\n"
"restorer: mov $15, %eax\n syscall\n"
".globl _start\n_start:\n and $-16, %rsp\n call cmain\n"
);
#else
__asm__(
".globl run_asm\nrun_asm:\n"
" push %ebx\n push %ebp\n push %esi\n push %edi\n"
" mov %esp, g_rsp\n"
" movups R+128,%xmm0\n movups R+144,%xmm1\n movups R+160,%xmm2\n movups R+176,%xmm3\n movups R+192,%xmm4\n movups R+208,%xmm5\n movups R+224,%xmm6\n movups R+240,%xmm7\n"
" pushl g_flags\n popfl\n"
" mov R+0, %eax\n mov R+8, %ecx\n mov R+16, %edx\n mov R+24, %ebx\n mov R+40, %ebp\n mov R+48, %esi\n mov R+56, %edi\n"
" mov g_sp, %esp\n"
" call *g_entry\n"
" mov %esp, g_sp\n"
" mov g_rsp, %esp\n"
" pushfl\n popl g_flags\n cld\n"
" call save\n"
" pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n"
"save:\n"
" mov %eax, R+0\n mov %ecx, R+8\n mov %edx, R+16\n mov %ebx, R+24\n mov %ebp, R+40\n mov %esi, R+48\n mov %edi, R+56\n"
" movups %xmm0,R+128\n movups %xmm1,R+144\n movups %xmm2,R+160\n movups %xmm3,R+176\n movups %xmm4,R+192\n movups %xmm5,R+208\n movups %xmm6,R+224\n movups %xmm7,R+240\n"
" ret\n"
".globl hook_common\nhook_common:\n"
" popl hook_id\n"
" mov %esp, hook_rsp\n"
" mov $altstk+65536-64, %esp\n"
" pushfl\n popl g_flags\n cld\n"
" call save\n"
" call c_hook\n"
" movups R+128,%xmm0\n movups R+144,%xmm1\n movups R+160,%xmm2\n movups R+176,%xmm3\n movups R+192,%xmm4\n movups R+208,%xmm5\n movups R+224,%xmm6\n movups R+240,%xmm7\n"
" mov R+0, %eax\n mov R+8, %ecx\n mov R+16, %edx\n mov R+24, %ebx\n mov R+40, %ebp\n mov R+48, %esi\n mov R+56, %edi\n"
" mov hook_rsp, %esp\n ret\n"
".globl recover2\nrecover2:\n"
" mov g_rsp, %esp\n cld\n"
" pop %edi\n pop %esi\n pop %ebp\n pop %ebx\n ret\n"
"restorer: mov $173, %eax\n int $0x80\n"
".globl _start\n_start:\n and $-16, %esp\n call cmain\n"
);
#endif
extern void recover2(void);
extern void restorer(void);
static u32 status;
static u64 faddr;

/* the handler leaves by switching back to the runner's stack */
static void handler(int sig, u8 *info)
{
    if (!g_live) die(80);
    status = sig;
#ifdef __x86_64__
    faddr = *(u64 *)(info + 16);
#else
    faddr = sig;
#endif
    g_live = 0;
    recover2();
}

static void reg0(struct regs *r) { for (unsigned i = 0; i < sizeof *r; i++) ((u8 *)r)[i] = 0; }

void c_hook(void)
{
    struct call c;
    word i, *sp = (word *)hook_rsp;
    struct hook *h;
    memset(&c, 0, sizeof c);
    c.id = hook_id;
    c.flags = g_flags;
    R.gpr[4] = hook_rsp;
    memcpy(&c.r, &R, sizeof R);
    for (i = 0; i < 40; i++)
        if ((word)(sp + i + 1) <= STACK + STKLEN)
            c.stack[i] = sp[i];
    if (curtest_calls++ >= maxcalls) {      /* endless */
        status = 1000; g_live = 0; recover2();
    }
    put(&c, sizeof c);
    ncalls++;
    h = &hooks[hook_id < nhooks ? hook_id : 0];
    if (h->clob != 9) {
        u64 g = 0xC10BBE2ED0DEAD00ull;
        R.gpr[0] = h->ret; R.gpr[2] = h->clob == 2 ? h->ret2 : g + 2; R.gpr[1] = g + 1;
#ifdef __x86_64__
        R.gpr[8] = g + 8; R.gpr[9] = g + 9; R.gpr[10] = g + 10; R.gpr[11] = g + 11;
        if (h->clob == 0) { R.gpr[6] = g + 6; R.gpr[7] = g + 7; }
        if (h->clob == 1) for (i = 1; i <= 4; i++) sp[i] = g + 0x20 + i;
#endif
        for (i = 0; i < (h->clob == 1 ? 6 : 16); i++) memset(R.xmm[i], 0xE0 + i, 16);
        memcpy(R.xmm[0], &h->ret2, 8);
    }
    if (h->pop) {
        word ra = sp[0];
        hook_rsp += h->pop;
        *(word *)hook_rsp = ra;
    }
}

void cmain(void)
{
    struct head H;
    struct { void *h; unsigned long flags; void *rest; unsigned long mask[2]; } sa;
    struct { void *sp; int flags; unsigned long size; } ss;
    static struct test T;
    u32 i, k;
    u8 *hp;
    rd(&H, sizeof H);
    if (H.magic != 0x55415352) die(93);
    out = map(0, INMAX);
    hooks = map(0, H.nhooks * sizeof(struct hook) + 4096);
    rd(hooks, (u64)H.nhooks * sizeof(struct hook));
    nhooks = H.nhooks;
    maxcalls = H.maxcalls;
    hp = map(HOOKS, 16 * (nhooks + 1));
    for (i = 0; i < nhooks; i++, hp += 16) {
        hp[0] = 0x68; *(u32 *)(hp + 1) = i;
        hp[5] = 0xe9; *(u32 *)(hp + 6) = (u32)((word)hook_common - (word)(hp + 10));
    }
    map(STACK, STKLEN);
    map(H.base, H.map);
    struct test *ts = map(0, (word)H.ntests * sizeof(struct test) + 4096);
    rd(ts, (u64)H.ntests * sizeof(struct test));
    rd((void *)(word)H.base, H.filelen);
    ss.sp = sigstk; ss.flags = 0; ss.size = sizeof sigstk;
    sys(NR_sigaltstack, (long)&ss, 0, 0, 0, 0, 0);
    static const int sigs[] = { 4, 5, 7, 8, 11, 26, 27 };
    for (i = 0; i < 7; i++) {
        sa.h = handler; sa.flags = 0x4 | 0x08000000 | 0x40000000 | 0x04000000; sa.rest = restorer; sa.mask[0] = sa.mask[1] = 0;
        sys(NR_sigaction, sigs[i], (long)&sa, 0, 8, 0, 0);
    }
    for (i = 0; i < H.ntests; i++) {
        struct { long s, us, s2, us2; } it = { 0, 0, 0, 400000 };
        u64 mark = outlen, z = 0;
        word top, *sp;
        memcpy(&T, ts + i, sizeof T);
        memcpy(R.gpr, T.gpr, sizeof R.gpr);
        memcpy(R.xmm, T.xmm, sizeof R.xmm);
        for (k = 0; k < STKLEN; k += sizeof(word)) *(word *)(STACK + k) = (word)0x5AFE5AFE00000000ull + k + 0x5A000001;
        top = STACK + STKLEN - 4096;                    /* 16-aligned */
        top -= (word)T.gpr[4];                          /* extra misalignment wanted by the test */
        sp = (word *)top;
        for (k = 0; k < T.nstack; k++) sp[k] = T.stack[k];
        g_sp = top; g_entry = T.entry; g_flags = 0x202; status = 0; faddr = 0; curtest_calls = 0; ncalls = 0;
        R.gpr[4] = 0;
        /* status, ncalls, then registers ... are patched in at mark */
        u32 hdr[2] = { 0, 0 };
        put(hdr, 8);
        sys(NR_setitimer, 2, (long)&it, 0, 0, 0, 0);
        g_live = 1;
        run_asm();
        g_live = 0;
        it.us2 = 0;
        sys(NR_setitimer, 2, (long)&it, 0, 0, 0, 0);
        hdr[0] = status; hdr[1] = ncalls;
        memcpy(out + mark, hdr, 8);
        R.gpr[4] = status ? faddr : (u64)(g_sp - top);
        put(&R, sizeof R);
        z = g_flags; put(&z, 8);
        for (k = 0; k < 64; k++) { z = sp[k]; put(&z, 8); }
        if (T.dumplen) put((void *)(word)T.dumpaddr, T.dumplen);
    }
    u64 o = 0;
    while (o < outlen) {
        long r = sys(NR_write, 1, (long)(out + o), outlen - o > 1u << 20 ? 1 << 20 : (long)(outlen - o), 0, 0, 0);
        if (r <= 0) die(94);
        o += r;
    }
    die(0);
}
