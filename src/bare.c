/* The library without any C library: linked with -nostdlib, started by the kernel, and with all system calls
 * forbidden except exit and writing to descriptor 9 (results) while it runs.  Measures the stack that each
 * function needs on growing texts.
 *   bare run SEED FROM TO    bare stack FROM TO STEP LEN */
#if defined(__x86_64__)
#include <linux/audit.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#endif
#include "work.h"

/* what a freestanding compiler may call */
void *memcpy(void *d, const void *s, size_t n) { void *r = d; __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); return r; }
void *memset(void *d, int c, size_t n) { void *r = d; __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory"); return r; }
void *memmove(void *d, const void *s, size_t n)
{
	size_t i;
	if ((uintptr_t)d <= (uintptr_t)s)
		return memcpy(d, s, n);
	for (i = n; i > 0; i--)
		((volatile char *)d)[i - 1] = ((const char *)s)[i - 1];
	return d;
}
int memcmp(const void *a, const void *b, size_t n)
{
	const volatile unsigned char *x = a, *y = b;
	for (; n > 0; n--, x++, y++)
		if (*x != *y)
			return *x - *y;
	return 0;
}

#if defined(__i386__)
/* only writing and leaving, see digest mode */
static long sys(long nr, long a, long b, long c, long d, long e)
{
	long r;
	(void)d;
	(void)e;
	nr = nr == 231 ? 252 : nr == 1 ? 4 : -1;
	__asm__ volatile("int $0x80" : "=a"(r) : "a"(nr), "b"(a), "c"(b), "d"(c) : "memory");
	return r;
}
#else
static long sys(long nr, long a, long b, long c, long d, long e)
{
	register long r10 __asm__("r10") = d, r8 __asm__("r8") = e, r9 __asm__("r9") = 0;
	long r;
	__asm__ volatile("syscall" : "=a"(r) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
	return r;
}
#endif
static void quit(int c)
{
	for (;;)
		sys(231, c, 0, 0, 0, 0);
}
static char ob[4096];
static size_t on;
static void flush(void)
{
	if (on && sys(1, 9, (long)ob, (long)on, 0, 0) < 0)
		quit(2);
	on = 0;
}
static void puts_(const char *s)
{
	for (; *s; s++) {
		if (on == sizeof ob)
			flush();
		ob[on++] = *s;
	}
}
static void putn(uint64_t w)
{
	size_t v = (size_t)w;
	char b[24];
	int i = 23;
	b[i] = 0;
	do
		b[--i] = (char)('0' + v % 10);
	while (v /= 10);
	puts_(b + i);
	puts_(" ");
}
static uint64_t num(const char *s)
{
	uint64_t v = 0;
	for (; *s >= '0' && *s <= '9'; s++)
		v = v * 10 + (uint64_t)(*s - '0');
	return v;
}

/* ---------------------------------------------------------------- stack */
enum { DEPTH = 1 << 20 };
static const uint64_t MARK = UINT64_C(0xC3D1A5E7996B3C5F);
static int measure;
static uint64_t high[F_NUM], at[F_NUM], item;
static __attribute__((noinline)) void paint(void)
{
	volatile uint64_t *p = (volatile uint64_t *)((uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)15) - 64, *q = p - DEPTH / 8;
	/* touch downwards, as the kernel grows the stack */
	while (--p > q)
		*p = MARK;
}
static __attribute__((noinline)) size_t depth(void)
{
	volatile uint64_t *top = (volatile uint64_t *)((uintptr_t)__builtin_frame_address(0) & ~(uintptr_t)15) - 64, *q = top - DEPTH / 8 + 1;
	while (q < top && *q == MARK)
		q++;
	return (size_t)(top - q) * 8;
}
static void note(int f, size_t d)
{
	if (d > high[f]) {
		high[f] = d;
		at[f] = item;
	}
}

/* ---------------------------------------------------------------- memory: slots in static storage */
enum { SLOTS = 24, SLOTB = 1 << 20 };
static char slot[SLOTS][SLOTB] __attribute__((aligned(16))), used[SLOTS];
static void *take(size_t n)
{
	int i;
	for (i = 0; i < SLOTS; i++)
		if (!used[i]) {
			if (n > SLOTB)
				quit(2);
			used[i] = 1;
			return slot[i];
		}
	quit(2);
	return 0;
}
static void *b_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	void *p = take(n);
	(void)e;
	(void)align;
	memcpy(p, src, n);
	return p;
}
static void *b_out(struct wenv *e, size_t n, size_t align)
{
	void *p = take(n);
	(void)align;
	memset(p, e->fill, n);
	if (measure && e->f > F_PRE)
		paint();
	return p;
}
static void b_drop(struct wenv *e, void *p, size_t n)
{
	int i;
	(void)n;
	/* levels and reordering are measured from the allocation of their destination on, the latter for itself */
	if (measure && e->f > F_PRE && p != 0)
		note(e->f, depth());
	for (i = 0; i < SLOTS; i++)
		if (p == slot[i])
			used[i] = 0;
}
static void b_defined(struct wenv *e, const void *p, size_t n) { (void)e; (void)p; (void)n; }
static void b_bad(struct wenv *e, const char *w) { (void)e; (void)w; }

static struct wmem mem;
static struct wenv e;
static __attribute__((noinline)) void run_one(const struct wcase *c, int f, uint_least32_t mask)
{
	e.f = f;
	w_run(&e, c, mask);
}
static uint_least32_t all(int f) { return f == F_PRE ? 7u << F_PRE : 1u << f; }

static void forbid(void)
{
#if defined(__x86_64__)
	/* x86-64 only: exit_group, and write to descriptor 9 */
	static struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 4), /* arch */
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, AUDIT_ARCH_X86_64, 0, 5),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 0), /* nr */
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 231, 4, 0),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 1, 0, 2),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, 16), /* first argument */
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, 9, 1, 0),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	static struct sock_fprog p = { sizeof f / sizeof *f, f };
	if (sys(157, 38, 1, 0, 0, 0) || sys(157, 22, 2, (long)&p, 0, 0))
		quit(4);
#endif
}

__attribute__((used)) void start(long *sp)
{
	char **argv = (char **)(sp + 1);
	long argc = sp[0];
	struct wcase c;
	uint64_t i, calls = 0;
	int f, k;
	e.in = b_in;
	e.out = b_out;
	e.drop = b_drop;
	e.defined = b_defined;
	e.bad = b_bad;
	e.fill = 0xA5;
	e.light = 1;
	if (argc >= 5 && argv[1][0] == 'd') {
		/* digests as the drv program writes them */
		for (i = num(argv[3]); i < num(argv[4]); i++) {
			w_make(&mem, num(argv[2]), i, &c);
			w_hold(&e, &mem, &c);
			for (f = 0; f < F_NUM; f++) {
				uint64_t x;
				if (f <= F_PRE)
					run_one(&c, f, all(f));
				x = e.dig[f] ^ e.dig[f] >> 32;
				for (k = 0; k < 4; k++) {
					if (on == sizeof ob)
						flush();
					ob[on++] = (char)(x >> (8 * k));
				}
			}
			w_release(&e, &c);
		}
		flush();
		quit(0);
	} else if (argc >= 5 && argv[1][0] == 'r') {
		forbid();
		for (i = num(argv[3]); i < num(argv[4]); i++) {
			w_make(&mem, num(argv[2]), i, &c);
			w_hold(&e, &mem, &c);
			for (f = 0; f <= F_PRE; f++) {
				puts_("at ");
				putn(i);
				putn((uint64_t)f);
				puts_("\n");
				flush();
				run_one(&c, f, all(f));
			}
			w_release(&e, &c);
		}
	} else if (argc >= 6 && argv[1][0] == 's') {
		uint64_t len = num(argv[5]);
		/* make the kernel grow the stack now */
		paint();
		forbid();
		for (i = num(argv[2]); i < num(argv[3]); i += num(argv[4])) {
			w_family(&mem, (int)i, len, &c);
			w_hold(&e, &mem, &c);
			item = i;
			for (f = 0; f <= F_PRE; f++) {
				if (len > 6000 && (f == F_SENT || f == F_SENT8 || (f == F_PRE && (i >= FAMILIES || QUADRATIC >> i & 1))))
					continue; /* takes time that grows with the square of the length, which is allowed */
				paint();
				run_one(&c, f, (uint_least32_t)1 << f);
				note(f, depth());
			}
			if (len <= 6000 || !(i >= FAMILIES || QUADRATIC >> i & 1)) {
				measure = 1;
				run_one(&c, F_PRE, all(F_PRE));
				measure = 0;
			}
			w_release(&e, &c);
		}
		for (f = 0; f < F_NUM; f++) {
			puts_("stack ");
			putn((uint64_t)f);
			putn(high[f]);
			putn(at[f]);
			puts_("\n");
		}
	} else
		quit(2);
	for (k = 0; k < F_NUM; k++) {
		puts_("calls ");
		puts_(f_name[k]);
		puts_(" ");
		putn(e.calls[k]);
		puts_("\n");
		calls += e.calls[k];
	}
	puts_("done\n");
	flush();
	quit(0);
}
#if defined(__i386__)
__asm__(".globl _start\n_start:\n\tmov %esp,%eax\n\txor %ebp,%ebp\n\tand $-16,%esp\n\tsub $12,%esp\n\tpush %eax\n\tcall start\n");
#else
__asm__(".globl _start\n_start:\n\tmov %rsp,%rdi\n\txor %ebp,%ebp\n\tand $-16,%rsp\n\tcall start\n");
#endif
