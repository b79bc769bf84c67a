/* Purity of the shared library: its data and all inputs are read-only while it runs, outputs are surrounded by
 * canaries, and each result is compared between a fresh process and different histories, orders, output
 * contents and stack contents.
 *   pure SEED FROM N OUT */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <locale.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include "work.h"

static struct wmem mem;
static struct st { volatile uint64_t seed, idx, len; volatile int32_t f, fam, done, bad; char what[200]; } *st;
static const char *phase = "";

/* ---------------------------------------------------------------- memory */
enum { SLOTS = 24, SLOTB = 1 << 19 };
static char *slot[SLOTS], used[SLOTS];
static size_t PG;

static void fail(const char *what)
{
	if (!st->bad)
		snprintf(st->what, sizeof st->what, "%s (%s)", what, phase);
	st->bad = 1;
	_exit(3);
}
static int take(void)
{
	int i;
	for (i = 0; i < SLOTS; i++)
		if (!used[i]) {
			used[i] = 1;
			return i;
		}
	fail("no slot");
	return 0;
}
static char *page_of(char *p) { return (char *)((uintptr_t)p & ~(uintptr_t)(PG - 1)); }
/* inputs end at an inaccessible page and are read-only */
static void *p_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	int i = take();
	char *end = slot[i] + SLOTB, *p = end - n;
	(void)e;
	(void)align;
	if (n > SLOTB)
		fail("input too long");
	if (n) {
		size_t len = (size_t)(end - page_of(p));
		mprotect(page_of(p), len, PROT_READ | PROT_WRITE);
		memcpy(p, src, n);
		mprotect(page_of(p), len, PROT_READ);
	}
	return p;
}
/* outputs end at an inaccessible page, with a canary before them */
enum { CAN = 64 };
static void *p_out(struct wenv *e, size_t n, size_t align)
{
	int i = take();
	char *end = slot[i] + SLOTB, *p = end - n;
	(void)align;
	if (n + CAN > SLOTB)
		fail("output too long");
	mprotect(page_of(p - CAN), (size_t)(end - page_of(p - CAN)), PROT_READ | PROT_WRITE);
	memset(p - CAN, 0x5C, CAN);
	memset(p, e->fill, n);
	used[i] = 2;
	return p;
}
static void p_drop(struct wenv *e, void *q, size_t n)
{
	char *p = q;
	int i, k;
	(void)e;
	(void)n;
	for (i = 0; i < SLOTS; i++)
		if (p >= slot[i] && p <= slot[i] + SLOTB && used[i]) {
			if (used[i] == 2)
				for (k = 0; k < CAN; k++)
					if (p[k - CAN] != 0x5C)
						fail("memory before an output buffer was modified");
			used[i] = 0;
			return;
		}
	fail("unknown buffer");
}
static void p_defined(struct wenv *e, const void *p, size_t n) { (void)e; (void)p; (void)n; }
static void p_bad(struct wenv *e, const char *what) { (void)e; (void)what; }

/* ---------------------------------------------------------------- the library's own memory */
static size_t locked, tls_size;
static char *lock0[16], *lock1[16];
static int nlock;
static const void *tls;
static unsigned char tls_copy[4096];
static int find(struct dl_phdr_info *d, size_t sz, void *x)
{
	int i;
	(void)sz;
	(void)x;
	if (!strstr(d->dlpi_name, "libgrapheme"))
		return 0;
	for (i = 0; i < d->dlpi_phnum; i++) {
		const ElfW(Phdr) *p = &d->dlpi_phdr[i];
		if (p->p_type == PT_LOAD && p->p_flags & PF_W && nlock < 16) {
			char *a = page_of((char *)d->dlpi_addr + p->p_vaddr);
			char *b = page_of((char *)d->dlpi_addr + p->p_vaddr + p->p_memsz + PG - 1);
			if (mprotect(a, (size_t)(b - a), PROT_READ)) {
				perror("mprotect");
				_exit(2);
			}
			lock0[nlock] = a;
			lock1[nlock++] = b;
			locked += p->p_memsz;
		}
		if (p->p_type == PT_TLS && p->p_memsz <= sizeof tls_copy) {
			tls = d->dlpi_tls_data;
			tls_size = p->p_memsz;
			if (tls)
				memcpy(tls_copy, tls, tls_size);
		}
	}
	return 1;
}
static void on_segv(int sig, siginfo_t *si, void *u)
{
	char *a = si->si_addr;
	int i;
	const char *what = sig == SIGSEGV || sig == SIGBUS ? "an access outside the given buffers" : "a fatal signal";
	(void)u;
	for (i = 0; i < nlock; i++)
		if (a >= lock0[i] && a < lock1[i])
			what = "a write to the library's static data";
	for (i = 0; i < SLOTS; i++)
		if (a >= slot[i] && a < slot[i] + SLOTB && used[i] == 1)
			what = "a write to an input";
	fail(what);
}

/* ---------------------------------------------------------------- */
static __attribute__((noinline)) void paint(unsigned char c)
{
	volatile unsigned char b[48 << 10];
	size_t i;
	for (i = 0; i < sizeof b; i++)
		b[i] = c;
}
static uint64_t evals;
static void one(struct wenv *e, uint64_t seed, uint64_t idx, uint32_t *dig, int reverse, int pat)
{
	struct wcase c;
	int k, j;
	st->idx = idx;
	w_make(&mem, seed, idx, &c);
	w_hold(e, &mem, &c);
	for (k = 0; k <= F_PRE; k++) {
		int f = reverse ? F_PRE - k : k;
		st->f = f;
		if (pat >= 0)
			paint((unsigned char)pat);
		e->light = 1;
		errno = 4711;
		w_run(e, &c, f == F_PRE ? 7u << F_PRE : 1u << f);
		if (errno != 4711)
			fail("errno was changed");
		for (j = 0; j < (f == F_PRE ? 3 : 1); j++)
			dig[f + j] = (uint32_t)(e->dig[f + j] ^ e->dig[f + j] >> 32);
		evals++;
		if (tls && memcmp(tls, tls_copy, tls_size))
			fail("the library's thread-local data was modified");
	}
	w_release(e, &c);
}

int main(int argc, char **argv)
{
	static char alt[1 << 16];
	struct wenv e;
	uint64_t seed, from, n, i, r, fresh;
	uint32_t (*ref)[F_NUM], now[F_NUM];
	char name[4096];
	int fd, k, pass;
	stack_t ss = { .ss_sp = alt, .ss_size = sizeof alt };
	struct sigaction sa;
	if (argc < 6)
		return 2;
	seed = strtoull(argv[1], 0, 10);
	from = strtoull(argv[2], 0, 10);
	n = strtoull(argv[3], 0, 10);
	fresh = strtoull(argv[4], 0, 10);
	snprintf(name, sizeof name, "%s.state", argv[5]);
	fd = open(name, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, sizeof *st))
		return 2;
	st = mmap(0, sizeof *st, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	ref = mmap(0, n * sizeof *ref, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	PG = (size_t)sysconf(_SC_PAGESIZE);
	for (i = 0; i < SLOTS; i++) {
		slot[i] = mmap(0, SLOTB + PG, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (slot[i] == MAP_FAILED)
			return 2;
		mprotect(slot[i] + SLOTB, PG, PROT_NONE);
	}
	memset(&e, 0, sizeof e);
	e.in = p_in;
	e.out = p_out;
	e.drop = p_drop;
	e.defined = p_defined;
	e.bad = p_bad;
	e.fill = 0xA5;
	st->seed = seed;
	sigaltstack(&ss, 0);
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = on_segv;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sigaction(SIGSEGV, &sa, 0);
	sigaction(SIGBUS, &sa, 0);
	sigaction(SIGFPE, &sa, 0);
	sigaction(SIGILL, &sa, 0);
	sigaction(SIGABRT, &sa, 0);
	if (!dl_iterate_phdr(find, 0)) {
		fprintf(stderr, "the shared library is not there\n");
		return 2;
	}
	printf("locked %zu\n", locked);
	fflush(stdout);
	/* each of the first cases in a process of its own */
	phase = "in a fresh process";
	for (i = 0; i < fresh && i < n; i++) {
		pid_t p = fork();
		int s;
		if (p == 0) {
			one(&e, seed, from + i, ref[i], 0, -1);
			_exit(0);
		}
		if (p < 0 || waitpid(p, &s, 0) != p)
			return 2;
		if (!WIFEXITED(s) || WEXITSTATUS(s))
			return 3;
	}
	phase = "in a row";
	for (i = fresh; i < n; i++)
		one(&e, seed, from + i, ref[i], 0, -1);
	for (pass = 0; pass < 5; pass++) {
		static const char *const names[] = { "in reverse order", "in random order, outputs filled with zeros", "in random order, stack filled with 0xFF",
			"repeated, stack filled with zeros", "in random order with another locale and environment" };
		phase = names[pass];
		e.fill = pass == 1 ? 0 : pass == 2 ? 0xFF : 0xA5;
		if (pass == 4) {
			setlocale(LC_ALL, "C.UTF-8");
			setenv("LC_ALL", "tr_TR.UTF-8", 1);
			setenv("LANG", "tr_TR.UTF-8", 1);
		}
		r = seed + (uint64_t)pass;
		for (i = 0; i < n; i++) {
			uint64_t x = i;
			if (pass == 0)
				x = n - 1 - i;
			else if (pass != 3) {
				r = r * UINT64_C(6364136223846793005) + 1442695040888963407u;
				x = (r >> 33) % n;
			}
			one(&e, seed, from + x, now, pass == 0, pass == 2 ? 0xFF : pass == 3 ? 0 : -1);
			if (pass == 3)
				one(&e, seed, from + x, now, 0, 0x01);
			for (k = 0; k < F_NUM; k++)
				if (now[k] != ref[x][k]) {
					st->f = k;
					fail("the result differs from the one of another run");
				}
		}
	}
	st->done = 1;
	printf("evals %llu\n", (unsigned long long)evals);
	for (k = 0; k < F_NUM; k++)
		printf("calls %s %llu\n", f_name[k], (unsigned long long)e.calls[k]);
	return 0;
}
