/* Runs a range of the workload with exact heap buffers; the results' digests go to a file.
 *   drv run SEED FROM TO STEP OUT [light]    all cases FROM, FROM+STEP, ... below TO
 *   drv fam FROM TO STEP OUT LEN             growing texts of the given length
 *   drv show SEED IDX | drv showfam F LEN    print a case
 * The last line of OUT.state names the case and function that was running. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
#include "work.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#include <sanitizer/msan_interface.h>
#define MSAN 1
#endif
#endif

static struct wmem mem;
static struct { volatile uint64_t seed, idx, len; volatile int32_t f, fam, done, bad; char what[200]; } *st;
static struct wenv *cur;

static void *m_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	char *p = n ? malloc(n) : (char *)malloc(8) + 8;
	(void)align;
	(void)e;
	if (n)
		memcpy(p, src, n);
	return p;
}
static void *m_out(struct wenv *e, size_t n, size_t align)
{
	char *p = n ? malloc(n) : (char *)malloc(8) + 8;
	(void)align;
	(void)e;
#ifndef MSAN
	if (n)
		memset(p, e->fill, n);
#endif
	return p;
}
static void m_drop(struct wenv *e, void *p, size_t n)
{
	(void)e;
	free(n ? p : (char *)p - 8);
}
static void m_defined(struct wenv *e, const void *p, size_t n)
{
	(void)e;
#ifdef MSAN
	if (n)
		__msan_check_mem_is_initialized(p, n);
#else
	(void)p;
	(void)n;
#endif
}
static void m_bad(struct wenv *e, const char *what)
{
	(void)e;
	if (!st->bad)
		snprintf(st->what, sizeof st->what, "%s", what);
	st->bad = 1;
}

/* covered edges of the library, when it is built with inline counters */
static unsigned char *cov0[64], *cov1[64];
static int ncov;
void __sanitizer_cov_8bit_counters_init(unsigned char *a, unsigned char *b)
{
	int i;
	for (i = 0; i < ncov; i++)
		if (cov0[i] == a)
			return;
	if (a != b && ncov < 64) {
		cov0[ncov] = a;
		cov1[ncov++] = b;
	}
}
void __sanitizer_cov_pcs_init(const uintptr_t *a, const uintptr_t *b) { (void)a; (void)b; }

static void show(struct wcase *c)
{
	size_t i;
	printf("code points (%zu):", c->n);
	for (i = 0; i < c->n; i++)
		printf(" %04lX", (unsigned long)c->cp[i]);
	printf("\nbytes (%zu):", c->m);
	for (i = 0; i < c->m; i++)
		printf(" %02X", (unsigned char)c->b[i]);
	printf("\n");
}

int main(int argc, char **argv)
{
	struct wenv e;
	struct wcase c;
	uint64_t from, to, step, i, seed = 0, len = 0;
	int fam, k;
	char name[4096];
	FILE *out;
	if (argc >= 4 && !strcmp(argv[1], "show")) {
		w_make(&mem, strtoull(argv[2], 0, 10), strtoull(argv[3], 0, 10), &c);
		show(&c);
		return 0;
	}
	if (argc >= 4 && !strcmp(argv[1], "showfam")) {
		w_family(&mem, atoi(argv[2]), strtoull(argv[3], 0, 10), &c);
		show(&c);
		return 0;
	}
	if (argc < 7)
		return 2;
	fam = !strcmp(argv[1], "fam");
	k = 2;
	if (!fam)
		seed = strtoull(argv[k++], 0, 10);
	from = strtoull(argv[k++], 0, 10);
	to = strtoull(argv[k++], 0, 10);
	step = strtoull(argv[k++], 0, 10);
	out = fopen(argv[k], "wb");
	snprintf(name, sizeof name, "%s.state", argv[k++]);
	if (fam)
		len = strtoull(argv[k++], 0, 10);
	{
		int fd = open(name, O_RDWR | O_CREAT | O_TRUNC, 0600);
		if (!out || fd < 0 || ftruncate(fd, sizeof *st))
			return 2;
		st = mmap(0, sizeof *st, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
		if (st == MAP_FAILED)
			return 2;
	}
	memset(&e, 0, sizeof e);
	cur = &e;
	e.in = m_in;
	e.out = m_out;
	e.drop = m_drop;
	e.defined = m_defined;
	e.bad = m_bad;
	e.fill = 0xA5;
	if (k < argc) {
		e.light = argv[k][0] == 'l';
		if (strlen(argv[k]) > 1)
			e.fill = (unsigned char)strtoul(argv[k] + 1, 0, 16);
	}
	st->seed = seed;
	st->fam = fam;
	st->len = len;
	for (i = from; i < to; i += step) {
		uint_least32_t f;
		st->idx = i;
		if (fam)
			w_family(&mem, (int)i, len, &c);
		else
			w_make(&mem, seed, i, &c);
		w_hold(&e, &mem, &c);
		for (f = 0; f < F_NUM; f++) {
			/* one function at a time, so that a report is attributed; the bidi ones go together */
			uint32_t d[3];
			uint_least32_t mask = f == F_PRE ? (7u << F_PRE) : 1u << f;
			int j;
			if (f > F_PRE)
				break;
			if (fam && len > 6000 && (f == F_SENT || f == F_SENT8 || (f == F_PRE && (i >= FAMILIES || QUADRATIC >> i & 1)))) {
				/* takes time that grows with the square of the length, which is allowed */
				memset(d, 0, sizeof d);
				fwrite(d, 4, f == F_PRE ? 3 : 1, out);
				continue;
			}
			st->f = (int32_t)f;
			e.f = (int)f;
			w_run(&e, &c, mask);
			for (j = 0; j < (f == F_PRE ? 3 : 1); j++)
				d[j] = (uint32_t)(e.dig[f + (uint_least32_t)j] ^ e.dig[f + (uint_least32_t)j] >> 32);
			fwrite(d, 4, f == F_PRE ? 3 : 1, out);
			if (st->bad)
				return 3;
		}
		w_release(&e, &c);
	}
	st->done = 1;
	fclose(out);
	for (k = 0; k < F_NUM; k++)
		printf("calls %s %llu\n", f_name[k], (unsigned long long)e.calls[k]);
	if (ncov) {
		printf("edges ");
		for (k = 0; k < ncov; k++) {
			unsigned char *p;
			for (p = cov0[k]; p < cov1[k]; p++)
				putchar(*p ? '1' : '0');
		}
		printf("\n");
	}
	return 0;
}
