/* Threads run the workload concurrently on shared inputs, under ThreadSanitizer; results are compared with those of
 * one thread alone.
 *   race SEED FROM N THREADS OUT */
#include <fcntl.h>
#include <pthread.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include "work.h"

static struct st { volatile uint64_t seed, idx, len; volatile int32_t f, fam, done, bad; char what[200]; } *st;
static char *arena;
static size_t arena_off;
enum { ARENA = 256 << 20 };
static void *a_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	char *p;
	(void)e;
	arena_off = (arena_off + align - 1) / align * align;
	p = arena + arena_off;
	arena_off += n;
	if (arena_off > ARENA)
		_exit(2);
	memcpy(p, src, n);
	return p;
}
static void *t_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	char *p = malloc(n + 1);
	(void)align;
	(void)e;
	memcpy(p, src, n);
	return p;
}
static void *t_out(struct wenv *e, size_t n, size_t align)
{
	char *p = malloc(n + 1);
	(void)align;
	memset(p, e->fill, n);
	return p;
}
static void t_drop(struct wenv *e, void *p, size_t n)
{
	(void)e;
	(void)n;
	free(p);
}
static void t_defined(struct wenv *e, const void *p, size_t n) { (void)e; (void)p; (void)n; }
static void t_bad(struct wenv *e, const char *w) { (void)e; (void)w; }

static struct wcase *cases;
static uint64_t (*ref)[F_NUM];
static uint64_t n;
static pthread_barrier_t bar;
struct th { int id, nth; struct wenv e; pthread_t t; uint64_t evals; };

static void init(struct wenv *e)
{
	memset(e, 0, sizeof *e);
	e->in = t_in;
	e->out = t_out;
	e->drop = t_drop;
	e->defined = t_defined;
	e->bad = t_bad;
	e->fill = 0xA5;
	e->light = 1;
}
static void *go(void *v)
{
	struct th *t = v;
	uint64_t i, r = (uint64_t)t->id * 7919 + 1;
	int k, round;
	init(&t->e);
	for (round = 0; round < 2; round++) {
		pthread_barrier_wait(&bar);
		for (i = 0; i < n; i++) {
			/* first all threads do the same at the same time, then each goes its own way */
			uint64_t x = i;
			if (round) {
				r = r * UINT64_C(6364136223846793005) + 1442695040888963407u;
				x = (r >> 33) % n;
				if (t->id % 4 == 1)
					x = n - 1 - i;
			}
			w_run(&t->e, &cases[x], ((uint_least32_t)1 << F_NUM) - 1);
			t->evals++;
			for (k = 0; k < F_NUM; k++)
				if (t->e.dig[k] != ref[x][k]) {
					st->idx = cases[x].idx;
					st->f = k;
					snprintf(st->what, sizeof st->what, "the result in a thread differs from the one without threads");
					st->bad = 1;
					_exit(3);
				}
		}
	}
	return 0;
}
int main(int argc, char **argv)
{
	static struct wmem mem;
	struct wenv e;
	struct th *th;
	uint64_t seed, from, i, ev = 0;
	int nth, k, j, fd;
	char name[4096];
	if (argc < 6)
		return 2;
	seed = strtoull(argv[1], 0, 10);
	from = strtoull(argv[2], 0, 10);
	n = strtoull(argv[3], 0, 10);
	nth = atoi(argv[4]);
	snprintf(name, sizeof name, "%s.state", argv[5]);
	fd = open(name, O_RDWR | O_CREAT | O_TRUNC, 0600);
	if (fd < 0 || ftruncate(fd, sizeof *st))
		return 2;
	st = mmap(0, sizeof *st, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	st->seed = seed;
	arena = mmap(0, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	cases = calloc(n, sizeof *cases);
	ref = calloc(n, sizeof *ref);
	init(&e);
	e.in = a_in;
	for (i = 0; i < n; i++) {
		w_make(&mem, seed, from + i, &cases[i]);
		w_hold(&e, &mem, &cases[i]);
	}
	/* the threads share these */
	mprotect(arena, ARENA, PROT_READ);
	init(&e);
	for (i = 0; i < n; i++) {
		w_run(&e, &cases[i], ((uint_least32_t)1 << F_NUM) - 1);
		for (k = 0; k < F_NUM; k++)
			ref[i][k] = e.dig[k];
	}
	pthread_barrier_init(&bar, 0, (unsigned)nth);
	th = calloc((size_t)nth, sizeof *th);
	for (j = 0; j < nth; j++) {
		th[j].id = j;
		th[j].nth = nth;
		if (pthread_create(&th[j].t, 0, go, &th[j]))
			return 2;
	}
	for (j = 0; j < nth; j++) {
		pthread_join(th[j].t, 0);
		ev += th[j].evals;
	}
	st->done = 1;
	printf("threads %d\nevals %llu\n", nth, (unsigned long long)ev);
	for (k = 0; k < F_NUM; k++) {
		unsigned long long s = e.calls[k];
		for (j = 0; j < nth; j++)
			s += th[j].e.calls[k];
		printf("calls %s %llu\n", f_name[k], s);
	}
	return 0;
}
