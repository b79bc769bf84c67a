/* A deterministic workload over the whole public interface, in plain C without libc, shared by the drivers that
 * watch for sanitizer reports, races, system calls, and differences between builds. */
#ifndef WORK_H
#define WORK_H
#include "grapheme.h"

enum {
	F_DECODE, F_ENCODE, F_CHAR, F_WORD, F_SENT, F_LINE, F_CHAR8, F_WORD8, F_SENT8, F_LINE8, F_ISCHAR,
	F_UP, F_LOW, F_TITLE, F_UP8, F_LOW8, F_TITLE8, F_ISUP, F_ISLOW, F_ISTITLE, F_ISUP8, F_ISLOW8, F_ISTITLE8,
	F_PRE, F_LEV, F_REO, F_NUM
};
extern const char *const f_name[F_NUM];

#ifndef W_MAXCP
#define W_MAXCP 6000
#endif
enum { MAXCP = W_MAXCP, MAXB = 4 * MAXCP };
struct wcase {
	uint64_t seed, idx;
	uint64_t r;                /* state of the parameter generator */
	size_t n, m, zn, zm;       /* lengths; zn, zm: up to the first NUL, which is included in the copies */
	const uint_least32_t *cp, *zcp;
	const char *b, *zb;
};
/* memory as the driver wants it; the workload itself only keeps fixed storage in struct wmem */
struct wenv {
	void *(*in)(struct wenv *, const void *src, size_t bytes, size_t align); /* exact copy of an input */
	void *(*out)(struct wenv *, size_t bytes, size_t align);                 /* exact output buffer */
	void (*drop)(struct wenv *, void *, size_t bytes);                       /* of either kind */
	void (*defined)(struct wenv *, const void *, size_t bytes);              /* the library claims to have set this */
	void (*bad)(struct wenv *, const char *what);                            /* the workload noticed a wrong return value */
	uint64_t dig[F_NUM];                                                     /* results of the current case */
	uint64_t calls[F_NUM];
	int f;                                                                   /* function being called */
	unsigned char fill;                                                      /* pattern outputs start with */
	int light;                                                               /* fewer capacities and offsets */
};
struct wmem {
	uint_least32_t cp[MAXCP + 1];
	char b[MAXB + 8];
};
/* content of case idx; false if there is no such case */
void w_make(struct wmem *, uint64_t seed, uint64_t idx, struct wcase *);
void w_family(struct wmem *, int family, size_t n, struct wcase *);
enum { FAMILIES = 48 };
/* the growing texts with many numbers or neutrals that are not settled by their neighbours */
#define BIT(x) ((uint64_t)1 << (x))
#define QUADRATIC (BIT(9) | BIT(11) | BIT(12) | BIT(17) | BIT(19) | BIT(21) | BIT(22) | BIT(23) | BIT(33) | BIT(40) | BIT(44) | BIT(45))
/* let the driver hold the inputs */
void w_hold(struct wenv *, struct wmem *, struct wcase *);
void w_release(struct wenv *, struct wcase *);
/* call everything selected by mask, digests of the results in env->dig */
void w_run(struct wenv *, const struct wcase *, uint_least32_t mask);
#endif
