/* Counts the control-flow edges the library executes per call (built with -fsanitize-coverage=trace-pc-guard).
 *   cost FROM TO STEP LEN...      lines "family length function edges result"
 *   cost rand SEED FROM TO STEP   the general workload, only looking for calls that do not return */
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "work.h"

static uint64_t edges, limit;
static const char *running = "";
static int r_fam;
static size_t r_len;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b)
{
	for (; a < b; a++)
		*a = 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g)
{
	(void)g;
	if (++edges > limit) {
		/* far beyond everything that is allowed: maybe it never returns */
		printf("%d %zu %s %llu -1\nover\n", r_fam, r_len, running, (unsigned long long)edges);
		fflush(stdout);
		_exit(0);
	}
}

/* what the library leaves to the C library counts as well (linked with --wrap) */
void *__real_memcpy(void *, const void *, size_t);
void *__real_memmove(void *, const void *, size_t);
void *__real_memset(void *, int, size_t);
int __real_memcmp(const void *, const void *, size_t);
void *__real_memchr(const void *, int, size_t);
size_t __real_strlen(const char *);
size_t __real_strnlen(const char *, size_t);
void *__wrap_memcpy(void *d, const void *s, size_t n) { edges += n / 16; return __real_memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { edges += n / 16; return __real_memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { edges += n / 16; return __real_memset(d, c, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { edges += n / 16; return __real_memcmp(a, b, n); }
void *__wrap_memchr(const void *s, int c, size_t n)
{
	void *r = __real_memchr(s, c, n);
	edges += (r ? (size_t)((char *)r - (const char *)s) : n) / 16;
	return r;
}
size_t __wrap_strlen(const char *s)
{
	size_t n = __real_strlen(s);
	edges += n / 16;
	return n;
}
size_t __wrap_strnlen(const char *s, size_t m)
{
	size_t n = __real_strnlen(s, m);
	edges += n / 16;
	return n;
}

static struct wmem mem;
static uint_least32_t data[MAXCP], lout[5 * MAXCP];
static int_least8_t lev[MAXCP];
static char bout[5 * MAXB];

static void begin(const char *f, uint64_t lim)
{
	running = f;
	edges = 0;
	limit = lim;
}
static void end(uint64_t ret)
{
	uint64_t n = edges;
	limit = UINT64_MAX;
	printf("%d %zu %s %llu %llu\n", r_fam, r_len, running, (unsigned long long)n, (unsigned long long)ret);
}
static void *m_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	char *p = malloc(n + 1);
	(void)e;
	(void)align;
	memcpy(p, src, n);
	return p;
}
static void *m_out(struct wenv *e, size_t n, size_t align)
{
	(void)e;
	(void)align;
	return calloc(n + 1, 1);
}
static void m_drop(struct wenv *e, void *p, size_t n)
{
	(void)e;
	(void)n;
	free(p);
}
static void m_defined(struct wenv *e, const void *p, size_t n) { (void)e; (void)p; (void)n; }
static void m_bad(struct wenv *e, const char *w) { (void)e; (void)w; }

typedef size_t (*brkfn)(const uint_least32_t *, size_t);
typedef size_t (*brkfn8)(const char *, size_t);
int main(int argc, char **argv)
{
	static const brkfn b[4] = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break };
	static const brkfn8 b8[4] = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8,
		grapheme_next_line_break_utf8 };
	static const char *const bn[4] = { "next_character_break", "next_word_break", "next_sentence_break", "next_line_break" };
	static const char *const bn8[4] = { "next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8" };
	static const char *const wn[4] = { "walk-character", "walk-word", "walk-sentence", "walk-line" };
	int fam, k, d, a, z;
	if (argc >= 6 && !strcmp(argv[1], "rand")) {
		struct wenv e;
		struct wcase c;
		uint64_t i, worst[F_NUM] = { 0 }, seed = strtoull(argv[2], 0, 10);
		memset(&e, 0, sizeof e);
		e.in = m_in;
		e.out = m_out;
		e.drop = m_drop;
		e.defined = m_defined;
		e.bad = m_bad;
		e.light = 1;
		limit = UINT64_MAX;
		for (i = strtoull(argv[3], 0, 10); i < strtoull(argv[4], 0, 10); i += strtoull(argv[5], 0, 10)) {
			w_make(&mem, seed, i, &c);
			w_hold(&e, &mem, &c);
			for (k = 0; k <= F_PRE; k++) {
				r_fam = (int)i;
				r_len = c.n;
				begin(f_name[k], 50000000 + (uint64_t)4000 * (c.n + c.m) * (c.n + c.m));
				w_run(&e, &c, k == F_PRE ? 7u << F_PRE : 1u << k);
				if (edges > worst[k])
					worst[k] = edges;
			}
			limit = UINT64_MAX;
			w_release(&e, &c);
		}
		for (k = 0; k <= F_PRE; k++)
			printf("worst %s %llu\n", f_name[k], (unsigned long long)worst[k]);
		printf("done\n");
		return 0;
	}
	if (argc < 5)
		return 2;
	for (fam = atoi(argv[1]); fam < atoi(argv[2]); fam += atoi(argv[3]))
		for (a = 4; a < argc; a++) {
			struct wcase c;
			size_t n, r, o, i, m;
			uint64_t cap;
			w_family(&mem, fam, strtoull(argv[a], 0, 10), &c);
			n = c.n;
			m = c.m;
			mem.cp[n] = 0;
			mem.b[m] = 0;
			r_fam = fam;
			r_len = n;
			cap = 20000000 + 200ull * n * n; /* no call may get near this */
			{
				uint64_t maxd = 0, maxe = 0;
				for (i = 0; i < m && i < 64; i++) {
					uint_least32_t cp;
					begin("decode_utf8", cap);
					grapheme_decode_utf8(mem.b + i, m - i, &cp);
					maxd = edges > maxd ? edges : maxd;
				}
				edges = maxd;
				end(0);
				for (i = 0; i < n && i < 64; i++) {
					char t[4];
					begin("encode_utf8", cap);
					grapheme_encode_utf8(mem.cp[i], t, 4);
					maxe = edges > maxe ? edges : maxe;
				}
				edges = maxe;
				end(0);
			}
			/* with explicit lengths, and NUL-terminated */
			for (z = 0; z < 2; z++) {
				for (k = 0; k < 4; k++) {
					begin(bn[k], cap);
					r = b[k](mem.cp, z ? SIZE_MAX : n);
					end(r);
					begin(bn8[k], cap);
					r = b8[k](mem.b, z ? SIZE_MAX : m);
					end(r);
					begin(wn[k], cap);
					for (o = 0; o < n; o += r)
						if ((r = b[k](mem.cp + o, z ? SIZE_MAX : n - o)) == 0)
							break;
					end(o);
					begin(wn[k], cap);
					for (o = 0; o < m; o += r)
						if ((r = b8[k](mem.b + o, z ? SIZE_MAX : m - o)) == 0)
							break;
					end(o);
				}
				/* characters and lines do not look beyond their end: the same first segment, followed by
				 * little and by much */
				for (k = 0; k < 8 && n >= 100; k += k % 4 ? 1 : 3) {
					uint64_t few, many;
					const char *f = k % 4 ? "local-line" : "local-character";
					size_t cut = 40, e;
					if (k < 4) {
						uint_least32_t was = mem.cp[cut], wase = mem.cp[e = cut + 12];
						mem.cp[cut] = 0x0A;
						begin(f, cap);
						r = b[k](mem.cp, z ? SIZE_MAX : n);
						many = edges;
						if (z)
							mem.cp[e] = 0;
						edges = 0;
						o = b[k](mem.cp, z ? SIZE_MAX : e);
						few = edges;
						mem.cp[cut] = was;
						mem.cp[e] = wase;
					} else {
						char was, wase;
						while (cut + 14 < m && (mem.b[cut] & 0xC0) == 0x80)
							cut++;
						was = mem.b[cut];
						wase = mem.b[e = cut + 12];
						mem.b[cut] = 0x0A;
						begin(f, cap);
						r = b8[k - 4](mem.b, z ? SIZE_MAX : m);
						many = edges;
						if (z)
							mem.b[e] = 0;
						edges = 0;
						o = b8[k - 4](mem.b, z ? SIZE_MAX : e);
						few = edges;
						mem.b[cut] = was;
						mem.b[e] = wase;
					}
					if (r != o)
						end(99999999);
					else {
						edges = many > few ? many - few : 0;
						end(0);
					}
				}
			}
#define DO(f, call) begin(f, cap); r = (size_t)(call); end(r)
			for (z = 0; z < 2; z++) {
				DO("to_uppercase", grapheme_to_uppercase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP));
				DO("to_lowercase", grapheme_to_lowercase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP));
				DO("to_titlecase", grapheme_to_titlecase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP));
				DO("to_uppercase_utf8", grapheme_to_uppercase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout));
				DO("to_lowercase_utf8", grapheme_to_lowercase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout));
				DO("to_titlecase_utf8", grapheme_to_titlecase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout));
				/* checks go on as long as the text is in that case, so give them what fits */
				o = grapheme_to_uppercase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP);
				DO("is_uppercase", (grapheme_is_uppercase(lout, z ? SIZE_MAX : o, &i), i));
				o = grapheme_to_lowercase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP);
				DO("is_lowercase", (grapheme_is_lowercase(lout, z ? SIZE_MAX : o, &i), i));
				o = grapheme_to_titlecase(mem.cp, z ? SIZE_MAX : n, lout, 5 * MAXCP);
				DO("is_titlecase", (grapheme_is_titlecase(lout, z ? SIZE_MAX : o, &i), i));
				o = grapheme_to_uppercase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout);
				DO("is_uppercase_utf8", (grapheme_is_uppercase_utf8(bout, z ? SIZE_MAX : o, &i), i));
				o = grapheme_to_lowercase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout);
				DO("is_lowercase_utf8", (grapheme_is_lowercase_utf8(bout, z ? SIZE_MAX : o, &i), i));
				o = grapheme_to_titlecase_utf8(mem.b, z ? SIZE_MAX : m, bout, sizeof bout);
				DO("is_titlecase_utf8", (grapheme_is_titlecase_utf8(bout, z ? SIZE_MAX : o, &i), i));
			}
			for (d = 0; d < 3; d++) {
				static const char *const pn[3] = { "preprocess-neutral", "preprocess-ltr", "preprocess-rtl" };
				enum grapheme_bidirectional_direction res;
				DO(pn[d], grapheme_bidirectional_preprocess_paragraph(mem.cp, d == 1 ? SIZE_MAX : n,
					d == 0 ? GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL : d == 1 ? GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR : GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL,
					data, n, &res));
				o = r;
				DO("get_line_embedding_levels", grapheme_bidirectional_get_line_embedding_levels(data, o, lev, o));
				DO("reorder_line", grapheme_bidirectional_reorder_line(mem.cp, data, o, lout, o));
			}
		}
	printf("done\n");
	return 0;
}
