/* see work.h; uses nothing but the library under test */
#include "work.h"
#include "pools.h"

#define NPOOL (sizeof pools / sizeof *pools)
#define L(x) (sizeof(x) / sizeof *(x))

const char *const f_name[F_NUM] = { "decode_utf8", "encode_utf8", "next_character_break", "next_word_break", "next_sentence_break",
	"next_line_break", "next_character_break_utf8", "next_word_break_utf8", "next_sentence_break_utf8", "next_line_break_utf8",
	"is_character_break", "to_uppercase", "to_lowercase", "to_titlecase", "to_uppercase_utf8", "to_lowercase_utf8", "to_titlecase_utf8",
	"is_uppercase", "is_lowercase", "is_titlecase", "is_uppercase_utf8", "is_lowercase_utf8", "is_titlecase_utf8",
	"bidirectional_preprocess_paragraph", "bidirectional_get_line_embedding_levels", "bidirectional_reorder_line" };

static uint64_t next(uint64_t *s)
{
	uint64_t z = (*s += UINT64_C(0x9E3779B97F4A7C15));
	z = (z ^ (z >> 30)) * UINT64_C(0xBF58476D1CE4E5B9);
	z = (z ^ (z >> 27)) * UINT64_C(0x94D049BB133111EB);
	return z ^ (z >> 31);
}
static uint_least32_t below(uint64_t *s, uint_least32_t n) { return (uint_least32_t)(((next(s) >> 32) * n) >> 32); }

/* ---------------------------------------------------------------- content */

static uint_least32_t wild(uint64_t *r)
{
	static const uint_least32_t edge[] = { 0, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF,
		0x10000, 0x1FFFF, 0x10FF00, 0x10FFFE, 0x10FFFF, 0x110000, 0x1100FF, 0x1FFFFF, 0x200000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE, 0xFFFFFFFF };
	switch (below(r, 4)) {
	case 0: return edge[below(r, L(edge))];
	case 1: return below(r, 0x110000);
	case 2: return 0x10FFF0 + below(r, 0x20);
	default: return (uint_least32_t)next(r);
	}
}
static size_t put8(char *b, uint_least32_t cp)
{
	unsigned char *u = (unsigned char *)b;
	if (cp > 0x10FFFF)
		cp = 0xFFFD;
	if (cp < 0x80) {
		u[0] = (unsigned char)cp;
		return 1;
	} else if (cp < 0x800) {
		u[0] = (unsigned char)(0xC0 | cp >> 6);
		u[1] = (unsigned char)(0x80 | (cp & 0x3F));
		return 2;
	} else if (cp < 0x10000) {
		u[0] = (unsigned char)(0xE0 | cp >> 12);
		u[1] = (unsigned char)(0x80 | (cp >> 6 & 0x3F));
		u[2] = (unsigned char)(0x80 | (cp & 0x3F));
		return 3;
	}
	u[0] = (unsigned char)(0xF0 | cp >> 18);
	u[1] = (unsigned char)(0x80 | (cp >> 12 & 0x3F));
	u[2] = (unsigned char)(0x80 | (cp >> 6 & 0x3F));
	u[3] = (unsigned char)(0x80 | (cp & 0x3F));
	return 4;
}
static void encode(struct wmem *w, struct wcase *c)
{
	size_t i;
	c->m = 0;
	for (i = 0; i < c->n; i++)
		c->m += put8(w->b + c->m, w->cp[i]);
}

void w_make(struct wmem *w, uint64_t seed, uint64_t idx, struct wcase *c)
{
	uint64_t r = seed * 1000003 + idx * UINT64_C(0x51ED2701) + 77, *s = &r;
	size_t i, len, first[7], n_fam, theme[6], nt;
	uint_least32_t q, fam, fixed[6];

	c->seed = seed;
	c->idx = idx;
	next(s);
	q = below(s, 1000);
	len = q < 550 ? below(s, 13) : q < 850 ? 6 + below(s, 50) : q < 985 ? 40 + below(s, 260) : 300 + below(s, 1500);
	/* the kinds of one algorithm, or of all */
	fam = below(s, 7);
	for (i = 0, n_fam = 0, first[0] = 0; i < NPOOL; i++)
		if (fam == 6 || pools[i].fam == fam) {
			if (n_fam == 0)
				first[0] = i;
			n_fam++;
		}
	nt = 1 + below(s, 6);
	for (i = 0; i < nt; i++) {
		theme[i] = first[0] + below(s, (uint_least32_t)n_fam);
		fixed[i] = pools[theme[i]].cp[below(s, 6)];
	}
	q = below(s, 4);
	for (i = 0; i < len;) {
		size_t t = below(s, (uint_least32_t)nt), run = 1;
		uint_least32_t x = below(s, 100);
		if (x < 2)
			run = 1 + below(s, 140);
		else if (x < 10)
			run = 1 + below(s, 4);
		for (; run > 0 && i < len; run--) {
			uint_least32_t v = q == 0 ? pools[first[0] + below(s, (uint_least32_t)n_fam)].cp[below(s, 6)] :
			                   q == 1 ? pools[theme[t]].cp[below(s, 6)] : fixed[t];
			if (below(s, 60) == 0)
				v = wild(s);
			else if (fam == 4 && q != 1 && below(s, 6) == 0)
				v = "()[]"[below(s, q == 2 ? 2 : 4)];
			w->cp[i++] = v;
		}
	}
	c->n = len;
	encode(w, c);
	/* spoil the bytes */
	q = below(s, 3);
	if (q && c->m) {
		size_t k = 1 + below(s, 1 + (uint_least32_t)c->m / 6);
		static const unsigned char bad[] = { 0, 0x7F, 0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xF8, 0xFF };
		for (; k > 0; k--) {
			size_t p = below(s, (uint_least32_t)c->m);
			if (below(s, 4) == 0)
				c->m = p ? p : c->m; /* cut */
			else
				((unsigned char *)w->b)[p] = below(s, 2) ? bad[below(s, L(bad))] : (unsigned char)below(s, 256);
		}
	}
	if (below(s, 3) == 0 && c->m > 1) {
		/* ends within a sequence */
		w->b[c->m - 1] = (char)(unsigned char)(0xC2 + below(s, 0x33));
	}
	c->r = next(s);
	for (c->zn = 0; c->zn < c->n && w->cp[c->zn]; c->zn++)
		;
	for (c->zm = 0; c->zm < c->m && w->b[c->zm]; c->zm++)
		;
	c->cp = w->cp;
	c->b = w->b;
}

/* texts that grow: a prefix, a repeated unit, and for nesting a second unit for the other half */
static const struct {
	uint_least32_t pre[3], unit[5], unit2[5];
} fams[] = {
	{ { 0 }, { 'a' }, { 0 } },
	{ { 0 }, { 'A', ' ' }, { 0 } },
	{ { 'a' }, { 0x300 }, { 0 } },
	{ { 0 }, { 0x300 }, { 0 } },
	{ { 0x1F468 }, { 0x200D, 0x1F469 }, { 0 } },
	{ { 'a' }, { 0x200D }, { 0 } },
	{ { 0 }, { 0x1F1E6 }, { 0 } },
	{ { 0x1100 }, { 0x1160 }, { 0x11A8 } },
	{ { 0 }, { 0x600 }, { 0 } },
	{ { '1' }, { ',', '1' }, { 0 } },
	{ { '1' }, { ',' }, { 0 } },
	{ { 'a' }, { '\'' }, { 0 } },
	{ { 'a' }, { '\'', 0x300 }, { 0 } },
	{ { 'a' }, { 0xAD }, { 'b' } },
	{ { 'a', ':' }, { 0x300 }, { 'b' } },
	{ { 0x5D0, '"' }, { 0x300 }, { 0x5D0 } },
	{ { 0 }, { 0x20 }, { 0 } },
	{ { 'a', '.' }, { ')' }, { 0 } },
	{ { 'a', '.' }, { ' ' }, { 'b' } },
	{ { 'a', '.', ' ' }, { '1', '-' }, { 'b' } },
	{ { 'a', '.', ' ' }, { 0xAD }, { 'B' } },
	{ { 'a', '.' }, { '.', ')' , ' ' }, { 0 } },
	{ { 'a', '.' }, { '1', 0x300, '-' }, { 0 } },
	{ { 0 }, { 'a', '.', ' ' }, { '1', '-' } },
	{ { 0x3A3 }, { '\'' }, { 0x3A3 } },
	{ { 'A' }, { 0x3A3 }, { 0 } },
	{ { 'A', 0x3A3 }, { 0x300 }, { 'A' } },
	{ { 'A' }, { 0x3A3, '\'' }, { 0 } },
	{ { 'A' }, { 0xAD, 0x3A3 }, { 0 } },
	{ { 0 }, { 0xDF }, { 0x390 } },
	{ { 0 }, { '(' }, { ')' } },
	{ { 0x5D0 }, { '(', 'a' }, { ')', 0x5D0 } },
	{ { 0 }, { '(', ')' }, { 0 } },
	{ { 0x5D0 }, { '(', 'a', ')' }, { '[', ']' } },
	{ { 0 }, { '[', '(' }, { ']', ')' } },
	{ { 0x202B }, { '(', 0x300, ')', 0x300 }, { 0 } },
	{ { 0 }, { 0x202A }, { 0x202C } },
	{ { 0 }, { 0x202B, 'a' }, { 0x202C, 'a' } },
	{ { 0 }, { 0x2067 }, { 0x2069 } },
	{ { 0 }, { 0x2067, 'a' }, { 0x2069, 0x5D0 } },
	{ { 0 }, { 0x2068, '1' }, { 0x2069, '.' } },
	{ { 0 }, { 0x2067, 0x2069 }, { 0 } },
	{ { 0 }, { 0x202A, 0x202B }, { 0x202C } },
	{ { 0 }, { 0x202C, 'a', 0x2069 }, { 0 } },
	{ { 0x5D0 }, { '1', '+' }, { 0x661, ',' } },
	{ { 0x627 }, { '$' }, { '1' } },
	{ { 0 }, { 0x5D0, 'a', ' ' }, { 0 } },
	{ { 0 }, { 0x10FFFF, 0x110000, 0xFFFFFFFF, 0xD800 }, { 0 } },
};
typedef char families_ok[L(fams) == FAMILIES ? 1 : -1];

/* families beyond the fixed ones are random */
void w_family(struct wmem *w, int family, size_t n, struct wcase *c)
{
	size_t i = 0, k, j;
	uint_least32_t pre[3] = { 0 }, unit[5] = { 0 }, unit2[5] = { 0 };
	uint64_t r = (uint64_t)family * 7919 + 5, *s = &r;

	if (family < FAMILIES) {
		for (j = 0; j < 3; j++)
			pre[j] = fams[family].pre[j];
		for (j = 0; j < 5; j++) {
			unit[j] = fams[family].unit[j];
			unit2[j] = fams[family].unit2[j];
		}
	} else {
		uint_least32_t fam, len[3];
		size_t p;
		next(s);
		fam = below(s, 6);
		len[0] = below(s, 4);
		len[1] = 1 + below(s, 4);
		len[2] = below(s, 2) ? 1 + below(s, 4) : 0;
		for (k = 0; k < 3; k++)
			for (j = 0; j < len[k]; j++) {
				do
					p = below(s, NPOOL);
				while (pools[p].fam != fam);
				(k == 0 ? pre : k == 1 ? unit : unit2)[j] = pools[p].cp[below(s, 6)] ? pools[p].cp[below(s, 6)] : 'a';
			}
	}
	if (n > MAXCP)
		n = MAXCP;
	for (j = 0; j < 3 && pre[j] && i < n; j++)
		w->cp[i++] = pre[j];
	for (j = 0; i < (unit2[0] ? (n + 1) / 2 : n);) {
		w->cp[i++] = unit[j++];
		if (j == 5 || !unit[j])
			j = 0;
	}
	for (j = 0; i < n;) {
		w->cp[i++] = unit2[j++];
		if (j == 5 || !unit2[j])
			j = 0;
	}
	c->n = c->zn = n;
	c->seed = 0;
	c->idx = (uint64_t)family;
	encode(w, c);
	c->zm = c->m;
	c->r = 1;
	c->cp = w->cp;
	c->b = w->b;
}

void w_hold(struct wenv *e, struct wmem *w, struct wcase *c)
{
	uint_least32_t save = w->cp[c->zn];
	char saveb = w->b[c->zm];
	c->cp = e->in(e, w->cp, c->n * sizeof *w->cp, sizeof *w->cp);
	c->b = e->in(e, w->b, c->m, 1);
	w->cp[c->zn] = 0;
	w->b[c->zm] = 0;
	c->zcp = e->in(e, w->cp, (c->zn + 1) * sizeof *w->cp, sizeof *w->cp);
	c->zb = e->in(e, w->b, c->zm + 1, 1);
	w->cp[c->zn] = save;
	w->b[c->zm] = saveb;
}
void w_release(struct wenv *e, struct wcase *c)
{
	e->drop(e, (void *)c->cp, c->n * sizeof *c->cp);
	e->drop(e, (void *)c->b, c->m);
	e->drop(e, (void *)c->zcp, (c->zn + 1) * sizeof *c->cp);
	e->drop(e, (void *)c->zb, c->zm + 1);
}

/* ---------------------------------------------------------------- calls */

static void fold(struct wenv *e, uint64_t x)
{
	uint64_t d = e->dig[e->f];
	d = (d ^ x) * UINT64_C(0x9FB21C651E98DF25);
	e->dig[e->f] = d ^ (d >> 29);
}
static void count(struct wenv *e) { e->calls[e->f]++; }

typedef size_t (*brk)(const uint_least32_t *, size_t);
typedef size_t (*brk8)(const char *, size_t);
static const brk brks[4] = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break, grapheme_next_line_break };
static const brk8 brks8[4] = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8, grapheme_next_sentence_break_utf8,
	grapheme_next_line_break_utf8 };
typedef size_t (*to)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
typedef size_t (*to8)(const char *, size_t, char *, size_t);
static const to tos[3] = { grapheme_to_uppercase, grapheme_to_lowercase, grapheme_to_titlecase };
static const to8 tos8[3] = { grapheme_to_uppercase_utf8, grapheme_to_lowercase_utf8, grapheme_to_titlecase_utf8 };
typedef bool (*is)(const uint_least32_t *, size_t, size_t *);
typedef bool (*is8)(const char *, size_t, size_t *);
static const is iss[3] = { grapheme_is_uppercase, grapheme_is_lowercase, grapheme_is_titlecase };
static const is8 iss8[3] = { grapheme_is_uppercase_utf8, grapheme_is_lowercase_utf8, grapheme_is_titlecase_utf8 };

static void run_utf8(struct wenv *e, const struct wcase *c, uint64_t r, int dec, int enc)
{
	size_t i, k;
	uint_least32_t cp;
	if (dec) {
		e->f = F_DECODE;
		for (i = 0; i < c->m; i += 1 + (c->m > 40 ? below(&r, (uint_least32_t)c->m / 20) : 0)) {
			cp = e->fill;
			fold(e, grapheme_decode_utf8(c->b + i, c->m - i, &cp));
			e->defined(e, &cp, sizeof cp);
			fold(e, cp);
			count(e);
		}
		fold(e, grapheme_decode_utf8(c->b, c->m, 0));
		fold(e, grapheme_decode_utf8(0, c->m, &cp));
		e->defined(e, &cp, sizeof cp);
		fold(e, cp);
		if (c->m) {
			/* a short exact piece */
			size_t a = below(&r, (uint_least32_t)c->m), l = below(&r, 6);
			char *p;
			if (l > c->m - a)
				l = c->m - a;
			p = e->in(e, c->b + a, l, 1);
			fold(e, grapheme_decode_utf8(p, l, &cp));
			e->defined(e, &cp, sizeof cp);
			fold(e, cp);
			e->drop(e, p, l);
		}
	}
	if (enc) {
		e->f = F_ENCODE;
		for (i = 0; i < c->n && i < 12; i++) {
			size_t cap = below(&r, 7), l;
			char *o = e->out(e, cap, 1);
			count(e);
			l = grapheme_encode_utf8(c->cp[i], o, cap);
			fold(e, l);
			if (l <= cap) {
				e->defined(e, o, l);
				for (k = 0; k < l; k++)
					fold(e, (unsigned char)o[k]);
			}
			e->drop(e, o, cap);
			fold(e, grapheme_encode_utf8(c->cp[i], 0, cap));
		}
	}
}

static void run_break(struct wenv *e, const struct wcase *c, uint64_t r, int k, int utf8)
{
	size_t o, l, steps, len = utf8 ? c->m : c->n;
	int nul;
	e->f = (utf8 ? F_CHAR8 : F_CHAR) + k;
	/* the whole text, step by step; every step of a long text would be too much */
	for (nul = 0; nul < 2; nul++) {
		if (nul)
			len = utf8 ? c->zm : c->zn;
		for (o = 0, steps = 0; o < len && steps < 40; o += l, steps++) {
			l = utf8 ? brks8[k]((nul ? c->zb : c->b) + o, nul ? SIZE_MAX : len - o) :
			           brks[k]((nul ? c->zcp : c->cp) + o, nul ? SIZE_MAX : len - o);
			count(e);
			fold(e, l);
			if (l > len - o) {
				e->bad(e, "the break lies behind the end of the text");
				return;
			}
			if (l == 0)
				break;
		}
	}
	len = utf8 ? c->m : c->n;
	fold(e, utf8 ? brks8[k](0, len) : brks[k](0, len));
	fold(e, utf8 ? brks8[k](c->b, 0) : brks[k](c->cp, 0));
	if (len) {
		size_t a = below(&r, (uint_least32_t)len), es = utf8 ? 1 : sizeof *c->cp;
		void *p;
		l = below(&r, (uint_least32_t)(len - a) + 1);
		p = e->in(e, utf8 ? (const void *)(c->b + a) : (const void *)(c->cp + a), l * es, es);
		fold(e, utf8 ? brks8[k](p, l) : brks[k](p, l));
		count(e);
		e->drop(e, p, l * es);
	}
}

static void run_ischar(struct wenv *e, const struct wcase *c)
{
	size_t i;
	uint_least16_t st = 0;
	e->f = F_ISCHAR;
	for (i = 0; i + 1 < c->n; i++) {
		bool b = grapheme_is_character_break(c->cp[i], c->cp[i + 1], &st);
		e->defined(e, &st, sizeof st);
		fold(e, b);
		fold(e, grapheme_is_character_break(c->cp[i], c->cp[i + 1], 0));
		if (b)
			st = 0;
		count(e);
	}
}

static void conv(struct wenv *e, const void *src, size_t len, int k, int utf8, size_t cap, size_t need)
{
	size_t es = utf8 ? 1 : sizeof(uint_least32_t), i, ret, n;
	void *o = e->out(e, cap * es, es);
	ret = utf8 ? tos8[k](src, len, o, cap) : tos[k](src, len, o, cap);
	count(e);
	fold(e, ret);
	if (ret != need)
		e->bad(e, "the length of a conversion depends on the destination");
	if (cap == 0) {
		e->drop(e, o, 0);
		return;
	}
	if (utf8) {
		/* what is behind the terminator was not promised */
		n = ret < cap ? ret + 1 : cap;
		if (ret >= cap) {
			for (i = 0; i < cap; i++) {
				e->defined(e, (char *)o + i, 1);
				if (((char *)o)[i] == 0)
					break;
			}
			n = i < cap ? i + 1 : cap;
		}
		e->defined(e, o, n);
		for (i = 0; i < n; i++)
			fold(e, ((unsigned char *)o)[i]);
	} else {
		n = ret < cap ? ret + 1 : cap;
		e->defined(e, o, n * es);
		for (i = 0; i < n; i++)
			fold(e, ((uint_least32_t *)o)[i]);
	}
	e->drop(e, o, cap * es);
}
static void run_to(struct wenv *e, const struct wcase *c, uint64_t r, int k, int utf8)
{
	int nul;
	e->f = (utf8 ? F_UP8 : F_UP) + k;
	for (nul = 0; nul < 2; nul++) {
		const void *src = utf8 ? nul ? (const void *)c->zb : c->b : nul ? (const void *)c->zcp : c->cp;
		size_t len = nul ? SIZE_MAX : utf8 ? c->m : c->n;
		size_t need = utf8 ? tos8[k](src, len, 0, 0) : tos[k](src, len, 0, 0);
		fold(e, need);
		count(e);
		if (need > 5 * MAXB) {
			e->bad(e, "the result is longer than any result can be");
			return;
		}
		conv(e, src, len, k, utf8, need + 1, need);
		if (!e->light || nul) {
			conv(e, src, len, k, utf8, need, need);
			conv(e, src, len, k, utf8, below(&r, (uint_least32_t)need + 3), need);
		}
		if (!e->light) {
			conv(e, src, len, k, utf8, need > 1 ? need - 1 : 1, need);
			conv(e, src, len, k, utf8, need > 2 ? need - 2 : 0, need);
			conv(e, src, len, k, utf8, need + 7, need);
			conv(e, src, len, k, utf8, 0, need);
		}
	}
	conv(e, 0, utf8 ? c->m : c->n, k, utf8, 1, 0);
}
static void run_is(struct wenv *e, const struct wcase *c, uint64_t r, int k, int utf8)
{
	int nul;
	(void)r;
	e->f = (utf8 ? F_ISUP8 : F_ISUP) + k;
	for (nul = 0; nul < 2; nul++) {
		const void *src = utf8 ? nul ? (const void *)c->zb : c->b : nul ? (const void *)c->zcp : c->cp;
		size_t len = nul ? SIZE_MAX : utf8 ? c->m : c->n, *cl = e->out(e, sizeof *cl, sizeof *cl);
		bool a = utf8 ? iss8[k](src, len, cl) : iss[k](src, len, cl);
		e->defined(e, cl, sizeof *cl);
		fold(e, a);
		fold(e, *cl);
		fold(e, utf8 ? iss8[k](src, len, 0) : iss[k](src, len, 0));
		count(e);
		/* on what is long enough: this follows another path when it matches */
		if (!e->light) {
			size_t need = utf8 ? tos8[k](src, len, 0, 0) : tos[k](src, len, 0, 0), es = utf8 ? 1 : sizeof(uint_least32_t);
			if (need && need < 5 * MAXB) {
				void *o = e->out(e, (need + 1) * es, es), *p;
				if (utf8)
					tos8[k](src, len, o, need + 1);
				else
					tos[k](src, len, o, need + 1);
				p = e->in(e, o, need * es, es);
				a = utf8 ? iss8[k](p, need, cl) : iss[k](p, need, cl);
				fold(e, a);
				fold(e, *cl);
				a = utf8 ? iss8[k](o, SIZE_MAX, cl) : iss[k](o, SIZE_MAX, cl);
				fold(e, a);
				fold(e, *cl);
				e->drop(e, p, need * es);
				e->drop(e, o, (need + 1) * es);
			}
		}
		e->drop(e, cl, sizeof *cl);
	}
}

static void levels(struct wenv *e, const uint_least32_t *data, size_t len, size_t cap)
{
	int_least8_t *lev;
	size_t i, ret;
	e->f = F_LEV;
	lev = e->out(e, cap, 1);
	ret = grapheme_bidirectional_get_line_embedding_levels(data, len, lev, cap);
	count(e);
	fold(e, ret);
	if (ret > cap)
		ret = cap;
	e->defined(e, lev, ret);
	for (i = 0; i < ret; i++)
		fold(e, (uint64_t)(lev[i] + 200));
	e->drop(e, lev, cap);
}
static void reorder(struct wenv *e, const uint_least32_t *line, const uint_least32_t *data, size_t len, size_t cap)
{
	uint_least32_t *o;
	size_t i, ret;
	e->f = F_REO;
	o = e->out(e, cap * sizeof *o, sizeof *o);
	ret = grapheme_bidirectional_reorder_line(line, data, len, o, cap);
	count(e);
	fold(e, ret);
	if (ret > cap)
		ret = cap;
	e->defined(e, o, ret * sizeof *o);
	for (i = 0; i < ret; i++)
		fold(e, o[i]);
	e->drop(e, o, cap * sizeof *o);
}
static void run_bidi(struct wenv *e, const struct wcase *c, uint64_t r, int lev, int reo)
{
	static const enum grapheme_bidirectional_direction dir[3] = { GRAPHEME_BIDIRECTIONAL_DIRECTION_NEUTRAL,
		GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR, GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL };
	enum grapheme_bidirectional_direction res;
	size_t o, l = 0, i, paras;
	uint_least32_t *d, *x, *t;
	int d0 = (int)below(&r, 3);
	/* paragraph by paragraph */
	for (o = 0, paras = 0; o < c->n && paras < 8; o += l, paras++) {
		int k = (d0 + (int)paras) % 3;
		e->f = F_PRE;
		l = grapheme_bidirectional_preprocess_paragraph(c->cp + o, c->n - o, dir[k], 0, 0, &res);
		e->defined(e, &res, sizeof res);
		fold(e, l);
		fold(e, res);
		count(e);
		if (l > c->n - o || l == 0) {
			e->bad(e, "the paragraph has no sensible length");
			return;
		}
		for (i = 0; i < (e->light ? 1u : 3u); i++) {
			/* exactly large enough, too small, too large */
			size_t cap = i == 0 ? l : i == 1 ? below(&r, (uint_least32_t)l) : l + 1 + below(&r, 5), ret, len, a, z, caplen;
			e->f = F_PRE;
			d = e->out(e, cap * sizeof *d, sizeof *d);
			ret = grapheme_bidirectional_preprocess_paragraph(c->cp + o, c->n - o, dir[k], d, cap, i == 2 ? 0 : &res);
			count(e);
			fold(e, ret);
			len = ret < cap ? ret : cap;
			if (ret != l)
				e->bad(e, "the length of a paragraph depends on the destination");
			else {
				x = e->in(e, d, len * sizeof *d, sizeof *d);
				if (lev) {
					levels(e, x, len, len);
					if (len)
						levels(e, x, len, below(&r, (uint_least32_t)len + 2));
				}
				if (reo) {
					reorder(e, c->cp + o, x, len, len);
					reorder(e, c->cp + o, x, len, below(&r, (uint_least32_t)len + 2));
				}
				e->drop(e, x, len * sizeof *d);
				if (len) {
					/* a slice with buffers of exactly its size */
					a = below(&r, (uint_least32_t)len);
					z = a + 1 + below(&r, (uint_least32_t)(len - a));
					x = e->in(e, d + a, (z - a) * sizeof *d, sizeof *d);
					t = e->in(e, c->cp + o + a, (z - a) * sizeof *d, sizeof *d);
					caplen = z - a + (below(&r, 3) == 0 ? 2 : 0);
					if (lev)
						levels(e, x, z - a, caplen);
					if (reo)
						reorder(e, t, x, z - a, caplen);
					e->drop(e, t, (z - a) * sizeof *d);
					e->drop(e, x, (z - a) * sizeof *d);
				}
			}
			e->drop(e, d, cap * sizeof *d);
		}
	}
	e->f = F_PRE;
	fold(e, grapheme_bidirectional_preprocess_paragraph(c->zcp, SIZE_MAX, dir[d0], 0, 0, 0));
	fold(e, grapheme_bidirectional_preprocess_paragraph(c->cp, 0, dir[d0], 0, 0, 0));
	if (lev)
		levels(e, c->cp, 0, 0);
	if (reo)
		reorder(e, c->cp, c->cp, 0, 0);
}

void w_run(struct wenv *e, const struct wcase *c, uint_least32_t mask)
{
	int k;
#define ON(f) (mask >> (f) & 1)
	for (k = 0; k < F_NUM; k++)
		e->dig[k] = 0;
	if (ON(F_DECODE) || ON(F_ENCODE))
		run_utf8(e, c, c->r, ON(F_DECODE), ON(F_ENCODE));
	for (k = 0; k < 4; k++) {
		if (ON(F_CHAR + k))
			run_break(e, c, c->r + (uint64_t)k, k, 0);
		if (ON(F_CHAR8 + k))
			run_break(e, c, c->r + (uint64_t)k, k, 1);
	}
	if (ON(F_ISCHAR))
		run_ischar(e, c);
	for (k = 0; k < 3; k++) {
		if (ON(F_UP + k))
			run_to(e, c, c->r + 10 + (uint64_t)k, k, 0);
		if (ON(F_UP8 + k))
			run_to(e, c, c->r + 10 + (uint64_t)k, k, 1);
		if (ON(F_ISUP + k))
			run_is(e, c, c->r, k, 0);
		if (ON(F_ISUP8 + k))
			run_is(e, c, c->r, k, 1);
	}
	if (ON(F_PRE))
		run_bidi(e, c, c->r + 20, ON(F_LEV), ON(F_REO));
}
