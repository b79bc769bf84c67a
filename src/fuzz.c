/* Coverage-guided variant of the workload: the input's first bytes choose the function and how the rest becomes
 * text (kinds of one family, raw bytes or raw code points). */
#include <stdlib.h>
#include <string.h>
#include "work.h"
#include "pools.h"

static struct wmem mem;
static void *m_in(struct wenv *e, const void *src, size_t n, size_t align)
{
	char *p = n ? malloc(n) : (char *)malloc(8) + 8;
	(void)align;
	(void)e;
	if (n)
		memcpy(p, src, n);
	return p;
}
static void *m_out(struct wenv *e, size_t n, size_t align)
{
	(void)align;
	(void)e;
	return n ? malloc(n) : (char *)malloc(8) + 8;
}
static void m_drop(struct wenv *e, void *p, size_t n)
{
	(void)e;
	free(n ? p : (char *)p - 8);
}
static void m_defined(struct wenv *e, const void *p, size_t n) { (void)e; (void)p; (void)n; }
static void m_bad(struct wenv *e, const char *what) { (void)e; (void)what; }

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
	struct wenv e;
	struct wcase c;
	size_t i, np[7] = { 0 }, first[7] = { 0 }, f, fam;
	uint_least32_t mask;
	if (n < 4 || n > 400)
		return 0;
	for (i = 0; i < sizeof pools / sizeof *pools; i++) {
		if (!np[pools[i].fam])
			first[pools[i].fam] = i;
		np[pools[i].fam]++;
	}
	memset(&e, 0, sizeof e);
	memset(&c, 0, sizeof c);
	f = d[0] % F_NUM;
	mask = f >= F_PRE ? 7u << F_PRE : 1u << f;
	fam = d[1] % 8;
	e.light = d[2] & 1;
	c.r = d[2] * 77u + d[3];
	d += 4;
	n -= 4;
	if (fam == 7) {
		memcpy(mem.b, d, n);
		c.m = n;
		for (i = 0; i + 3 < n; i += 4)
			mem.cp[c.n++] = (uint_least32_t)d[i] << 24 | (uint_least32_t)d[i + 1] << 16 | (uint_least32_t)d[i + 2] << 8 | d[i + 3];
	} else {
		size_t m = 0;
		for (i = 0; i < n; i++) {
			uint_least32_t cp = fam == 6 ? d[i] : pools[first[fam] + d[i] % np[fam]].cp[d[i] / np[fam] % 6];
			int l;
			mem.cp[c.n++] = cp;
			l = cp < 0x80 ? 1 : cp < 0x800 ? 2 : cp < 0x10000 ? 3 : 4;
			if (l == 1)
				mem.b[m++] = (char)cp;
			else {
				int k;
				mem.b[m] = (char)((l == 2 ? 0xC0 : l == 3 ? 0xE0 : 0xF0) | (cp >> (6 * (l - 1)) & 0x3F));
				for (k = 1; k < l; k++)
					mem.b[m + (size_t)k] = (char)(0x80 | (cp >> (6 * (l - 1 - k)) & 0x3F));
				m += (size_t)l;
			}
		}
		c.m = m;
	}
	for (c.zn = 0; c.zn < c.n && mem.cp[c.zn]; c.zn++)
		;
	for (c.zm = 0; c.zm < c.m && mem.b[c.zm]; c.zm++)
		;
	e.in = m_in;
	e.out = m_out;
	e.drop = m_drop;
	e.defined = m_defined;
	e.bad = m_bad;
	w_hold(&e, &mem, &c);
	w_run(&e, &c, mask);
	w_release(&e, &c);
	return 0;
}
