// G12-G14 and the case parts of G04/G05
#include "gen.hpp"

typedef size_t (*to_fn)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
typedef size_t (*to8_fn)(const char *, size_t, char *, size_t);
typedef bool (*is_fn)(const uint_least32_t *, size_t, size_t *);
typedef bool (*is8_fn)(const char *, size_t, size_t *);
static const to_fn TO[3] = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
static const to8_fn TO8[3] = { grapheme_to_lowercase_utf8, grapheme_to_uppercase_utf8, grapheme_to_titlecase_utf8 };
static const is_fn IS[3] = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
static const is8_fn IS8[3] = { grapheme_is_lowercase_utf8, grapheme_is_uppercase_utf8, grapheme_is_titlecase_utf8 };
static const char *const CN[3] = { "lowercase", "uppercase", "titlecase" };

static Guard gs, gd;
static const cp_t *place(const std::vector<uint32_t> &in)
{
	cp_t *p = (cp_t *)gs.end_aligned(in.size() * 4, 4);
	if (!in.empty())
		memcpy(p, in.data(), in.size() * 4);
	return p;
}
static const char *place8(const std::vector<uint32_t> &in)
{
	uint8_t *p = (uint8_t *)gs.end_aligned(in.size(), 1);
	for (size_t i = 0; i < in.size(); i++)
		p[i] = (uint8_t)in[i];
	return (const char *)p;
}
// complete result through a generous buffer; false if the length is absurd
static bool full(int w, const cp_t *s, size_t n, size_t real, std::vector<cp_t> &out, Verdict &v)
{
	size_t cap = real * 3 + 4;
	cp_t *d = (cp_t *)gd.end_aligned(cap * 4, 4);
	size_t r = TO[w](s, n, d, cap);
	if (r >= cap) {
		v.fail("length", fmt("to_%s of %zu characters returns %zu", CN[w], real, r));
		return false;
	}
	out.assign(d, d + r);
	if (d[r] != 0) {
		v.fail("terminator", fmt("to_%s: no NUL behind the result", CN[w]));
		return false;
	}
	return true;
}
static bool full8(int w, const char *s, size_t n, size_t real, std::vector<uint8_t> &out, Verdict &v)
{
	size_t cap = real * 9 + 12;
	char *d = (char *)gd.end_aligned(cap, 1);
	size_t r = TO8[w](s, n, d, cap);
	if (r >= cap) {
		v.fail("length", fmt("to_%s_utf8 of %zu bytes returns %zu", CN[w], real, r));
		return false;
	}
	out.assign(d, d + r);
	if (d[r] != 0) {
		v.fail("terminator", fmt("to_%s_utf8: no NUL behind the result", CN[w]));
		return false;
	}
	return true;
}

// G12
static void op_case(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	static std::vector<cp_t> e, g;
	static std::vector<size_t> idx;
	const cp_t *s = place(c.in);
	size_t n = c.in.size();
	oracle_case(s, n, w, e, idx);
	v.trivial = e == c.in;
	if (!full(w, s, n, n, g, v))
		return;
	if (g != e)
		v.fail("mapping", fmt("to_%s of [%s] gives [%s], expected [%s]", CN[w], hex(c.in).c_str(), hex(g).c_str(), hex(e).c_str()));
}
static OpReg r_case("case", op_case, false);

// G05: conversion of UTF-8 is the encoded conversion of the decoded text.  p1: NUL-terminated (G04)
static void op_case8(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	bool nulmode = c.p[1];
	static std::vector<cp_t> cps, g;
	static std::vector<size_t> off;
	static std::vector<uint8_t> g8, e8;
	static Guard g2;
	std::vector<uint32_t> in = c.in;
	size_t n = in.size();
	if (nulmode)
		in.push_back(0);
	const char *s = place8(in);
	decode_all((const uint8_t *)s, n, nulmode, cps, off);
	v.trivial = cps.empty();
	cp_t *q = (cp_t *)g2.end_aligned(cps.size() * 4, 4);
	if (!cps.empty())
		memcpy(q, cps.data(), cps.size() * 4);
	if (!full(w, q, cps.size(), cps.size(), g, v))
		return;
	to_utf8(g, e8);
	if (!full8(w, s, nulmode ? SIZE_MAX : n, n, g8, v))
		return;
	if (g8 != e8)
		v.fail("utf8", fmt("to_%s_utf8%s of [%s] gives [%s], the code point variant [%s]", CN[w], nulmode ? " (NUL-terminated)" : "",
		                   hexb((const uint8_t *)s, n).c_str(), hexb(g8.data(), g8.size()).c_str(), hexb(e8.data(), e8.size()).c_str()));
	// checks
	size_t l = 77, l8 = 77;
	bool a = IS[w](q, cps.size(), &l), b = IS8[w](s, nulmode ? SIZE_MAX : n, &l8);
	if (l > cps.size()) {
		v.fail("caselen", fmt("is_%s reports length %zu of %zu", CN[w], l, cps.size()));
		return;
	}
	if (a != b || off[l] != l8)
		v.fail("utf8-check", fmt("is_%s_utf8%s of [%s] gives %d, %zu; the code point variant %d, %zu characters = %zu bytes", CN[w],
		                         nulmode ? " (NUL-terminated)" : "", hexb((const uint8_t *)s, n).c_str(), b, l8, a, l, off[l]));
}
static OpReg r_case8("case-utf8", op_case8, true);

// G04 code points
static void op_casenul(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	std::vector<uint32_t> in = c.in;
	static std::vector<cp_t> a, b;
	static Guard g2;
	for (auto &x : in)
		if (x == 0)
			x = 1;
	size_t n = in.size();
	cp_t *q = (cp_t *)g2.end_aligned(n * 4, 4);
	if (n)
		memcpy(q, in.data(), n * 4);
	in.push_back(0);
	const cp_t *s = place(in);
	v.trivial = n == 0;
	if (!full(w, q, n, n, a, v) || !full(w, s, SIZE_MAX, n, b, v))
		return;
	if (a != b) {
		v.fail("nul", fmt("to_%s of NUL-terminated [%s] gives [%s], with explicit length [%s]", CN[w], hex(c.in).c_str(), hex(b).c_str(), hex(a).c_str()));
		return;
	}
	size_t l1 = 77, l2 = 78;
	bool x = IS[w](q, n, &l1), y = IS[w](s, SIZE_MAX, &l2);
	if (x != y || l1 != l2)
		v.fail("nul-check", fmt("is_%s of NUL-terminated [%s] gives %d, %zu; with explicit length %d, %zu", CN[w], hex(c.in).c_str(), y, l2, x, l1));
}
static OpReg r_casenul("case-nul", op_casenul, false);
// G04: embedded NULs do not end explicit-length text: as with U+0001 in their place.  p1: UTF-8
static void op_caseemb(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	static Guard g2;
	std::vector<uint32_t> in2 = c.in;
	size_t n = in2.size();
	bool any = false;
	for (auto &x : in2) {
		if (x == 0)
			x = 1, any = true;
	}
	for (uint32_t x : c.in)
		if (x == 1)
			return; // keep the two apart
	v.trivial = !any;
	size_t l1 = 77, l2 = 77;
	bool x, y;
	if (c.p[1]) {
		static std::vector<uint8_t> a, b;
		const char *s = place8(c.in);
		uint8_t *q = (uint8_t *)g2.end_aligned(n, 1);
		for (size_t i = 0; i < n; i++)
			q[i] = (uint8_t)in2[i];
		if (!full8(w, s, n, n, a, v) || !full8(w, (char *)q, n, n, b, v))
			return;
		for (auto &z : b)
			if (z == 1)
				z = 0;
		if (a != b) {
			v.fail("embedded-nul", fmt("to_%s_utf8 treats an embedded NUL specially: [%s] gives [%s]", CN[w], hexb((const uint8_t *)s, n).c_str(),
			                           hexb(a.data(), a.size()).c_str()));
			return;
		}
		x = IS8[w](s, n, &l1), y = IS8[w]((char *)q, n, &l2);
	} else {
		static std::vector<cp_t> a, b;
		const cp_t *s = place(c.in);
		cp_t *q = (cp_t *)g2.end_aligned(n * 4, 4);
		if (n)
			memcpy(q, in2.data(), n * 4);
		if (!full(w, s, n, n, a, v) || !full(w, q, n, n, b, v))
			return;
		for (auto &z : b)
			if (z == 1)
				z = 0;
		if (a != b) {
			v.fail("embedded-nul", fmt("to_%s treats an embedded NUL specially: [%s] gives [%s]", CN[w], hex(c.in).c_str(), hex(a).c_str()));
			return;
		}
		x = IS[w](s, n, &l1), y = IS[w](q, n, &l2);
	}
	if (x != y || l1 != l2)
		v.fail("embedded-nul", fmt("is_%s treats an embedded NUL specially: %d, %zu instead of %d, %zu", CN[w], x, l1, y, l2));
}
static OpReg r_caseemb("case-embedded-nul", op_caseemb, false);

// G13: every capacity.  p0 which, p1 UTF-8
static void op_buf(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	bool u8 = c.p[1];
	static std::vector<cp_t> g;
	static std::vector<uint8_t> g8;
	static Guard g2;
	size_t n = c.in.size(), total;
	const cp_t *s = nullptr;
	const char *s8 = nullptr;
	if (u8) {
		s8 = place8(c.in);
		if (!full8(w, s8, n, n, g8, v))
			return;
		total = g8.size();
	} else {
		s = place(c.in);
		if (!full(w, s, n, n, g, v))
			return;
		total = g.size();
	}
	v.trivial = total == 0;
	size_t r = u8 ? TO8[w](s8, n, nullptr, 0) : TO[w](s, n, nullptr, 0);
	size_t r2 = u8 ? TO8[w](s8, n, nullptr, total + 5) : TO[w](s, n, nullptr, total + 5);
	if (r != total || r2 != total) {
		v.fail("null", fmt("to_%s%s with a NULL destination returns %zu/%zu instead of %zu", CN[w], u8 ? "_utf8" : "", r, r2, total));
		return;
	}
	size_t unit = u8 ? 1 : 4;
	static std::vector<size_t> caps;
	caps.clear();
	if (total <= 3000) {
		for (size_t cap = 0; cap <= total + 3; cap++)
			if (cap <= 40 || cap + 8 >= total || cap % 17 == 0)
				caps.push_back(cap);
	} else { // a long result: around the widths an offset might wrongly be kept in
		for (size_t k : { (size_t)0, (size_t)1, (size_t)2, (size_t)255, (size_t)256, (size_t)257, (size_t)32767, (size_t)32768, (size_t)32769,
		                  (size_t)65534, (size_t)65535, (size_t)65536, (size_t)65537, (size_t)65538, total / 2, total / 3 * 2, total - 2, total - 1,
		                  total, total + 1, total + 2 })
			if (k <= total + 3)
				caps.push_back(k);
	}
	for (size_t cap : caps) {
		uint8_t *base = (uint8_t *)g2.end_aligned((cap + 4) * unit, unit);
		memset(base, 0xA5, (cap + 4) * unit);
		uint8_t *d = base + 4 * unit;
		size_t r3 = u8 ? TO8[w](s8, n, (char *)d, cap) : TO[w](s, n, (cp_t *)d, cap);
		if (r3 != total) {
			v.fail("return", fmt("to_%s%s returns %zu with capacity %zu, %zu with a large one", CN[w], u8 ? "_utf8" : "", r3, cap, total));
			return;
		}
		for (size_t i = 0; i < 4 * unit; i++)
			if (base[i] != 0xA5) {
				v.fail("oob", "wrote before the destination");
				return;
			}
		if (cap == 0)
			continue;
		size_t want = total;
		if (want > cap - 1) {
			want = cap - 1;
			if (u8)
				while (want > 0 && (g8[want] & 0xC0) == 0x80)
					want--;
		}
		bool ok;
		if (u8)
			ok = !memcmp(d, g8.data(), want) && d[want] == 0;
		else
			ok = !memcmp(d, g.data(), want * 4) && ((cp_t *)d)[want] == 0;
		if (!ok) {
			v.fail("prefix", fmt("to_%s%s of [%s] with capacity %zu (result needs %zu) is not the longest NUL-terminated prefix: [%s]", CN[w],
			                     u8 ? "_utf8" : "", hex(c.in).c_str(), cap, total, hexb(d, cap * unit).c_str()));
			return;
		}
	}
}
static OpReg r_buf("case-buffer", op_buf, false);
// G13 with a capacity far beyond the need.  p0 which, p1 UTF-8, p2 capacity
static void op_hugebuf(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	bool u8 = c.p[1];
	size_t cap = (size_t)c.p[2], n = c.in.size(), r;
	static std::vector<cp_t> g;
	static std::vector<uint8_t> g8;
	static Huge h;
	if (cap > HUGE_BYTES / 4)
		return;
	if (u8) {
		const char *s = place8(c.in);
		if (!full8(w, s, n, n, g8, v))
			return;
		char *d = (char *)h.get(g8.size() + 64);
		if (!d)
			return;
		r = TO8[w](s, n, d, cap);
		size_t r2 = TO8[w](s, n, nullptr, cap);
		if (r2 == r)
			r2 = TO8[w](s, n, nullptr, SIZE_MAX);
		if (r != g8.size() || r2 != r || memcmp(d, g8.data(), r) || d[r])
			v.fail("capacity", fmt("to_%s_utf8 of %zu bytes with capacity %zu returns %zu (%zu with NULL) instead of %zu or writes something else", CN[w],
			                       n, cap, r, r2, g8.size()));
	} else {
		const cp_t *s = place(c.in);
		if (!full(w, s, n, n, g, v))
			return;
		cp_t *d = (cp_t *)h.get((g.size() + 16) * 4);
		if (!d)
			return;
		r = TO[w](s, n, d, cap);
		size_t r2 = TO[w](s, n, nullptr, cap);
		if (r2 == r)
			r2 = TO[w](s, n, nullptr, SIZE_MAX);
		if (r != g.size() || r2 != r || memcmp(d, g.data(), r * 4) || d[r])
			v.fail("capacity", fmt("to_%s of %zu characters with capacity %zu returns %zu (%zu with NULL) instead of %zu or writes something else", CN[w],
			                       n, cap, r, r2, g.size()));
	}
}
static OpReg r_hugebuf("case-huge-buffer", op_hugebuf, false);

// G14.  p0 which, p1 UTF-8
static void op_check(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	size_t n = c.in.size();
	static std::vector<cp_t> g, src;
	static std::vector<size_t> off;
	size_t l = 12345, lcp = 0, want, real = n;
	bool x, y, fix;
	if (c.p[1]) {
		static std::vector<uint8_t> g8;
		static std::vector<size_t> o2;
		const char *s = place8(c.in);
		decode_all((const uint8_t *)s, n, false, src, off);
		if (!full8(w, s, n, n, g8, v))
			return;
		decode_all(g8.data(), g8.size(), false, g, o2);
		x = IS8[w](s, n, &l);
		y = IS8[w](s, n, nullptr);
		(void)real;
	} else {
		const cp_t *s = place(c.in);
		src = c.in;
		off.resize(n + 1);
		for (size_t i = 0; i <= n; i++)
			off[i] = i;
		if (!full(w, s, n, n, g, v))
			return;
		x = IS[w](s, n, &l);
		y = IS[w](s, n, nullptr);
	}
	v.trivial = src.empty();
	while (lcp < src.size() && lcp < g.size() && src[lcp] == g[lcp])
		lcp++;
	fix = src == g;
	want = off[fix ? src.size() : lcp];
	if (x != fix) {
		v.fail("verdict", fmt("is_%s%s of [%s] is %d but the conversion gives [%s]", CN[w], c.p[1] ? "_utf8" : "", hex(src).c_str(), x, hex(g).c_str()));
		return;
	}
	if (y != x) {
		v.fail("null-len", fmt("is_%s%s of [%s] depends on the length pointer", CN[w], c.p[1] ? "_utf8" : "", hex(src).c_str()));
		return;
	}
	if (l != want)
		v.fail("caselen", fmt("is_%s%s of [%s] reports length %zu instead of %zu", CN[w], c.p[1] ? "_utf8" : "", hex(src).c_str(), l, want));
}
static OpReg r_check("case-check", op_check, false);

// ------------------------------------------------------------------ workloads
static void random_case_text(Ctx &ctx, std::vector<cp_t> &s, size_t maxlen)
{
	Rng &r = ctx.rng;
	uint32_t q = r.below(10);
	if (q < 4) {
		random_string(K_case, r, maxlen, s);
	} else if (q < 5) {
		random_string(K_seg[1], r, maxlen, s);
	} else {
		// words around sigmas and ignorable characters
		static const cp_t pool[] = { 0x3A3, 0x3A3, 0x3A3, 0x3C3, 0x3C2, 'A', 'a', 'B', 'z', 0x391, 0x3B1, '\'', '.', ':', 0x2019, 0xAD, 0x301, 0x308, '1',
			' ', ' ', '-', 0x2B0, 0x345, 0x1C5, 0x1C4, 0xDF, 0x149, 0x130, 0x131, 0xFB01, 0x1F80, 0x1FB7, 0x1E9E, 0x5D0, 0x30A2, '_', 0x200D,
			0x10400, 0x10428, 0x24B6, 0x1F130, 0x10D0, 0x1C90, 0x13A0, 0xAB70, 0x1F3FB, '^', 0xA8, '"', ',', 0x0A };
		size_t n = 1 + r.below(r.chance(1, 10) ? (uint32_t)maxlen : 14), theme = r.chance(1, 2) ? 0 : 3 + r.below(8);
		cp_t th[12];
		for (auto &x : th)
			x = pool[r.below(sizeof pool / sizeof *pool)];
		s.clear();
		while (s.size() < n)
			s.push_back(theme ? th[r.below((uint32_t)theme)] : pool[r.below(sizeof pool / sizeof *pool)]);
	}
}
// texts with runs around 2^8 and 2^16 elements
static void long_case_text(Ctx &ctx, std::vector<cp_t> &s)
{
	Rng &r = ctx.rng;
	static const cp_t pool[] = { 0x3A3, 'A', 'a', 0x1C5, 0xDF, '\'', 0xAD, 0x301, ' ', '1', 0x2B0, 0x10400, 0xFB03, '_', 0x149 };
	if (r.chance(1, 3)) {
		long_string(K_case, r, s);
	} else if (r.chance(1, 2)) {
		long_string(r, [&] { return pool[r.below(sizeof pool / sizeof *pool)]; }, [](cp_t c) { return c; }, s);
	} else { // a sigma within or behind a long stretch of characters the condition has to look across
		static const cp_t ign[] = { '\'', 0xAD, 0x301, '.', ':', 0x2019, 0x308, 0xB7, 0x5F4, 0xE0001, 0x1F3FB };
		static const cp_t ctxs[] = { 'A', 'a', ' ', '1', 0x5D0, 0x2B0, 0x3A3, 0x30A2, '-' };
		auto ctxc = [&] { return ctxs[r.below(sizeof ctxs / sizeof *ctxs)]; };
		auto run = [&](bool big) {
			cp_t a = ign[r.below(sizeof ign / sizeof *ign)], b = ign[r.below(sizeof ign / sizeof *ign)];
			for (size_t k = edge_count(r, big); k > 0; k--)
				s.push_back(k & 1 ? a : b);
		};
		s.clear();
		for (uint32_t k = r.below(3); k > 0; k--)
			s.push_back(ctxc());
		if (r.chance(1, 2))
			run(r.chance(1, 3));
		s.push_back(0x3A3);
		if (r.chance(2, 3))
			run(r.chance(1, 3));
		for (uint32_t k = r.below(3); k > 0; k--)
			s.push_back(ctxc());
	}
}
static void long_cases(Ctx &ctx, const char *op, bool with8, uint64_t n)
{
	Case c;
	c.op = op_id(op);
	std::vector<cp_t> t;
	std::vector<uint8_t> b;
	for (uint64_t i = 0; i < n; i++) {
		if (!ctx.mine(i))
			continue;
		long_case_text(ctx, t);
		c.p[0] = ctx.rng.below(3);
		c.p[1] = with8 && ctx.rng.chance(1, 2);
		if (c.p[1]) {
			to_utf8(t, b);
			c.in.assign(b.begin(), b.end());
		} else {
			c.in = t;
		}
		ctx.run(c);
		ctx.count("long texts (runs around 2^8 or 2^16)");
	}
}
static void gen_case_common(Ctx &ctx, const char *op, bool with8, uint64_t n, size_t maxlen)
{
	Case c;
	c.op = op_id(op);
	for (uint64_t i = 0; i < n / ctx.nworkers; i++) {
		c.p[0] = ctx.rng.below(3);
		c.p[1] = with8 && ctx.rng.chance(1, 2);
		if (c.p[1]) {
			if (ctx.rng.chance(1, 2)) {
				random_bytes(ctx.rng, maxlen, c.in, &K_case);
			} else {
				std::vector<cp_t> t;
				std::vector<uint8_t> b;
				random_case_text(ctx, t, maxlen);
				to_utf8(t, b);
				c.in.assign(b.begin(), b.end());
			}
		} else {
			random_case_text(ctx, c.in, maxlen);
		}
		ctx.run(c);
	}
}
static const std::vector<cp_t> SIG = { 0x3A3, 'A', 'b', '\'', 0x301, '1', ' ', 0x2B0, '.' };
// long repetitions between characters whose conversion depends on each other (a sigma and the letters around it, the
// first letter of a word and what the word begins or goes on with)
template <class F> static void far_cases(Ctx &ctx, int per, size_t pairs, F f)
{
	std::vector<cp_t> a = SIG;
	a.insert(a.end(), { 'a', 0x1C5, 0xDF, 0xAD, 0x30AB, 0x5D0, '_' });
	std::vector<cp_t> o;
	std::vector<size_t> idx;
	for (int w = 0; w < 3; w += 2) {
		auto eval = [&](const std::vector<cp_t> &s, std::vector<uint8_t> &sig) {
			oracle_case(s.data(), s.size(), w, o, idx);
			sig.assign(s.size(), 0);
			for (size_t i = 0; i < o.size(); i++)
				sig[idx[i]] = (uint8_t)(sig[idx[i]] * 31 + o[i] + (o[i] >> 8) + 1);
		};
		auto len = [&](const std::vector<cp_t> &) { return log_length(ctx.rng, 6, ctx.rng.chance(1, 8) ? 16 : 13); };
		auto use = [&](const std::vector<cp_t> &s) { f(w, s); };
		gen_distance(ctx, a, ctx.thorough ? 150 : 40, per, pairs, per, eval, len, use);
		gen_distance_pairs(ctx, a, per, (size_t)0, eval, len, use);
	}
}
static void gen_g12(Ctx &ctx)
{
	Case c;
	c.op = op_id("case");
	for (int w = 0; w < 3; w++) {
		c.p[0] = w;
		// every code point alone and in context
		for (cp_t x = 0; x < NCP + 0x100; x++) {
			if (!ctx.mine(x))
				continue;
			c.in = { x };
			ctx.run(c);
			c.in = { 'a', x, 'B' };
			ctx.run(c);
			if (ctx.thorough || x < 0x3000 || (U.is_cased(x) || U.is_ign(x))) {
				c.in = { 'A', 0x3A3, x };
				ctx.run(c);
				c.in = { 'A', 0x3A3, x, 'B' };
				ctx.run(c);
				c.in = { 'A', x, 0x3A3 };
				ctx.run(c);
				c.in = { x, 0x3A3 };
				ctx.run(c);
				c.in = { x, 0x3A3, x, 0x3A3, x };
				ctx.run(c);
			}
		}
		for (int d = 1; d <= (ctx.thorough ? 7 : 6); d++)
			enumerate(ctx, SIG, d, c.in, [&] { ctx.run(c); });
		// one representative of each combination of case properties and word break class
		std::vector<cp_t> a = reps(K_case);
		for (int d = 2; d <= (ctx.thorough ? 3 : 2); d++)
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
	}
	gen_case_common(ctx, "case", false, ctx.thorough ? 12000000 : 600000, 500);
	long_cases(ctx, "case", false, ctx.thorough ? 20000 : 800);
	far_cases(ctx, ctx.thorough ? 400 : 80, ctx.thorough ? 3000 : 300, [&](int w, const std::vector<cp_t> &s) {
		c.p[0] = w;
		c.in = s;
		ctx.run(c);
	});
}
static PropReg p12("G12", gen_g12,
                   "code point strings for the three conversions: every code point alone and in contexts, all strings over a sigma alphabet up to a depth, all "
                   "pairs of case/word property combinations, random words, long repetitions between characters whose conversion depends on each other; the output is compared with the model; non-trivial: the conversion changes the "
                   "text", { R_CASE, R_CASE_SPECIAL, R_FINAL_SIGMA, R_NONFINAL_SIGMA, R_TITLE });

static void gen_g13(Ctx &ctx)
{
	gen_case_common(ctx, "case-buffer", true, ctx.thorough ? 3000000 : 160000, 60);
	long_cases(ctx, "case-buffer", true, ctx.thorough ? 3000 : 160);
	Case c;
	c.op = op_id("case-huge-buffer");
	for (uint64_t i = 0; i < (ctx.thorough ? 40000u : 4000u) / ctx.nworkers; i++) {
		c.p[0] = ctx.rng.below(3);
		c.p[1] = ctx.rng.chance(1, 2);
		c.p[2] = (int64_t)huge_count(ctx.rng);
		random_case_text(ctx, c.in, 60);
		if (c.p[1]) {
			std::vector<uint8_t> b;
			to_utf8(c.in, b);
			c.in.assign(b.begin(), b.end());
		}
		ctx.run(c);
		ctx.count("capacities around 2^16, 2^31, 2^32 and 2^33");
	}
	c = Case();
	c.op = op_id("case-buffer");
	std::vector<cp_t> a = { 'a', 0xDF, 0xE9, 0x20AC, 0xFB03, 0x10400, 0x1F600 };
	for (int w = 0; w < 3; w++)
		for (int u = 0; u < 2; u++) {
			c.p[0] = w;
			c.p[1] = u;
			std::vector<cp_t> s;
			if (ctx.worker == 0) {
				c.in.clear();
				ctx.run(c);
			}
			for (int d = 1; d <= (ctx.thorough ? 6 : 5); d++)
				enumerate(ctx, a, d, s, [&] {
					if (u) {
						std::vector<uint8_t> b;
						to_utf8(s, b);
						c.in.assign(b.begin(), b.end());
					} else {
						c.in = s;
					}
					ctx.run(c);
				});
			// every code point whose mapping changes length
			for (cp_t x = 0; x < NCP; x++) {
				if (!ctx.mine(x))
					continue;
				if (!U.map_of(0, x) && !U.map_of(1, x) && !U.map_of(2, x))
					continue;
				s = { x, x };
				if (u) {
					std::vector<uint8_t> b;
					to_utf8(s, b);
					c.in.assign(b.begin(), b.end());
				} else {
					c.in = s;
				}
				ctx.run(c);
			}
		}
}
static PropReg p13("G13", gen_g13,
                   "text x conversion x UTF-8/code points; each case is converted into NULL and into every capacity from 0 to three more than needed, with "
                   "canaries before and a guard page behind the destination; non-trivial: the result is not empty", {});
static void gen_g14(Ctx &ctx)
{
	gen_case_common(ctx, "case-check", true, ctx.thorough ? 20000000 : 1200000, 300);
	long_cases(ctx, "case-check", true, ctx.thorough ? 10000 : 400);
	Case c;
	c.op = op_id("case-check");
	for (int w = 0; w < 3; w++) {
		c.p[0] = w;
		c.p[1] = 0;
		if (ctx.worker == 0) {
			c.in.clear();
			ctx.run(c);
		}
		for (cp_t x = 0; x < NCP + 0x100; x++) {
			if (!ctx.mine(x))
				continue;
			c.in = { x };
			ctx.run(c);
			c.in = { 'A', x, 'a' };
			ctx.run(c);
			c.in = { '1', x };
			ctx.run(c);
			auto *m = U.map_of(w, x);
			if (m) { // the mapping of a character, whole and cut, is the interesting fixpoint
				c.in = *m;
				ctx.run(c);
				c.in.pop_back();
				ctx.run(c);
				c.in.push_back(x);
				ctx.run(c);
			}
		}
		for (int u = 0; u < 2; u++) {
			c.p[1] = u;
			std::vector<cp_t> s;
			std::vector<cp_t> a = { 'a', 'A', ' ', '1', '\'', 0x1C5, 0x3A3, 0xDF, 0x301 };
			for (int d = 1; d <= (ctx.thorough ? 6 : 5); d++)
				enumerate(ctx, a, d, s, [&] {
					if (u) {
						std::vector<uint8_t> b;
						to_utf8(s, b);
						c.in.assign(b.begin(), b.end());
					} else {
						c.in = s;
					}
					ctx.run(c);
				});
		}
	}
	// texts that already are in the case asked for
	c = Case();
	c.op = op_id("case-check");
	Verdict dummy;
	std::vector<cp_t> t, o;
	uint64_t nfix = (ctx.thorough ? 4000000u : 300000u) / ctx.nworkers, nlong = (ctx.thorough ? 8000u : 320u) / ctx.nworkers;
	for (uint64_t i = 0; i < nfix + nlong; i++) {
		int w = ctx.rng.below(3);
		if (i < nfix) {
			random_case_text(ctx, t, 80);
		} else {
			long_case_text(ctx, t);
			ctx.count("long texts (runs around 2^8 or 2^16)");
		}
		std::vector<size_t> idx;
		oracle_case(t.data(), t.size(), w, o, idx);
		c.p[0] = w;
		c.p[1] = ctx.rng.chance(1, 2);
		if (ctx.rng.chance(1, 3) && !o.empty())
			o[ctx.rng.below((uint32_t)o.size())] = t[ctx.rng.below((uint32_t)t.size())];
		if (c.p[1]) {
			std::vector<uint8_t> b;
			to_utf8(o, b);
			c.in.assign(b.begin(), b.end());
		} else {
			c.in = o;
		}
		ctx.run(c);
	}
	far_cases(ctx, ctx.thorough ? 100 : 20, ctx.thorough ? 500 : 60, [&](int w, const std::vector<cp_t> &s) {
		std::vector<size_t> idx;
		c.p[0] = w;
		c.p[1] = ctx.rng.chance(1, 2);
		oracle_case(s.data(), s.size(), w, o, idx);
		if (ctx.rng.chance(1, 4))
			o = s;
		if (c.p[1]) {
			std::vector<uint8_t> b;
			to_utf8(o, b);
			c.in.assign(b.begin(), b.end());
		} else {
			c.in = o;
		}
		ctx.run(c);
	});
}
static PropReg p14("G14", gen_g14,
                   "text x check x UTF-8/code points (random texts, their conversions, every code point in contexts, enumerated short strings, long repetitions between dependent characters); verdict and "
                   "length are compared with what the library's own conversion of the same text does; non-trivial: not empty", {});

static void gen_g05(Ctx &ctx)
{
	Case c;
	uint64_t n = (ctx.thorough ? 12000000 : 500000) / ctx.nworkers;
	for (uint64_t i = 0; i < n; i++) {
		if (ctx.rng.chance(1, 2)) {
			c.op = op_id("case-utf8");
			c.p[0] = ctx.rng.below(3);
			c.p[1] = 0;
			random_bytes(ctx.rng, 300, c.in, &K_case);
		} else {
			c.op = op_id("segmentation-utf8");
			c.p[0] = ctx.rng.below(4);
			c.p[1] = 0;
			random_bytes(ctx.rng, 300, c.in, &K_seg[c.p[0]]);
		}
		ctx.run(c);
	}
	// clean text of the structured generators, and the same with its last bytes cut off
	std::vector<cp_t> s;
	std::vector<uint8_t> b;
	for (uint64_t i = 0; i < n / 2; i++) {
		bool cs = ctx.rng.chance(1, 2);
		c.op = op_id(cs ? "case-utf8" : "segmentation-utf8");
		c.p[0] = ctx.rng.below(cs ? 3 : 4);
		if (cs)
			random_case_text(ctx, s, 300);
		else
			random_string(K_seg[c.p[0]], ctx.rng, 400, s, 2);
		to_utf8(s, b);
		if (ctx.rng.chance(1, 2))
			for (uint32_t k = ctx.rng.below(4); k > 0 && !b.empty(); k--)
				b.pop_back();
		c.in.assign(b.begin(), b.end());
		ctx.run(c);
	}
	// long ones, some damaged
	for (uint64_t i = 0; i < (ctx.thorough ? 6000u : 320u); i++) {
		if (!ctx.mine(i))
			continue;
		bool cs = ctx.rng.chance(1, 2);
		c = Case();
		c.op = op_id(cs ? "case-utf8" : "segmentation-utf8");
		c.p[0] = ctx.rng.below(cs ? 3 : 4);
		if (cs)
			long_case_text(ctx, s);
		else
			long_string(K_seg[c.p[0]], ctx.rng, s);
		to_utf8(s, b);
		for (uint32_t k = ctx.rng.below(5); k > 0 && !b.empty(); k--)
			b[ctx.rng.below((uint32_t)b.size())] = (uint8_t)ctx.rng.below(256);
		c.in.assign(b.begin(), b.end());
		ctx.run(c);
		ctx.count("long texts (runs around 2^8 or 2^16)");
	}
	// all short strings over decoder-relevant bytes
	std::vector<uint32_t> bytes = { 0x00, 0x0A, 0x41, 0x61, 0x80, 0xBF, 0xC3, 0xCE, 0xE0, 0xED, 0xF0, 0xF5 };
	for (int d = 1; d <= (ctx.thorough ? 5 : 4); d++)
		enumerate(ctx, bytes, d, c.in, [&] {
			for (int w = 0; w < 3; w++) {
				c.op = op_id("case-utf8");
				c.p[0] = w;
				ctx.run(c);
			}
			for (int w = 0; w < 4; w++) {
				c.op = op_id("segmentation-utf8");
				c.p[0] = w;
				ctx.run(c);
			}
		});
}
static PropReg p5("G05", gen_g05,
                  "byte strings x the four segmentations, three conversions and three checks; expected values come from the code point variant on the "
                  "decoded text; non-trivial: at least one (conversions) or two (segmentation) characters", {});

static void gen_g04(Ctx &ctx)
{
	Case c;
	uint64_t n = (ctx.thorough ? 12000000 : 600000) / ctx.nworkers;
	for (uint64_t i = 0; i < n; i++) {
		c = Case();
		switch (ctx.rng.below(8)) {
		case 0:
			c.op = op_id("case-nul");
			c.p[0] = ctx.rng.below(3);
			random_case_text(ctx, c.in, 200);
			break;
		case 1:
			c.op = op_id("case-utf8");
			c.p[0] = ctx.rng.below(3);
			c.p[1] = 1;
			random_bytes(ctx.rng, 200, c.in, &K_case, false);
			break;
		case 2:
			c.op = op_id("segmentation-nul");
			c.p[0] = ctx.rng.below(4);
			random_string(K_seg[c.p[0]], ctx.rng, 300, c.in);
			break;
		case 3:
			c.op = op_id("segmentation-utf8");
			c.p[0] = ctx.rng.below(4);
			c.p[1] = 1;
			random_bytes(ctx.rng, 200, c.in, &K_seg[c.p[0]], false);
			break;
		case 4:
			c.op = op_id("segmentation-embedded-nul");
			c.p[0] = ctx.rng.below(4);
			c.p[1] = ctx.rng.chance(1, 2);
			if (c.p[1])
				random_bytes(ctx.rng, 100, c.in, &K_seg[c.p[0]]);
			else
				random_string(K_seg[c.p[0]], ctx.rng, 100, c.in);
			for (uint32_t k = 1 + ctx.rng.below(3); k > 0 && !c.in.empty(); k--)
				c.in[ctx.rng.below((uint32_t)c.in.size())] = 0;
			break;
		case 5:
			c.op = op_id("case-embedded-nul");
			c.p[0] = ctx.rng.below(3);
			c.p[1] = ctx.rng.chance(1, 2);
			if (c.p[1])
				random_bytes(ctx.rng, 100, c.in, &K_case);
			else
				random_case_text(ctx, c.in, 100);
			for (uint32_t k = 1 + ctx.rng.below(3); k > 0 && !c.in.empty(); k--)
				c.in[ctx.rng.below((uint32_t)c.in.size())] = 0;
			break;
		default:
			c.op = op_id("bidi-nul");
			c.p[0] = ctx.rng.below(3);
			c.p[1] = ctx.rng.chance(1, 3);
			random_string(K_bidi, ctx.rng, 120, c.in);
			break;
		}
		ctx.run(c);
	}
	// long ones
	std::vector<cp_t> t;
	std::vector<uint8_t> b;
	for (uint64_t i = 0; i < (ctx.thorough ? 6000u : 320u); i++) {
		if (!ctx.mine(i))
			continue;
		static const char *const OPS[] = { "case-nul", "case-utf8", "segmentation-nul", "segmentation-utf8", "case-embedded-nul",
			"segmentation-embedded-nul" };
		uint32_t q = ctx.rng.below(6);
		bool cs = q < 2 || q == 4, u8 = q == 1 || q == 3 || (q > 3 && ctx.rng.chance(1, 2));
		c = Case();
		c.op = op_id(OPS[q]);
		c.p[0] = ctx.rng.below(cs ? 3 : 4);
		c.p[1] = u8;
		if (cs)
			long_case_text(ctx, t);
		else
			long_string(K_seg[c.p[0]], ctx.rng, t);
		if (u8) {
			to_utf8(t, b);
			c.in.assign(b.begin(), b.end());
		} else {
			c.in = t;
		}
		if (q > 3)
			for (uint32_t k = 1 + ctx.rng.below(3); k > 0 && !c.in.empty(); k--)
				c.in[ctx.rng.below((uint32_t)c.in.size())] = 0;
		else
			for (auto &x : c.in)
				if (x == 0)
					x = 1;
		ctx.run(c);
		ctx.count("long texts (runs around 2^8 or 2^16)");
	}
	// short strings exhaustively, NUL right behind
	std::vector<uint32_t> bytes = { 0x0A, 0x41, 0x61, 0x80, 0xBF, 0xC3, 0xCE, 0xE0, 0xED, 0xF0, 0xF5 };
	c = Case();
	c.p[1] = 1;
	for (int d = 1; d <= (ctx.thorough ? 5 : 4); d++)
		enumerate(ctx, bytes, d, c.in, [&] {
			for (int w = 0; w < 3; w++) {
				c.op = op_id("case-utf8");
				c.p[0] = w;
				ctx.run(c);
			}
			for (int w = 0; w < 4; w++) {
				c.op = op_id("segmentation-utf8");
				c.p[0] = w;
				ctx.run(c);
			}
		});
}
static PropReg p4("G04", gen_g04,
                  "NUL-terminated text flush with an inaccessible page against explicit lengths, and explicit-length text with embedded NULs against the same "
                  "text with U+0001, for every function taking a source length; non-trivial: the text is not empty (and contains a NUL, for embedded ones)", {});
