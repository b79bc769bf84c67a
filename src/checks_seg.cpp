// G06-G11: segmentation
#include "gen.hpp"

typedef size_t (*next_fn)(const uint_least32_t *, size_t);
typedef size_t (*next8_fn)(const char *, size_t);
static const next_fn NEXT[4] = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break,
	grapheme_next_line_break };
static const next8_fn NEXT8[4] = { grapheme_next_character_break_utf8, grapheme_next_word_break_utf8,
	grapheme_next_sentence_break_utf8, grapheme_next_line_break_utf8 };
static const char *const SEGNAME[4] = { "character", "word", "sentence", "line" };
static const Rule DEFRULE[4] = { R_GB999, R_WB999, R_SB998, R_LB31 };

static Guard gsrc;
static const cp_t *place(const std::vector<uint32_t> &in)
{
	cp_t *p = (cp_t *)gsrc.end_aligned(in.size() * 4, 4);
	if (!in.empty())
		memcpy(p, in.data(), in.size() * 4);
	return p;
}
static const char *place8(const std::vector<uint32_t> &in)
{
	uint8_t *p = (uint8_t *)gsrc.end_aligned(in.size(), 1);
	for (size_t i = 0; i < in.size(); i++)
		p[i] = (uint8_t)in[i];
	return (const char *)p;
}

// walk with the library; false and a message if an offset is impossible
static bool walk(int w, const cp_t *s, size_t n, Bounds &b, Verdict &v)
{
	b.assign(n + 1, 0);
	b[0] = 1;
	for (size_t o = 0; o < n;) {
		size_t r = NEXT[w](s + o, n - o);
		if (r == 0 || r > n - o) {
			v.fail("offset", fmt("next_%s_break at %zu of %zu returned %zu", SEGNAME[w], o, n, r));
			return false;
		}
		o += r;
		b[o] = 1;
	}
	return true;
}

static void op_seg(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	static Bounds e, g;
	size_t n = c.in.size();
	const cp_t *s = place(c.in);
	uint64_t before = rule_hits[DEFRULE[w]];
	oracle_seg[w](s, n, e);
	v.trivial = n < 2 || rule_hits[DEFRULE[w]] - before == n - 1;
	if (!walk(w, s, n, g, v))
		return;
	for (size_t i = 1; i < n; i++)
		if (g[i] != e[i]) {
			v.fail("boundary", fmt("%s boundaries: at %zu the library has %s, the rules say %s; text %s", SEGNAME[w], i,
			                       g[i] ? "a break" : "no break", e[i] ? "break" : "no break", hex(c.in).c_str()));
			return;
		}
}
static OpReg r_seg("segmentation", op_seg, false);

// one official-style line: expected boundaries given in p? (not used; the official files are run by G06-G09 via op_seg)

// G10 for code points
static void op_part(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	static Bounds g;
	size_t n = c.in.size();
	const cp_t *s = place(c.in);
	v.trivial = n < 2;
	if (NEXT[w](nullptr, 0) != 0 || NEXT[w](s, 0) != 0) {
		v.fail("empty", fmt("next_%s_break of nothing is not 0", SEGNAME[w]));
		return;
	}
	if (!walk(w, s, n, g, v))
		return;
	for (size_t i = 1; i < n; i++)
		if (g[i] && s[i - 1] == 0x0D && s[i] == 0x0A) {
			v.fail("crlf", fmt("%s segmentation separates CR and LF at %zu: %s", SEGNAME[w], i, hex(c.in).c_str()));
			return;
		}
	// a segment given alone is one segment
	for (size_t a = 0; a < n;) {
		size_t e = a + 1;
		while (!g[e])
			e++;
		if (e - a > 1 && e < n) {
			static Guard gsub;
			uint32_t *t = (uint32_t *)gsub.end_aligned((e - a) * 4, 4);
			memcpy(t, c.in.data() + a, (e - a) * 4);
			size_t r = NEXT[w](t, e - a);
			if (r != e - a) {
				v.fail("self-contained", fmt("the %s segment [%zu,%zu) alone is cut at %zu: %s", SEGNAME[w], a, e, r, hex(c.in).c_str()));
				return;
			}
		}
		a = e;
	}
}
static OpReg r_part("partition", op_part, false);

// G10 for UTF-8
static void op_part8(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	size_t n = c.in.size();
	const char *s = place8(c.in);
	static std::vector<cp_t> cps;
	static std::vector<size_t> off;
	decode_all((const uint8_t *)s, n, false, cps, off);
	v.trivial = cps.size() < 2;
	std::vector<uint8_t> is_off(n + 1, 0);
	for (size_t o : off)
		is_off[o] = 1;
	size_t end = off.back();
	if (NEXT8[w](nullptr, 0) != 0 || NEXT8[w](s, 0) != 0) {
		v.fail("empty", fmt("next_%s_break_utf8 of nothing is not 0", SEGNAME[w]));
		return;
	}
	std::vector<size_t> cuts;
	for (size_t o = 0;;) {
		size_t r = NEXT8[w](s + o, n - o);
		if (o == end) {
			if (r != 0)
				v.fail("incomplete", fmt("next_%s_break_utf8 on %zu bytes of an incomplete sequence returned %zu", SEGNAME[w], n - o, r));
			break;
		}
		if (r == 0 || r > n - o) {
			v.fail("offset", fmt("next_%s_break_utf8 at %zu of %zu returned %zu", SEGNAME[w], o, n, r));
			return;
		}
		o += r;
		if (!is_off[o]) {
			v.fail("inside-char", fmt("next_%s_break_utf8 cuts inside a character at %zu: %s", SEGNAME[w], o,
			                          hexb((const uint8_t *)s, n).c_str()));
			return;
		}
		if (o > 0 && o < n && s[o - 1] == 0x0D && s[o] == 0x0A) {
			v.fail("crlf", fmt("%s segmentation separates CR and LF at byte %zu", SEGNAME[w], o));
			return;
		}
	}
}
static OpReg r_part8("partition-utf8", op_part8, true);

// a text that ends in a paragraph separator, at the start of a far larger area of declared length p2: the same
// boundaries as for the text alone.  p1: UTF-8.  p3: compare with the model (else with the library on the text alone)
static void op_declared(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	size_t L = (size_t)c.p[2];
	static Huge h;
	static std::vector<cp_t> t;
	static std::vector<uint8_t> b;
	static std::vector<size_t> off;
	static Bounds e;
	t = c.in;
	t.push_back(0x2029);
	size_t n = t.size(), bytes;
	off.clear();
	if (c.p[1]) {
		to_utf8(t, b);
		uint8_t enc[4];
		size_t o = 0;
		for (cp_t &x : t) {
			off.push_back(o);
			o += oracle_encode(x, enc);
			if (x > 0x10FFFF || (x >= 0xD800 && x <= 0xDFFF))
				x = 0xFFFD;
		}
		off.push_back(o);
		bytes = o;
	} else {
		for (size_t i = 0; i <= n; i++)
			off.push_back(i);
		bytes = n * 4;
	}
	if (L < off[n] + 8 || L > HUGE_BYTES / 4)
		return;
	if (U.gcb[0x2029] != G_CN || U.wb[0x2029] != W_NL || U.sb[0x2029] != S_Sep || U.lb[0x2029] != L_BK)
		return; // varied data: it may be anything
	v.trivial = n < 2;
	if (c.p[3]) {
		oracle_seg[w](t.data(), n, e);
	} else {
		const cp_t *s = place(t);
		if (!walk(w, s, n, e, v))
			return;
	}
	uint8_t *m = (uint8_t *)h.get(bytes);
	if (!m)
		return;
	memcpy(m, c.p[1] ? (const void *)b.data() : (const void *)t.data(), bytes);
	for (size_t i = 0; i < n;) {
		size_t j = i + 1;
		while (j < n && !e[j])
			j++;
		size_t r = c.p[1] ? NEXT8[w]((char *)m + off[i], L - off[i]) : NEXT[w]((cp_t *)m + i, L - i);
		if (r != off[j] - off[i]) {
			v.fail(c.p[3] ? "boundary" : "offset", fmt("next_%s_break%s at %zu of a text of declared length %zu returns %zu instead of %zu: %s", SEGNAME[w],
			                                           c.p[1] ? "_utf8" : "", off[i], L, r, off[j] - off[i], hex(t).c_str()));
			return;
		}
		i = j;
	}
}
static OpReg r_decl("declared-length", op_declared, false);
static void gen_declared(Ctx &ctx, int w, bool model, uint64_t n)
{
	Case c;
	c.op = op_id("declared-length");
	for (uint64_t i = 0; i < n; i++) {
		if (!ctx.mine(i))
			continue;
		c.p[0] = w;
		c.p[1] = ctx.rng.chance(1, 2);
		c.p[2] = (int64_t)huge_count(ctx.rng);
		c.p[3] = model;
		do
			random_string(K_seg[w], ctx.rng, 60, c.in);
		while (c.in.size() > 60);
		c.p[2] += ctx.rng.chance(1, 2) ? 0 : (int64_t)c.in.size(); // the remaining length passes the width within the text
		ctx.run(c);
		ctx.count("declared lengths around 2^16, 2^31, 2^32 and 2^33");
	}
}

// G05 for segmentation: UTF-8 boundaries are those of the decoded code points.  p1: NUL-terminated
static void op_seg8(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	bool nulmode = c.p[1];
	static std::vector<cp_t> cps;
	static std::vector<size_t> off;
	static Guard g2;
	std::vector<uint32_t> in = c.in;
	if (nulmode)
		in.push_back(0);
	const char *s = place8(in);
	size_t n = c.in.size();
	decode_all((const uint8_t *)s, n, nulmode, cps, off);
	cp_t *q = (cp_t *)g2.end_aligned(cps.size() * 4, 4);
	if (!cps.empty())
		memcpy(q, cps.data(), cps.size() * 4);
	v.trivial = cps.size() < 2;
	size_t m = cps.size();
	for (size_t i = 0; i < m;) {
		size_t e = NEXT[w](q + i, m - i);
		size_t g = NEXT8[w](s + off[i], nulmode ? SIZE_MAX : n - off[i]);
		if (e == 0 || e > m - i) {
			v.fail("offset", fmt("next_%s_break returned %zu of %zu", SEGNAME[w], e, m - i));
			return;
		}
		if (g != off[i + e] - off[i]) {
			v.fail("utf8", fmt("next_%s_break_utf8 at byte %zu%s returned %zu, the code point variant %zu characters = %zu bytes; bytes %s", SEGNAME[w],
			                   off[i], nulmode ? " (NUL-terminated)" : "", g, e, off[i + e] - off[i], hexb((const uint8_t *)s, n).c_str()));
			return;
		}
		i += e;
	}
}
static OpReg r_seg8("segmentation-utf8", op_seg8, true);

// G04 for code point segmentation
static void op_segnul(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	std::vector<uint32_t> in = c.in;
	static Guard g2;
	size_t n = in.size();
	for (auto &x : in)
		if (x == 0)
			x = 1;
	cp_t *q = (cp_t *)g2.end_aligned(n * 4, 4);
	if (n)
		memcpy(q, in.data(), n * 4);
	in.push_back(0);
	const cp_t *s = place(in);
	v.trivial = n < 1;
	for (size_t o = 0; o < n;) {
		size_t e = NEXT[w](q + o, n - o), g = NEXT[w](s + o, SIZE_MAX);
		if (e != g) {
			v.fail("nul", fmt("next_%s_break at %zu: NUL-terminated %zu, explicit length %zu; text %s", SEGNAME[w], o, g, e, hex(c.in).c_str()));
			return;
		}
		if (e == 0 || e > n - o) {
			v.fail("offset", fmt("next_%s_break returned %zu", SEGNAME[w], e));
			return;
		}
		o += e;
	}
	if (NEXT[w](s + n, SIZE_MAX) != 0)
		v.fail("nul-empty", fmt("next_%s_break of an empty NUL-terminated text is not 0", SEGNAME[w]));
}
static OpReg r_segnul("segmentation-nul", op_segnul, false);

// G04: an embedded NUL in explicit-length text is an ordinary character: same boundaries as with U+0001,
// which has the same properties.  p1: UTF-8
static void op_segemb(const Case &c, Verdict &v)
{
	int w = (int)c.p[0];
	static Guard g2;
	std::vector<uint32_t> in2 = c.in;
	size_t n = in2.size();
	bool any = false;
	for (auto &x : in2)
		if (x == 0)
			x = 1, any = true;
	v.trivial = !any;
	if (U.gcb[0] != U.gcb[1] || U.wb[0] != U.wb[1] || U.sb[0] != U.sb[1] || U.lb[0] != U.lb[1])
		return;
	if (c.p[1]) {
		const char *s = place8(c.in);
		uint8_t *q = (uint8_t *)g2.end_aligned(n, 1);
		for (size_t i = 0; i < n; i++)
			q[i] = (uint8_t)in2[i];
		for (size_t o = 0; o < n;) {
			size_t a = NEXT8[w](s + o, n - o), b = NEXT8[w]((char *)q + o, n - o);
			if (a != b) {
				v.fail("embedded-nul", fmt("next_%s_break_utf8 at %zu returns %zu with an embedded NUL and %zu with U+0001 instead: %s",
				                           SEGNAME[w], o, a, b, hexb((const uint8_t *)s, n).c_str()));
				return;
			}
			if (a == 0 || a > n - o)
				break;
			o += a;
		}
	} else {
		const cp_t *s = place(c.in);
		cp_t *q = (cp_t *)g2.end_aligned(n * 4, 4);
		if (n)
			memcpy(q, in2.data(), n * 4);
		for (size_t o = 0; o < n;) {
			size_t a = NEXT[w](s + o, n - o), b = NEXT[w](q + o, n - o);
			if (a != b) {
				v.fail("embedded-nul", fmt("next_%s_break at %zu returns %zu with an embedded NUL and %zu with U+0001 instead: %s",
				                           SEGNAME[w], o, a, b, hex(c.in).c_str()));
				return;
			}
			if (a == 0 || a > n - o)
				break;
			o += a;
		}
	}
}
static OpReg r_segemb("segmentation-embedded-nul", op_segemb, false);

// G11
static void op_pair(const Case &c, Verdict &v)
{
	size_t n = c.in.size();
	const cp_t *s = place(c.in);
	static Bounds g;
	v.trivial = n < 2;
	if (!walk(0, s, n, g, v))
		return;
	uint_least16_t st = 0, st2 = 0, st3 = 0;
	for (size_t i = 0; i + 1 < n; i++) {
		uint_least16_t copy = st;
		bool r = grapheme_is_character_break(s[i], s[i + 1], &st);
		if (r != (bool)g[i + 1]) {
			v.fail("pairwise", fmt("pairwise test between %zu and %zu says %d, segmentation %d: %s", i, i + 1, r, g[i + 1], hex(c.in).c_str()));
			return;
		}
		// a copied state gives the same answer and the same successor
		bool r1 = grapheme_is_character_break(s[i], s[i + 1], &copy);
		if (r1 != r || copy != st) {
			v.fail("state-copy", fmt("a copied state behaves differently at %zu: %s", i, hex(c.in).c_str()));
			return;
		}
		// resetting the state after a break changes nothing
		bool r2 = grapheme_is_character_break(s[i], s[i + 1], &st2);
		if (r2 != r) {
			v.fail("state-reset", fmt("with the state reset after each break the answer at %zu is %d instead of %d: %s", i, r2, r, hex(c.in).c_str()));
			return;
		}
		if (r2)
			st2 = 0;
		// without a state: as with a fresh one
		st3 = 0;
		bool r3 = grapheme_is_character_break(s[i], s[i + 1], &st3);
		bool r4 = grapheme_is_character_break(s[i], s[i + 1], nullptr);
		if (r3 != r4) {
			v.fail("null-state", fmt("without a state the answer for %04X %04X is %d, with a zeroed one %d", s[i], s[i + 1], r4, r3));
			return;
		}
		// ... which is the whole-string answer for the two characters
		if (i < 64 || n < 64) {
			size_t l = grapheme_next_character_break(s + i, 2);
			if (r3 != (l == 1)) {
				v.fail("zero-state", fmt("a fresh state says %d for %04X %04X, segmentation of the two cuts at %zu", r3, s[i], s[i + 1], l));
				return;
			}
		}
	}
}
static OpReg r_pair("pairwise", op_pair, false);

// ------------------------------------------------------------------ generators
// official test file: the sequences (boundaries are recomputed by the model and cross-checked in selftest)
void official_cases(const char *file, int w, Ctx &ctx, const std::function<void(const std::vector<cp_t> &, const Bounds &)> &f)
{
	(void)w;
	(void)ctx;
	extern std::string ucd_dir;
	FILE *fp = fopen((ucd_dir + "/" + file).c_str(), "r");
	if (!fp)
		return;
	char line[8192];
	while (fgets(line, sizeof line, fp)) {
		std::vector<cp_t> s;
		Bounds b;
		for (char *p = line; *p && *p != '#' && *p != '\n';) {
			if (!strncmp(p, "\xC3\xB7", 2)) {
				b.push_back(1);
				p += 2;
			} else if (!strncmp(p, "\xC3\x97", 2)) {
				b.push_back(0);
				p += 2;
			} else if (isxdigit((unsigned char)*p)) {
				s.push_back((cp_t)strtoul(p, &p, 16));
			} else {
				p++;
			}
		}
		if (!s.empty() && b.size() == s.size() + 1)
			f(s, b);
	}
	fclose(fp);
}
static const char *const OFFICIAL[4] = { "GraphemeBreakTest.txt", "WordBreakTest.txt", "SentenceBreakTest.txt", "LineBreakTest.txt" };

static void gen_periods(Ctx &ctx, int w, const char *op = "segmentation");
static void gen_far(Ctx &ctx, int w, const char *op = "segmentation");
static void gen_seg(Ctx &ctx, int w)
{
	Case c;
	c.op = op_id("segmentation");
	c.p[0] = w;
	const Kinds &K = K_seg[w];
	ctx.count("kinds", ctx.worker == 0 ? K.size() : 0);
	// official sequences; the model must agree with the file
	size_t line = 0;
	official_cases(OFFICIAL[w], w, ctx, [&](const std::vector<cp_t> &s, const Bounds &b) {
		if (!ctx.mine(line++))
			return;
		Bounds e;
		oracle_seg[w](s.data(), s.size(), e);
		for (size_t i = 1; i < s.size(); i++)
			if ((e[i] != 0) != (b[i] != 0)) {
				fprintf(stderr, "model disagrees with %s: %s at %zu\n", OFFICIAL[w], hex(s).c_str(), i);
				_exit(2);
			}
		ctx.count("official test sequences");
		c.in = s;
		ctx.run(c);
	});
	// every string over one representative of each kind
	static const int quick[4] = { 5, 4, 5, 3 }, deep[4] = { 6, 5, 6, 4 };
	int depth = ctx.thorough ? deep[w] : quick[w];
	for (int d = 1; d <= depth; d++)
		for (int var = 0; var < (d < depth ? 2 : 1); var++) {
			Rng r(ctx.seed * 31 + d * 2 + var);
			std::vector<cp_t> a = reps(K, var ? &r : nullptr);
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
			ctx.count(fmt("exhaustive strings of %d kinds%s", d, var ? " (random members)" : "").c_str(), 0);
		}
	// deeper over the kinds that carry context
	if (w == 0) {
		auto a = reps_named(K, { "Other", "Other+ExtPict", "Extend", "ZWJ", "Regional_Indicator", "Prepend", "Control" });
		for (int d = 6; d <= (ctx.thorough ? 9 : 7); d++)
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
	} else if (w == 1) {
		auto a = reps_named(K, { "Other", "ALetter", "Hebrew_Letter", "Single_Quote", "Double_Quote", "MidNumLet", "Numeric", "Extend" });
		for (int d = 5; d <= (ctx.thorough ? 8 : 6); d++)
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
		auto b = reps_named(K, { "Regional_Indicator", "ZWJ", "Extend", "Other+ExtPict", "ALetter", "MidNum" });
		for (int d = 5; d <= (ctx.thorough ? 9 : 7); d++)
			enumerate(ctx, b, d, c.in, [&] { ctx.run(c); });
	} else if (w == 2) {
		auto a = reps_named(K, { "Other", "ATerm", "STerm", "Close", "Sp", "Lower", "Upper", "Extend", "Sep" });
		for (int d = 6; d <= (ctx.thorough ? 8 : 6); d++)
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
		auto b = reps_named(K, { "ATerm", "Close", "Sp", "Lower", "SContinue", "Extend" });
		for (int d = 7; d <= (ctx.thorough ? 9 : 7); d++)
			enumerate(ctx, b, d, c.in, [&] { ctx.run(c); });
	} else {
		auto a = reps_named(K, { "AL", "NU", "SP", "CM", "ZWJ", "OP", "HY", "PR", "IS", "CL", "QU" });
		for (int d = 4; d <= (ctx.thorough ? 7 : 5); d++)
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
		auto b = reps_named(K, { "NU", "CM", "SY", "IS", "CP", "PO", "HY", "OP+EAwide" });
		for (int d = 5; d <= (ctx.thorough ? 7 : 6); d++)
			enumerate(ctx, b, d, c.in, [&] { ctx.run(c); });
		auto e = reps_named(K, { "SP", "ZW", "ZWJ", "CM", "ID", "RI", "B2", "CL", "NS" });
		for (int d = 4; d <= (ctx.thorough ? 7 : 5); d++)
			enumerate(ctx, e, d, c.in, [&] { ctx.run(c); });
		auto h = reps_named(K, { "HL", "BA", "HY", "SY", "CM", "SP", "AL", "ID+ExtPictCn", "EM" });
		for (int d = 4; d <= (ctx.thorough ? 7 : 5); d++)
			enumerate(ctx, h, d, c.in, [&] { ctx.run(c); });
	}
	// random strings with random members and runs
	uint64_t nrand = (ctx.thorough ? 8000000 : 400000) / ctx.nworkers;
	for (uint64_t i = 0; i < nrand; i++) {
		random_string(K, ctx.rng, ctx.thorough ? 1500 : 600, c.in);
		ctx.run(c);
	}
	gen_declared(ctx, w, true, ctx.thorough ? 40000 : 4000);
	// x REPEAT(y) z: every pair of kinds around a run of a third kind, across 8-bit and 16-bit lengths
	size_t item = 0;
	for (size_t y = 0; y < K.size(); y++)
		for (size_t len : { (size_t)2, (size_t)3, (size_t)254, (size_t)255, (size_t)256, (size_t)257, (size_t)511 }) {
			if (!ctx.mine(item++))
				continue;
			for (int t = 0; t < (ctx.thorough ? 200 : 24); t++) {
				c.in.clear();
				for (uint32_t k = ctx.rng.below(4); k > 0; k--)
					c.in.push_back(K.any(ctx.rng.below((uint32_t)K.size()), ctx.rng));
				size_t y2 = ctx.rng.below((uint32_t)K.size());
				for (size_t k = 0; k < len; k++)
					c.in.push_back(K.any(t & 1 && k & 1 ? y2 : y, ctx.rng));
				for (uint32_t k = ctx.rng.below(4); k > 0; k--)
					c.in.push_back(K.any(ctx.rng.below((uint32_t)K.size()), ctx.rng));
				ctx.run(c);
			}
		}
	for (size_t y = 0; y < K.size(); y++) {
		if (!ctx.mine(item++))
			continue;
		for (size_t len : { (size_t)65535, (size_t)65536, (size_t)65537 }) {
			if (!ctx.thorough && len == 65537)
				continue;
			// the models look back over runs of spaces and the like; keep these few
			c.in.clear();
			cp_t m = K.any(y, ctx.rng);
			c.in.push_back(K.any(ctx.rng.below((uint32_t)K.size()), ctx.rng));
			for (size_t k = 0; k < len; k++)
				c.in.push_back(m);
			c.in.push_back(K.any(ctx.rng.below((uint32_t)K.size()), ctx.rng));
			c.in.push_back(K.any(ctx.rng.below((uint32_t)K.size()), ctx.rng));
			ctx.run(c);
		}
	}
	gen_periods(ctx, w);
	gen_far(ctx, w);
}
static void gen_far(Ctx &ctx, int w, const char *op)
{
	Case c;
	c.op = op_id(op);
	c.p[0] = w;
	Bounds e;
	auto eval = [&](const std::vector<cp_t> &s, std::vector<uint8_t> &sig) {
		oracle_seg[w](s.data(), s.size(), e);
		sig.assign(e.begin(), e.end() - 1);
	};
	auto len = [&](const std::vector<cp_t> &) { return log_length(ctx.rng, 6, ctx.rng.chance(1, 8) ? 16 : 13); };
	auto use = [&](const std::vector<cp_t> &s) {
		c.in = s;
		ctx.run(c);
	};
	gen_distance(ctx, reps(K_seg[w]), ctx.thorough ? 150 : 40, ctx.thorough ? 400 : 80, ctx.thorough ? 6000 : 600, ctx.thorough ? 1000 : 80, eval, len, use);
	gen_distance_pairs(ctx, reps(K_seg[w]), ctx.thorough ? 20000 : 1000, (size_t)(w == 2 ? 0 : 65600), eval, len, use);
}
// (a b)^n x y z, with n around the widths of small counters, for every unit that repeats without an ordinary break: what
// is counted or remembered over many periods shows when the period is finally disturbed (y) and resumed (z)
static bool across(const std::string &n)
{
	return n == "Extend" || n == "ZWJ" || n == "Format" || n == "CM" || n == "SP";
}
static void gen_periods(Ctx &ctx, int w, const char *op)
{
	Case c;
	c.op = op_id(op);
	c.p[0] = w;
	const Kinds &K = K_seg[w];
	std::vector<cp_t> R = reps(K);
	size_t nk = R.size(), item = 0;
	for (size_t a = 0; a < nk; a++)
		for (size_t b = 0; b <= nk; b++) {
			if (b == a || !ctx.mine(item++))
				continue;
			std::vector<cp_t> u = { R[a] };
			if (b < nk)
				u.push_back(R[b]);
			std::vector<cp_t> t;
			for (int k = 0; k < 4; k++)
				t.insert(t.end(), u.begin(), u.end());
			Bounds g;
			oracle_seg[w](t.data(), t.size(), g);
			bool whole = true;
			for (size_t i = 1; i < t.size(); i++)
				if (g[i])
					whole = false;
			if (!whole)
				continue;
			ctx.count("units of one or two characters that repeat without a break");
			for (size_t n : { (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)257 })
				for (int x = 0; x < (int)u.size(); x++)
					for (size_t y = 0; y <= nk; y++) {
						// the characters that others are attached across, always
						bool light = y == nk || u.size() == 1 || across(K.name[y]);
						if (!ctx.thorough && !light && !ctx.rng.chance(1, 8))
							continue;
						for (size_t z = 0; z < u.size(); z++) {
							c.in.clear();
							for (size_t k = 0; k < n; k++)
								c.in.insert(c.in.end(), u.begin(), u.end());
							for (int k = 0; k < x; k++)
								c.in.push_back(u[(size_t)k]);
							if (y < nk)
								c.in.push_back(R[y]);
							c.in.push_back(u[z]);
							c.in.push_back(K.any(ctx.rng.below((uint32_t)nk), ctx.rng));
							ctx.run(c);
						}
					}
			if (ctx.thorough || ctx.rng.chance(1, 40)) {
				// and 2^16 periods
				c.in.clear();
				for (size_t n = 65535 + ctx.rng.below(3); n > 0; n--)
					c.in.insert(c.in.end(), u.begin(), u.end());
				for (int k = 0; k < 3; k++)
					c.in.push_back(ctx.rng.chance(1, 2) ? u[ctx.rng.below((uint32_t)u.size())] : K.any(ctx.rng.below((uint32_t)nk), ctx.rng));
				ctx.run(c);
			}
		}
}
static const char RULE_SEG[] =
	"code point strings: the official test sequences, all strings over one code point per property combination up to a depth, all "
	"deeper strings over context-carrying classes, seeded random strings with runs, contexts around runs of 2-65537 equal classes, "
	"units of one or two characters repeated 127-257 and around 2^16 times, 64-66000 characters between characters whose decisions depend on each other; "
	"the library's walk is compared with the model at every position; non-trivial: a rule other than the default one decided something";
static PropReg p6("G06", [](Ctx &c) { gen_seg(c, 0); }, RULE_SEG,
                  { R_GB3, R_GB4, R_GB5, R_GB6, R_GB7, R_GB8, R_GB9, R_GB9a, R_GB9b, R_GB11, R_GB12_13, R_GB999 });
static PropReg p7("G07", [](Ctx &c) { gen_seg(c, 1); }, RULE_SEG,
                  { R_WB3, R_WB3a, R_WB3b, R_WB3c, R_WB3d, R_WB4, R_WB5, R_WB6, R_WB7, R_WB7a, R_WB7b, R_WB7c, R_WB8, R_WB9, R_WB10,
                    R_WB11, R_WB12, R_WB13, R_WB13a, R_WB13b, R_WB15_16, R_WB999 });
static PropReg p8("G08", [](Ctx &c) { gen_seg(c, 2); }, RULE_SEG,
                  { R_SB3, R_SB4, R_SB5, R_SB6, R_SB7, R_SB8, R_SB8a, R_SB9, R_SB10, R_SB11, R_SB998 });
static PropReg p9("G09", [](Ctx &c) { gen_seg(c, 3); }, RULE_SEG,
                  { R_LB4, R_LB5, R_LB6, R_LB7, R_LB8, R_LB8a, R_LB9, R_LB11, R_LB12, R_LB12a, R_LB13, R_LB14, R_LB15, R_LB16, R_LB17,
                    R_LB18, R_LB19, R_LB20, R_LB21, R_LB21a, R_LB21b, R_LB22, R_LB23, R_LB23a, R_LB24, R_LB25, R_LB26, R_LB27, R_LB28,
                    R_LB29, R_LB30, R_LB30a, R_LB30b, R_LB31 });

static void gen_g10(Ctx &ctx)
{
	Case c;
	for (int w = 0; w < 4; w++) {
		const Kinds &K = K_seg[w];
		c = Case();
		c.op = op_id("partition");
		c.p[0] = w;
		for (int d = 1; d <= (w == 3 ? 3 : 4) - (ctx.thorough ? 0 : w == 1 || w == 2 ? 0 : 0); d++)
			enumerate(ctx, reps(K), d, c.in, [&] { ctx.run(c); });
		uint64_t n = (ctx.thorough ? 1500000 : 60000) / ctx.nworkers;
		for (uint64_t i = 0; i < n; i++) {
			random_string(K, ctx.rng, 800, c.in);
			ctx.run(c);
		}
		c.op = op_id("partition-utf8");
		n = (ctx.thorough ? 6000000 : 250000) / ctx.nworkers;
		for (uint64_t i = 0; i < n; i++) {
			random_bytes(ctx.rng, 400, c.in, &K);
			ctx.run(c);
		}
		// all short byte strings over one byte per decoder-relevant class
		std::vector<uint32_t> bytes = { 0x00, 0x0D, 0x0A, 0x41, 0x80, 0x9F, 0xBF, 0xC2, 0xE0, 0xED, 0xF0, 0xF4, 0xFF };
		for (int d = 1; d <= (ctx.thorough ? 5 : 4); d++)
			enumerate(ctx, bytes, d, c.in, [&] { ctx.run(c); });
		gen_declared(ctx, w, false, ctx.thorough ? 40000 : 4000);
		for (int u = 0; u < 2; u++) {
			c = Case();
			c.op = op_id(u ? "partition-utf8" : "partition");
			c.p[0] = w;
			std::vector<cp_t> s;
			std::vector<uint8_t> b;
			for (uint64_t i = 0; i < (ctx.thorough ? 1600u : 80u); i++) {
				if (!ctx.mine(i))
					continue;
				long_string(K, ctx.rng, s);
				if (u) {
					to_utf8(s, b);
					for (uint32_t k = ctx.rng.below(5); k > 0; k--)
						b[ctx.rng.below((uint32_t)b.size())] = (uint8_t)ctx.rng.below(256);
					c.in.assign(b.begin(), b.end());
				} else {
					c.in = s;
				}
				ctx.run(c);
				ctx.count("long texts (runs around 2^8 or 2^16)");
			}
		}
	}
}
static PropReg p10("G10", gen_g10,
                   "code point strings and (mostly malformed) byte strings for each of the four segmentations: enumerated short ones and seeded random "
                   "ones; every returned offset is checked; non-trivial: at least two characters", {});

static void gen_g11(Ctx &ctx)
{
	Case c;
	c.op = op_id("pairwise");
	const Kinds &K = K_seg[0];
	int depth = ctx.thorough ? 6 : 5;
	for (int d = 2; d <= depth; d++)
		enumerate(ctx, reps(K), d, c.in, [&] { ctx.run(c); });
	uint64_t n = (ctx.thorough ? 6000000 : 300000) / ctx.nworkers;
	for (uint64_t i = 0; i < n; i++) {
		random_string(K, ctx.rng, 800, c.in);
		ctx.run(c);
	}
	// every code point on either side of every kind
	std::vector<cp_t> a = reps(K);
	for (cp_t x = 0; x < NCP; x++) {
		if (!ctx.mine(x))
			continue;
		cp_t k = ctx.thorough ? 0 : (x / ctx.nworkers) % 3;
		c.in.clear();
		for (size_t i = k; i < a.size(); i += ctx.thorough ? 1 : 3) {
			c.in.push_back(a[i]);
			c.in.push_back(x);
		}
		ctx.run(c);
	}
	gen_periods(ctx, 0, "pairwise");
	gen_far(ctx, 0, "pairwise");
}
static PropReg p11("G11", gen_g11,
                   "strings over the grapheme classes, enumerated up to a depth, seeded random ones, units repeated 127-257 and around 2^16 times, long repetitions between dependent characters, and every code point beside every class; at each "
                   "position the pairwise test (running state, copied state, state reset after breaks, fresh state, no state) is compared with "
                   "whole-string segmentation; non-trivial: at least one pair", {});
