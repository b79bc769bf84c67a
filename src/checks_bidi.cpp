// G15-G17 and the bidi parts of G04
#include "gen.hpp"
#include <algorithm>

typedef enum grapheme_bidirectional_direction Dir;
static Guard gs, gd, gl, go, gi;
static const char *const DN[3] = { "auto", "ltr", "rtl" };

static const cp_t *place(Guard &g, const std::vector<uint32_t> &in)
{
	cp_t *p = (cp_t *)g.end_aligned(in.size() * 4, 4);
	if (!in.empty())
		memcpy(p, in.data(), in.size() * 4);
	return p;
}
static std::string levs(const std::vector<int8_t> &l, size_t max = 80)
{
	std::string r;
	for (size_t i = 0; i < l.size() && i < max; i++)
		r += l[i] < 0 ? std::string(i ? " x" : "x") : fmt("%s%d", i ? " " : "", l[i]);
	if (l.size() > max)
		r += " ...";
	return r;
}
static std::string classes(const cp_t *s, size_t n)
{
	std::string r;
	for (size_t i = 0; i < n && i < 60; i++)
		r += std::string(i ? " " : "") + bc_name[U.b(s[i])] + (U.bt(s[i]) == 1 ? "(" : U.bt(s[i]) == 2 ? ")" : "");
	return r;
}

// G15
static void op_levels(const Case &c, Verdict &v)
{
	int dir = (int)c.p[0];
	static BidiRes e;
	static std::vector<int8_t> want, got;
	size_t n = c.in.size();
	const cp_t *s = place(gs, c.in);
	oracle_bidi(s, n, dir, e);
	oracle_line_levels(e, 0, e.len, want);
	v.trivial = true;
	for (size_t i = 0; i < e.len; i++)
		if (want[i] != e.para)
			v.trivial = false;
	cp_t *d = (cp_t *)gd.end_aligned(n * 4, 4); // room for the whole input, the paragraph may be shorter
	memset(d, 0, n * 4);
	Dir res = (Dir)77;
	size_t r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, d, n, &res);
	if (r != e.len) {
		v.fail("length", fmt("preprocess of %zu code points returns %zu, the paragraph has %zu: %s", n, r, e.len, hex(c.in).c_str()));
		return;
	}
	if (res != (e.para ? GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL : GRAPHEME_BIDIRECTIONAL_DIRECTION_LTR)) {
		v.fail("direction", fmt("resolved direction %d, paragraph level should be %d (requested %s): %s = %s", (int)res, e.para, DN[dir],
		                        hex(c.in).c_str(), classes(s, n).c_str()));
		return;
	}
	int_least8_t *l = (int_least8_t *)gl.end_aligned(e.len, 1);
	r = grapheme_bidirectional_get_line_embedding_levels(d, e.len, l, e.len);
	got.assign(l, l + e.len);
	if (r != e.len || got != want)
		v.fail("levels", fmt("levels (%s) [%s], expected [%s]; text %s = %s", DN[dir], levs(got).c_str(), levs(want).c_str(), hex(c.in).c_str(),
		                     classes(s, n).c_str()));
}
static OpReg r_lev("bidi-levels", op_levels, false);

// G16.  p0 direction, p1/p2 slice (clamped)
static void op_line(const Case &c, Verdict &v)
{
	int dir = (int)c.p[0];
	static BidiRes e;
	static std::vector<int8_t> want, got;
	static std::vector<cp_t> ro, ro2, out;
	size_t n = c.in.size();
	const cp_t *s = place(gs, c.in);
	cp_t *d = (cp_t *)gd.end_aligned(n * 4, 4);
	memset(d, 0, n * 4);
	size_t r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, d, n, nullptr);
	oracle_bidi(s, n, dir, e);
	if (r != e.len)
		return; // judged by G15/G17
	size_t a = std::min<size_t>((size_t)c.p[1], e.len), z = std::min<size_t>((size_t)c.p[2], e.len);
	if (a > z)
		std::swap(a, z);
	size_t m = z - a;
	// the slice is copied flush to guard pages: nothing outside it may matter
	std::vector<uint32_t> tl(s + a, s + z), tdv(d + a, d + z);
	// the paragraph levels as the library computed them, so that this check judges L1/L2/L4 alone:
	// read through one-character lines ending in that character is impossible for white space, so the model's
	// levels are used; G15 judges them
	oracle_line_levels(e, a, z, want);
	v.trivial = true;
	for (size_t i = 0; i < m; i++)
		if (want[i] > 0)
			v.trivial = false;
	const cp_t *td = place(gi, tdv);
	int_least8_t *l = (int_least8_t *)gl.end_aligned(m, 1);
	r = grapheme_bidirectional_get_line_embedding_levels(td, m, l, m);
	got.assign(l, l + m);
	if (r != m || got != want) {
		v.fail("line-levels", fmt("line [%zu,%zu) of (%s) %s = %s: levels [%s], expected [%s]", a, z, DN[dir], hex(c.in).c_str(),
		                          classes(s, n).c_str(), levs(got).c_str(), levs(want).c_str()));
		return;
	}
	oracle_reorder(s, e, a, z, false, ro);
	oracle_reorder(s, e, a, z, true, ro2);
	static Guard gt;
	const cp_t *t = place(gt, tl);
	size_t cap = m + 1 + (size_t)c.p[3];
	cp_t *o = (cp_t *)go.end_aligned(cap * 4, 4);
	memset(o, 0xA5, cap * 4);
	r = grapheme_bidirectional_reorder_line(t, td, m, o, cap);
	if (r != ro.size()) {
		v.fail("reorder-count", fmt("reorder returns %zu, %zu characters are to be output: line [%zu,%zu) of (%s) %s", r, ro.size(), a, z, DN[dir],
		                            hex(c.in).c_str()));
		return;
	}
	out.assign(o, o + r);
	if (out != ro) {
		// known deviation: mirroring is applied at every level
		bool allm = out == ro2;
		v.fail(allm ? "mirror-at-even-level" : "reorder",
		       fmt("line [%zu,%zu) of (%s) %s levels [%s]: reordered to [%s], expected [%s]", a, z, DN[dir], hex(c.in).c_str(), levs(want).c_str(),
		           hex(out).c_str(), hex(ro).c_str()));
	}
}
static OpReg r_line("bidi-line", op_line, false);

// capacities to try for a need of n: all around 0 and n, every 13th in between; for long lines those around the widths
// a count might wrongly be kept in
static void capacities(size_t n, std::vector<size_t> &caps)
{
	caps.clear();
	if (n <= 3000) {
		for (size_t k = 0; k <= n + 3; k++)
			if (k <= 12 || k + 6 >= n || k % 13 == 0)
				caps.push_back(k);
	} else {
		for (size_t k : { (size_t)0, (size_t)1, (size_t)127, (size_t)128, (size_t)255, (size_t)256, (size_t)257, (size_t)32768, (size_t)65535, (size_t)65536,
		                  (size_t)65537, n - n / 3, n - 1, n, n + 1, n + 3 })
			if (k <= n + 3)
				caps.push_back(k);
	}
}
// G17.  p0 direction, p1 seed of the fill pattern
static void op_contract(const Case &c, Verdict &v)
{
	int dir = (int)c.p[0];
	size_t n = c.in.size();
	const cp_t *s = place(gs, c.in);
	size_t plen = 0;
	while (plen < n)
		if (U.b(s[plen++]) == B_B)
			break;
	v.trivial = n == 0;
	Dir r0 = (Dir)9, r1 = (Dir)9;
	size_t r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, nullptr, 0, &r0);
	if (r != plen) {
		v.fail("null-dest", fmt("preprocess with NULL destination returns %zu, paragraph length %zu: %s", r, plen, hex(c.in).c_str()));
		return;
	}
	r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, nullptr, n + 7, &r1);
	if (r != plen || r0 != r1) {
		v.fail("null-dest", fmt("preprocess with NULL destination and a capacity returns %zu, direction %d/%d", r, (int)r0, (int)r1));
		return;
	}
	static std::vector<int8_t> ref;
	static std::vector<cp_t> refout, refdata;
	ref.clear();
	size_t refcnt = 0;
	std::vector<size_t> caps = { plen, plen + 1, plen + 5, 2 * plen + 64, 0, 1, 2, plen / 2, plen ? plen - 1 : 0, plen > 2 ? plen - 2 : 0 };
	for (size_t ci = 0; ci < caps.size(); ci++) {
		size_t cap = caps[ci];
		static Guard gx;
		uint32_t *base = (uint32_t *)gx.end_aligned((cap + 4) * 4, 4), *d = base + 4;
		uint32_t pat = ci == 0 ? 0 : ci == 1 ? 0xFFFFFFFFu : (uint32_t)(c.p[1] * 2654435761u + ci * 40503u);
		for (size_t i = 0; i < cap + 4; i++)
			base[i] = pat + (ci < 2 ? 0 : (uint32_t)i * 0x01234567u);
		Dir r2 = (Dir)9;
		r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, d, cap, &r2);
		if (r != plen || r2 != r0) {
			v.fail("preprocess-return", fmt("preprocess with capacity %zu returns %zu, direction %d; paragraph length %zu, direction %d: %s", cap, r,
			                                (int)r2, plen, (int)r0, hex(c.in).c_str()));
			return;
		}
		for (size_t i = 0; i < cap + 4; i++) {
			if (i >= 4 && i < 4 + std::min(plen, cap))
				continue;
			if (base[i] != pat + (ci < 2 ? 0 : (uint32_t)i * 0x01234567u)) {
				v.fail("preprocess-oob", fmt("preprocess with capacity %zu of a paragraph of %zu wrote element %zd: %s", cap, plen, (ptrdiff_t)i - 4,
				                             hex(c.in).c_str()));
				return;
			}
		}
		if (cap < plen)
			continue;
		// levels for every capacity
		static std::vector<size_t> lcs, ocs;
		capacities(plen, lcs);
		for (size_t lc : lcs) {
			if (ci > 0 && lc != plen)
				continue;
			static Guard gv;
			int8_t *lb = (int8_t *)gv.end_aligned(lc + 8, 1), *l = lb + 8;
			memset(lb, 0x5A, lc + 8);
			r = grapheme_bidirectional_get_line_embedding_levels(d, plen, lc == 0 && ci % 2 ? nullptr : l, lc);
			if (r != plen) {
				v.fail("levels-return", fmt("level retrieval with capacity %zu returns %zu for a line of %zu", lc, r, plen));
				return;
			}
			if (ci == 0 && lc == 0) {
				// reference: a large buffer
				static std::vector<int8_t> big;
				big.assign(plen + 64, 0x5A);
				grapheme_bidirectional_get_line_embedding_levels(d, plen, big.data(), plen + 64);
				ref.assign(big.begin(), big.begin() + plen);
				for (size_t i = plen; i < plen + 64; i++)
					if (big[i] != 0x5A) {
						v.fail("levels-oob", fmt("level retrieval wrote element %zu of a line of %zu", i, plen));
						return;
					}
			}
			size_t fill = std::min(lc, plen);
			for (size_t i = 0; i < 8; i++)
				if (lb[i] != 0x5A)
					v.fail("levels-oob", "level retrieval wrote before the buffer");
			for (size_t i = 0; i < lc; i++)
				if (i < fill ? l[i] != ref[i] : l[i] != 0x5A) {
					v.fail(i < fill ? "levels-prefix" : "levels-oob",
					       fmt("level retrieval with capacity %zu (line of %zu, destination pattern %zu): element %zu is %d: %s", lc, plen, ci, i, l[i],
					           hex(c.in).c_str()));
					return;
				}
		}
		// reordering for every capacity
		bool valid = true;
		for (size_t i = 0; i < plen; i++)
			valid = valid && s[i] < NCP;
		if (!valid)
			continue;
		if (ci == 0) {
			refcnt = 0;
			for (int8_t x : ref)
				refcnt += x != -1;
			refout.assign(refcnt + 64, 0x5A5A5A5A);
			r = grapheme_bidirectional_reorder_line(s, d, plen, refout.data(), refcnt + 64);
			if (r != refcnt) {
				v.fail("reorder-return", fmt("reordering a line with %zu characters to output returns %zu", refcnt, r));
				return;
			}
			for (size_t i = refcnt; i < refcnt + 64; i++)
				if (refout[i] != 0x5A5A5A5A) {
					v.fail("reorder-oob", fmt("reordering wrote element %zu of %zu", i, refcnt));
					return;
				}
		}
		capacities(refcnt, ocs);
		for (size_t oc : ocs) {
			if (ci > 0 && oc != refcnt + 1)
				continue;
			static Guard gv;
			uint32_t *ob = (uint32_t *)gv.end_aligned((oc + 4) * 4, 4), *o = ob + 4;
			for (size_t i = 0; i < oc + 4; i++)
				ob[i] = 0x5A5A5A5A;
			r = grapheme_bidirectional_reorder_line(s, d, plen, o, oc);
			if (r != refcnt) {
				v.fail("reorder-return", fmt("reordering with capacity %zu returns %zu instead of %zu", oc, r, refcnt));
				return;
			}
			for (size_t i = 0; i < 4; i++)
				if (ob[i] != 0x5A5A5A5A) {
					v.fail("reorder-oob", "reordering wrote before the buffer");
					return;
				}
			for (size_t i = 0; i < oc; i++) {
				uint32_t want = refcnt <= oc ? (i < refcnt ? refout[i] : 0x5A5A5A5A) : 0xFFFD;
				if (o[i] != want) {
					v.fail(refcnt == oc ? "reorder-exact" : refcnt < oc ? "reorder-content" : "reorder-clear",
					       fmt("reordering %zu characters with capacity %zu (destination pattern %zu): element %zu is %X instead of %X: %s", refcnt, oc, ci,
					           i, o[i], want, hex(c.in).c_str()));
					return;
				}
			}
		}
	}
}
static OpReg r_con("bidi-contract", op_contract, false);

// a paragraph at the start of an area of declared length p1, capacities of the same size: as with exact ones
static void op_huge(const Case &c, Verdict &v)
{
	int dir = (int)c.p[0];
	size_t L = (size_t)c.p[1];
	static std::vector<uint32_t> t;
	static Huge hs, hd, hl, ho;
	t.clear();
	for (uint32_t x : c.in)
		if (U.b(x) != B_B)
			t.push_back(x < NCP ? x : '!');
	t.push_back(0x2029);
	size_t n = t.size(), r;
	v.trivial = n < 2;
	if (U.b(0x2029) != B_B || L < n + 4 || L > HUGE_BYTES / 4)
		return;
	const cp_t *s = place(gs, t);
	cp_t *d = (cp_t *)gd.end_aligned(n * 4, 4);
	memset(d, 0, n * 4);
	Dir r0 = (Dir)9, r1 = (Dir)9, r2 = (Dir)9;
	if (grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)dir, d, n, &r0) != n)
		return; // judged elsewhere
	std::vector<int8_t> l1(n), l2;
	std::vector<cp_t> o1(n), o2;
	grapheme_bidirectional_get_line_embedding_levels(d, n, l1.data(), n);
	size_t cnt = grapheme_bidirectional_reorder_line(s, d, n, o1.data(), n);
	uint32_t *S = (uint32_t *)hs.get(n * 4), *D = (uint32_t *)hd.get(n * 4);
	int_least8_t *V = (int_least8_t *)hl.get(n);
	uint32_t *O = (uint32_t *)ho.get(n * 4);
	if (!S || !D || !V || !O || cnt > n)
		return;
	memcpy(S, t.data(), n * 4);
	r = grapheme_bidirectional_preprocess_paragraph(S, L, (Dir)dir, D, L, &r1);
	size_t rn = grapheme_bidirectional_preprocess_paragraph(S, L, (Dir)dir, nullptr, 0, &r2);
	if (r != n || rn != n || r1 != r0 || r2 != r0) {
		v.fail("preprocess-return", fmt("preprocess of a text and buffer of declared length %zu returns %zu (%zu with NULL), direction %d/%d; the first paragraph "
		                                "has %zu, direction %d: %s", L, r, rn, (int)r1, (int)r2, n, (int)r0, hex(t).c_str()));
		return;
	}
	r = grapheme_bidirectional_get_line_embedding_levels(D, n, V, L);
	l2.assign(V, V + n);
	if (r != n || l1 != l2) {
		v.fail("levels-return", fmt("level retrieval with capacity %zu returns %zu and [%s] instead of %zu and [%s]: %s", L, r, levs(l2).c_str(), n,
		                            levs(l1).c_str(), hex(t).c_str()));
		return;
	}
	r = grapheme_bidirectional_reorder_line(s, D, n, O, L);
	o1.resize(cnt);
	o2.assign(O, O + cnt);
	if (r != cnt || o1 != o2)
		v.fail("reorder-return", fmt("reordering with capacity %zu returns %zu and [%s] instead of %zu and [%s]: %s", L, r, hex(o2).c_str(), cnt,
		                             hex(o1).c_str(), hex(t).c_str()));
}
static OpReg r_hug("bidi-huge-buffers", op_huge, false);

// G04.  p0 direction, p1: embedded NULs in explicit-length text
static void op_bnul(const Case &c, Verdict &v)
{
	int dir = (int)c.p[0];
	std::vector<uint32_t> a = c.in, b;
	size_t n = a.size();
	if (n == 0)
		return;
	if (c.p[1]) {
		// explicit length, NUL is an ordinary BN: as U+0001
		for (size_t i = 0; i < n; i += 1 + i % 5)
			a[i] = 0;
		b = a;
		for (auto &x : b)
			if (x == 0)
				x = 1;
		if (U.bc[0] != U.bc[1])
			return;
	} else {
		for (auto &x : a)
			if (x == 0)
				x = 1;
		b = a;
		a.push_back(0);
	}
	v.trivial = false;
	static Guard g2, d2;
	const cp_t *s = place(gs, a), *q = place(g2, b);
	uint32_t *da = (uint32_t *)gd.end_aligned(n * 4, 4), *db = (uint32_t *)d2.end_aligned(n * 4, 4);
	memset(da, 0, n * 4);
	memset(db, 0, n * 4);
	Dir ra = (Dir)9, rb = (Dir)9;
	size_t x = grapheme_bidirectional_preprocess_paragraph(s, c.p[1] ? n : SIZE_MAX, (Dir)dir, da, n, &ra);
	size_t y = grapheme_bidirectional_preprocess_paragraph(q, n, (Dir)dir, db, n, &rb);
	if (x != y || ra != rb) {
		v.fail(c.p[1] ? "embedded-nul" : "nul", fmt("preprocess %s returns %zu, direction %d; otherwise %zu, %d: %s",
		                                            c.p[1] ? "with embedded NULs" : "of NUL-terminated text", x, (int)ra, y, (int)rb, hex(a).c_str()));
		return;
	}
	x = std::min(x, n);
	std::vector<int8_t> la(x), lb(x);
	grapheme_bidirectional_get_line_embedding_levels(da, x, la.data(), x);
	grapheme_bidirectional_get_line_embedding_levels(db, x, lb.data(), x);
	if (la != lb)
		v.fail(c.p[1] ? "embedded-nul" : "nul", fmt("levels %s are [%s], otherwise [%s]: %s", c.p[1] ? "with embedded NULs" : "of NUL-terminated text",
		                                            levs(la).c_str(), levs(lb).c_str(), hex(a).c_str()));
}
static OpReg r_bnul("bidi-nul", op_bnul, false);

// ------------------------------------------------------------------ workloads
static std::vector<cp_t> PAREN; // brackets of several kinds
static void init()
{
	if (!PAREN.empty())
		return;
	for (cp_t c = 0; c < NCP; c++)
		if (U.btype[c])
			PAREN.push_back(c);
}
static cp_t cls(Rng &r, uint8_t b)
{
	static std::vector<cp_t> by[B_N];
	if (by[0].empty())
		for (cp_t c = 0; c < NCP; c++)
			if (!U.btype[c])
				by[U.bc[c]].push_back(c);
	return r.pick(by[b]);
}
// structural stress: nesting beyond the limits, bracket storms, long runs, several paragraphs
static void structured(Ctx &ctx, std::vector<cp_t> &s, bool thorough)
{
	init();
	Rng &r = ctx.rng;
	s.clear();
	auto push = [&](uint8_t b) { s.push_back(cls(r, b)); };
	static const uint8_t content[] = { B_L, B_R, B_AL, B_EN, B_AN, B_ON, B_WS, B_NSM, B_ET, B_ES, B_CS, B_S, B_BN };
	auto any = [&](uint32_t n) {
		for (uint32_t i = r.below(n + 1); i > 0; i--)
			push(content[r.below(sizeof content)]);
	};
	switch (r.below(12)) {
	case 11:
	case 10:
	case 9: { // one isolating run sequence made of several embeddings, overrides and isolates at the same level
		static const uint8_t st[] = { B_L, B_R, B_AL, B_EN, B_AN, B_NSM, B_ET, B_ES, B_CS, B_ON };
		cp_t o = r.chance(2, 3) ? '(' : r.pick(PAREN);
		if (U.btype[o] == 2)
			o = U.bpair[o];
		bool rtl = r.chance(1, 2);
		uint32_t np = r.chance(1, 2) ? 0 : r.below(3), few = r.chance(2, 3) ? 2 + r.below(2) : 0;
		uint8_t mini[3] = { B_L, r.chance(1, 2) ? B_R : st[1 + r.below(4)], st[r.below(10)] };
		for (uint32_t i = 0; i < np; i++)
			push(r.chance(1, 2) ? (r.chance(1, 2) ? B_LRE : B_RLE) : B_LRI + r.below(3));
		for (uint32_t i = 2 + r.below(4); i > 0; i--) {
			uint32_t w = r.below(8);
			if (w < 6)
				push(rtl ? (w < 4 ? B_RLE : B_RLO) : (w < 4 ? B_LRE : B_LRO));
			for (uint32_t k = r.below(4); k > 0; k--) {
				uint32_t q = r.below(12);
				if (q < 3)
					s.push_back(o);
				else if (q < 6)
					s.push_back(U.bpair[o]);
				else if (q == 6) {
					push(B_LRI + r.below(3));
					any(1);
					push(B_PDI);
				} else
					push(few ? mini[r.below(few)] : st[r.below(q < 10 ? 5 : 10)]);
			}
			if (w < 6)
				push(B_PDF);
		}
		any(1);
		break;
	}
	case 8: { // short: brackets and runs of the other things that matter to them (strong, numbers, several NSM, BN)
		static const uint8_t st[] = { B_L, B_R, B_AL, B_EN, B_AN };
		cp_t o = r.chance(2, 3) ? '(' : r.pick(PAREN);
		if (U.btype[o] == 2)
			o = U.bpair[o];
		for (uint32_t i = 1 + r.below(4); i > 0; i--) {
			static const uint8_t tail[] = { B_NSM, B_NSM, B_NSM, B_BN, B_ON, B_PDF };
			push(st[r.below(5)]);
			if (r.chance(3, 4))
				s.push_back(r.chance(2, 3) ? o : U.bpair[o]);
			if (r.chance(1, 3))
				for (uint32_t k = r.below(4); k > 0; k--)
					push(tail[r.below(6)]);
			if (r.chance(3, 4))
				push(st[r.below(5)]);
			if (r.chance(3, 4))
				s.push_back(U.bpair[o]);
			for (uint32_t k = r.below(5); k > 0; k--)
				push(tail[r.below(6)]);
			if (r.chance(1, 4))
				push(B_LRI + r.below(4));
		}
		push(st[r.below(5)]);
		break;
	}
	case 0: { // deep embeddings/isolates, partially closed
		static const uint8_t op[] = { B_LRE, B_RLE, B_LRO, B_RLO, B_LRI, B_RLI, B_FSI };
		uint32_t depth = 1 + r.below(r.chance(1, 3) ? 12 : 140), kinds = 1 + r.below(7);
		uint8_t th[7];
		for (auto &x : th)
			x = op[r.below(7)];
		any(2);
		for (uint32_t i = 0; i < depth; i++) {
			push(th[r.below(kinds)]);
			if (r.chance(1, 8))
				any(2);
			if (r.chance(1, 30))
				push(r.chance(1, 2) ? B_PDI : B_PDF);
		}
		any(4);
		uint32_t close = r.below(depth + 6);
		bool pdi = r.chance(1, 2), mix = r.chance(1, 2);
		for (uint32_t i = 0; i < close; i++) {
			push(mix ? (r.chance(1, 2) ? B_PDI : B_PDF) : pdi ? B_PDI : B_PDF);
			if (r.chance(1, 6))
				any(2);
		}
		any(4);
		break;
	}
	case 1: { // many brackets of one or several kinds
		uint32_t n = 1 + r.below(r.chance(1, 2) ? 20 : 160), kinds = 1 + r.below(5), popen = 1 + r.below(9);
		cp_t th[5];
		for (auto &x : th)
			x = r.pick(PAREN);
		any(3);
		for (uint32_t i = 0; i < n; i++) {
			cp_t b = th[r.below(kinds)];
			bool open = r.chance(popen, 10);
			if ((U.btype[b] == 1) != open)
				b = U.bpair[b];
			s.push_back(b);
			if (r.chance(1, 4))
				any(2);
		}
		any(3);
		break;
	}
	case 2: { // 60-70 openers, some closed in between, then closers
		cp_t o = r.pick(PAREN);
		if (U.btype[o] == 2)
			o = U.bpair[o];
		cp_t cl = U.bpair[o];
		uint32_t n = 58 + r.below(12);
		any(2);
		for (uint32_t i = 0; i < n; i++) {
			s.push_back(o);
			if (r.chance(1, 12)) {
				any(1);
				s.push_back(cl);
			}
		}
		any(3);
		for (uint32_t i = r.below(n + 2); i > 0; i--) {
			s.push_back(cl);
			if (r.chance(1, 10))
				any(1);
		}
		any(2);
		break;
	}
	case 3: { // isolates around brackets and numbers
		for (uint32_t i = 2 + r.below(20); i > 0; i--) {
			uint32_t q = r.below(10);
			if (q < 2)
				push(B_LRI + r.below(3));
			else if (q < 4)
				push(B_PDI);
			else if (q < 6)
				s.push_back(r.pick(PAREN));
			else
				any(3);
		}
		break;
	}
	case 4: { // number contexts
		static const uint8_t num[] = { B_EN, B_AN, B_ES, B_CS, B_ET, B_NSM, B_AL, B_R, B_L, B_BN, B_ON };
		for (uint32_t i = 2 + r.below(24); i > 0; i--)
			push(num[r.below(sizeof num)]);
		break;
	}
	case 5: { // several paragraphs
		for (uint32_t i = 1 + r.below(4); i > 0; i--) {
			any(6);
			if (r.chance(1, 2))
				push(B_LRI + r.below(3));
			any(3);
			push(B_B);
		}
		any(4);
		break;
	}
	case 6: { // white space and separators around levels
		static const uint8_t ws[] = { B_WS, B_S, B_LRI, B_PDI, B_FSI, B_BN, B_R, B_L, B_RLE, B_PDF, B_WS, B_AN };
		for (uint32_t i = 2 + r.below(20); i > 0; i--)
			push(ws[r.below(sizeof ws)]);
		break;
	}
	default: { // long
		uint32_t n = thorough ? 300 + r.below(1500) : 100 + r.below(400);
		while (s.size() < n) {
			uint32_t q = r.below(20);
			if (q == 0)
				s.push_back(r.pick(PAREN));
			else if (q == 1)
				push(B_LRE + r.below(8));
			else if (q == 2)
				push(B_PDI);
			else if (q == 3) {
				uint8_t b = content[r.below(sizeof content)];
				for (uint32_t k = r.below(40); k > 0; k--)
					push(b);
			} else
				any(3);
		}
		break;
	}
	}
	if (s.empty())
		push(B_ON);
}
static void random_bidi(Ctx &ctx, std::vector<cp_t> &s, size_t maxlen, int wild)
{
	if (ctx.rng.chance(1, 2))
		structured(ctx, s, ctx.thorough);
	else
		random_string(K_bidi, ctx.rng, maxlen, s, wild);
}
// long paragraphs: nesting and runs around 2^8 and 2^16.  What the library handles in quadratic time (numbers, brackets,
// isolates, unresolved neutrals) is kept to some thousands.
static void long_bidi(Ctx &ctx, std::vector<cp_t> &s)
{
	Rng &r = ctx.rng;
	s.clear();
	auto push = [&](uint8_t b) { s.push_back(cls(r, b)); };
	static const uint8_t content[] = { B_L, B_R, B_AL, B_EN, B_AN, B_ON, B_WS, B_NSM, B_ET, B_S, B_BN };
	auto any = [&](uint32_t n) {
		for (uint32_t i = r.below(n + 1); i > 0; i--)
			push(content[r.below(sizeof content)]);
	};
	bool big = r.chance(1, 2);
	if (r.chance(1, 3)) {
		// any short text far from the beginning, and perhaps from the end
		static const uint8_t easy[] = { B_L, B_R, B_AL, B_AN };
		std::vector<cp_t> t;
		do {
			structured(ctx, t, false);
		} while (t.size() > 400);
		any(3);
		s.insert(s.end(), edge_count(r, true) + r.below(3), cls(r, easy[r.below(4)]));
		s.insert(s.end(), t.begin(), t.end());
		if (r.chance(1, 3))
			s.insert(s.end(), edge_count(r, true), cls(r, easy[r.below(4)]));
		any(3);
	} else if (r.chance(1, 2)) {
		// nesting: so many openers beyond the limits, then as many closers, text at some points in between
		static const uint8_t op[] = { B_LRE, B_RLE, B_LRO, B_RLO, B_LRI, B_RLI, B_FSI };
		uint32_t kinds = 1 + r.below(3);
		uint8_t th[3];
		bool fsi = r.chance(1, 4);
		for (auto &x : th)
			x = op[r.below(big ? 4 : fsi ? 7 : 6)];
		// very deep isolates: with text of their own direction only
		uint8_t own = big && r.chance(1, 3) ? r.chance(1, 2) ? B_L : B_R : B_N;
		if (own != B_N) {
			kinds = 1;
			th[0] = own == B_L ? B_LRI : B_RLI;
		}
		size_t n = edge_count(r, big) + (r.chance(3, 4) ? r.below(4) + 122 : 0);
		any(3);
		for (size_t i = 0; i < n; i++)
			push(th[r.below(kinds)]);
		if (own != B_N)
			push(own);
		else
			any(3);
		size_t m = r.chance(1, 4) ? edge_count(r, big) : n + 2;
		uint8_t close = own != B_N ? B_PDI : !big && (th[0] >= B_LRI) != r.chance(1, 5) ? B_PDI : B_PDF;
		bool mix = !big && r.chance(1, 4);
		size_t step = 1 + m / (4 + r.below(12));
		for (size_t i = 0; i < m; i++) {
			push(mix ? (r.chance(1, 2) ? B_PDI : B_PDF) : close);
			if (i % step == step / 2 || (i + 4 > n && r.chance(1, 2)) || (own != B_N && i < n && (n - i - 1) % 65536 == 0)) {
				if (own != B_N)
					push(own);
				else
					any(2);
			}
		}
		any(4);
		if (mix || r.chance(1, 2)) {
			for (size_t i = r.below(300); i > 0; i--)
				push(close == B_PDI ? B_PDF : B_PDI);
			any(4);
		}
	} else {
		static const uint8_t easy[] = { B_L, B_R, B_AL, B_AN, B_NSM, B_BN, B_PDF, B_LRE, B_RLO };
		static const uint8_t hard[] = { B_EN, B_ET, B_ES, B_CS, B_ON, B_WS, B_S, B_LRI, B_RLI, B_FSI, B_PDI };
		bool done = false;
		for (uint32_t k = 1 + r.below(4); k > 0; k--) {
			any(3);
			bool e = r.chance(1, 2);
			bool b = e && big && !done;
			done = done || b;
			size_t n = std::min<size_t>(edge_count(r, b), e ? 100000 : big ? 20 : 600);
			uint8_t c = e ? easy[r.below(sizeof easy)] : hard[r.below(sizeof hard)], c2 = r.chance(1, 3) ? easy[r.below(6)] : c;
			cp_t x = cls(r, c), y = cls(r, c2);
			bool vary = r.chance(1, 2);
			if (b) // what nonspacing marks follow is strong, they would be neutral otherwise
				push(r.chance(1, 2) ? B_L : B_R);
			for (size_t i = 0; i < n; i++) {
				if (vary)
					push(i & 1 ? c : c2);
				else
					s.push_back(i & 1 ? x : y);
			}
		}
		any(4);
	}
	if (r.chance(1, 8))
		push(B_B);
	if (s.empty())
		push(B_R);
}
static std::vector<cp_t> bidi_alpha()
{
	// one code point per class plus two kinds of brackets
	std::vector<cp_t> a;
	bool have[B_N] = { false };
	for (cp_t c = 0x20; c < NCP; c++)
		if (!have[U.bc[c]] && !U.btype[c]) {
			have[U.bc[c]] = true;
			a.push_back(c);
		}
	for (cp_t c = 0; c < 0x20; c++)
		if (!have[U.bc[c]]) {
			have[U.bc[c]] = true;
			a.push_back(c);
		}
	a.insert(a.end(), { '(', ')', '[', ']' });
	return a;
}
// small alphabets in which characters depend on each other: brackets, numbers, isolates, embeddings
static std::vector<std::vector<cp_t>> focus_bidi(const std::vector<cp_t> &a)
{
	std::vector<std::vector<cp_t>> v;
	auto add = [&](std::initializer_list<int> cl, std::initializer_list<cp_t> extra) {
		std::vector<cp_t> f;
		for (int b : cl)
			for (cp_t x : a)
				if (U.bc[x] == b && !U.btype[x]) {
					f.push_back(x);
					break;
				}
		f.insert(f.end(), extra);
		v.push_back(f);
	};
	bool br = std::find(a.begin(), a.end(), (cp_t)'(') != a.end();
	if (br) {
		add({ B_L, B_R }, { '(', ')' });
		add({ B_L, B_R, B_EN, B_AL, B_NSM }, { '(', ')', '[', ']' });
	}
	add({ B_L, B_R, B_AL, B_EN, B_AN, B_ET, B_CS }, {});
	add({ B_L, B_R, B_LRI, B_RLI, B_FSI, B_PDI }, {});
	add({ B_L, B_R, B_RLE, B_LRE, B_RLO, B_LRO, B_PDF }, {});
	add({ B_L, B_R, B_AL, B_B, B_S, B_WS }, {});
	return v;
}
static void gen_g15(Ctx &ctx)
{
	Case c;
	c.op = op_id("bidi-levels");
	std::vector<cp_t> a = bidi_alpha();
	int depth = ctx.thorough ? 5 : 4;
	if (ctx.worker == 0)
		for (int dir = 0; dir < 3; dir++) {
			c.p[0] = dir;
			c.in.clear();
			ctx.run(c);
		}
	for (int d = 1; d <= depth; d++)
		for (int dir = 0; dir < 3; dir++) {
			c.p[0] = dir;
			enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
		}
	// deeper over smaller alphabets: weak types, neutrals with brackets, explicit codes
	std::vector<std::vector<uint32_t>> sub;
	auto pick = [&](std::initializer_list<int> cl, std::initializer_list<uint32_t> extra) {
		std::vector<uint32_t> v;
		for (int b : cl)
			for (cp_t x : a)
				if (U.bc[x] == b && !U.btype[x]) {
					v.push_back(x);
					break;
				}
		for (uint32_t x : extra)
			v.push_back(x);
		sub.push_back(v);
	};
	pick({ B_L, B_R, B_AL, B_EN, B_AN, B_ET, B_ES, B_CS, B_NSM }, {});
	pick({ B_L, B_R, B_EN, B_NSM, B_BN, B_ON }, { '(', ')', '[' });
	pick({ B_L, B_R, B_WS, B_LRI, B_RLI, B_FSI, B_PDI, B_RLE, B_PDF }, {});
	pick({ B_R, B_L, B_LRO, B_RLO, B_PDF, B_PDI, B_RLI, B_NSM, B_AN }, {});
	pick({ B_AL, B_R, B_L, B_B, B_FSI, B_PDI, B_S, B_WS, B_EN }, {});
	for (auto &al : sub)
		for (int d = 5; d <= (ctx.thorough ? 7 : 5); d++)
			for (int dir = 0; dir < 3; dir++) {
				c.p[0] = dir;
				enumerate(ctx, al, d, c.in, [&] { ctx.run(c); });
			}
	uint64_t n = (ctx.thorough ? 8000000 : 400000) / ctx.nworkers;
	for (uint64_t i = 0; i < n; i++) {
		c.p[0] = ctx.rng.below(3);
		random_bidi(ctx, c.in, 400, 1);
		ctx.run(c);
	}
	for (uint64_t i = 0; i < (ctx.thorough ? 20000u : 900u); i++) {
		if (!ctx.mine(i))
			continue;
		c.p[0] = ctx.rng.below(3);
		long_bidi(ctx, c.in);
		ctx.run(c);
		ctx.count("long paragraphs (nesting, runs or short texts at offsets around 2^8 or 2^16)");
	}
	// z (a b)^n x y for all pairs of classes, n around the limits of the algorithm and the widths of small counters
	static const size_t periods[] = { 62, 63, 64, 125, 126, 127, 128, 254, 255, 256, 257 };
	size_t item = 0;
	for (cp_t x : a)
		for (cp_t y : a)
			for (size_t n : periods) {
				if (!ctx.mine(item++))
					continue;
				for (int k = ctx.thorough ? 6 : 1; k > 0; k--) {
					c.p[0] = ctx.rng.below(3);
					c.in.assign(1, a[ctx.rng.below((uint32_t)a.size())]);
					for (size_t i = 0; i < n; i++) {
						c.in.push_back(x);
						c.in.push_back(y);
					}
					for (uint32_t t = ctx.rng.below(5); t > 0; t--)
						c.in.push_back(ctx.rng.chance(1, 3) ? y : a[ctx.rng.below((uint32_t)a.size())]);
					ctx.run(c);
					ctx.count("units of two characters repeated 62 to 257 times");
				}
			}
	BidiRes m;
	for (int dir = 0; dir < 3; dir++) {
		auto eval = [&](const std::vector<cp_t> &s, std::vector<uint8_t> &sig) {
			oracle_bidi(s.data(), s.size(), dir, m);
			sig.assign(m.lev.begin(), m.lev.end());
			sig.resize(s.size(), 99);
			sig[0] = (uint8_t)(sig[0] + 100 * (m.para & 1));
		};
		auto len = [&](const std::vector<cp_t> &) { return log_length(ctx.rng, 6, ctx.rng.chance(1, 16) ? 13 : 12); };
		auto use = [&](const std::vector<cp_t> &s) {
			c.p[0] = dir;
			c.in = s;
			ctx.run(c);
		};
		gen_distance(ctx, a, ctx.thorough ? 150 : 30, ctx.thorough ? 60 : 10, ctx.thorough ? 1500 : 160, ctx.thorough ? 1000 : 100, eval, len, use, focus_bidi(a));
		gen_distance_pairs(ctx, a, ctx.thorough ? 400 : 20, (size_t)0, eval, len, use);
	}
	// every arrangement of up to four strong characters and brackets before or behind a long repetition of each class
	std::vector<cp_t> f = { 'a', 0x5D0, '(', ')' }, near, t;
	for (int d = 1; d <= 4; d++)
		enumerate(ctx, f, d, near, [&] {
			for (cp_t u : a)
				for (size_t z = 0; z <= f.size(); z++)
					for (int k = 0; k < 6; k++) {
						if (!ctx.thorough && d > 2 && !ctx.rng.chance(1, 2))
							continue;
						size_t l = log_length(ctx.rng, 6, ctx.thorough ? 12 : 11);
						t.clear();
						if (k & 1)
							t = near;
						else if (z < f.size())
							t.push_back(f[z]);
						t.insert(t.end(), l, u);
						if (!(k & 1))
							t.insert(t.end(), near.begin(), near.end());
						else if (z < f.size())
							t.push_back(f[z]);
						c.p[0] = k / 2;
						c.in = t;
						ctx.run(c);
						ctx.count("long repetitions between arrangements of brackets and strong characters");
					}
		});
}
static PropReg p15("G15", gen_g15,
                   "code point strings x requested direction: all strings over one code point per bidi class and two bracket pairs up to a depth, deeper ones over "
                   "smaller alphabets, units of two characters repeated 62 to 257 times, 64 to 8000 characters between characters whose levels depend on each other, random and structured ones (nesting beyond 125, more than 63 brackets, several paragraphs); direction and all levels "
                   "are compared with the model; non-trivial: some level differs from the paragraph level",
                   { R_P2, R_P3, R_X2_X5, R_X5a_c, R_XOVER, R_X6, R_X6a, R_X6aover, R_X7, R_X9, R_W1, R_W2, R_W3, R_W4, R_W5, R_W6, R_W7, R_N0b, R_N0c1,
                     R_N0c2, R_N0d, R_N0nsm, R_BD16over, R_N1, R_N2, R_I1, R_I2, R_L1_12, R_L1_3, R_BD13 });

static void gen_g16(Ctx &ctx)
{
	Case c;
	c.op = op_id("bidi-line");
	std::vector<cp_t> a = bidi_alpha();
	for (int d = 1; d <= (ctx.thorough ? 4 : 3); d++)
		for (int dir = 0; dir < 3; dir++)
			for (int x = 0; x < d; x++)
				for (int y = x + 1; y <= d; y++) {
					c.p[0] = dir;
					c.p[1] = x;
					c.p[2] = y;
					enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
				}
	uint64_t n = (ctx.thorough ? 8000000 : 500000) / ctx.nworkers;
	std::vector<cp_t> s;
	for (uint64_t i = 0; i < n;) {
		random_bidi(ctx, s, 200, 2);
		for (auto &x : s)
			if (x >= NCP)
				x = 0xFFFF;
		// mostly characters without a mirrored counterpart, so that the known deviation does not hide others
		if (ctx.rng.chance(2, 3))
			for (auto &x : s)
				if (U.mirror[x] != x)
					x = '!';
		for (int k = 0; k < 4; k++, i++) {
			c.in = s;
			c.p[0] = ctx.rng.below(3);
			c.p[1] = ctx.rng.chance(1, 3) ? 0 : ctx.rng.below((uint32_t)s.size() + 1);
			c.p[2] = ctx.rng.chance(1, 3) ? (int64_t)s.size() : ctx.rng.below((uint32_t)s.size() + 1);
			c.p[3] = ctx.rng.below(3);
			ctx.run(c);
		}
	}
	for (uint64_t i = 0; i < (ctx.thorough ? 8000u : 300u); i++) {
		if (!ctx.mine(i))
			continue;
		long_bidi(ctx, c.in);
		for (auto &x : c.in)
			if (U.mirror[x] != x)
				x = '!';
		c.p[0] = ctx.rng.below(3);
		c.p[1] = ctx.rng.chance(1, 2) ? 0 : ctx.rng.chance(1, 2) ? (int64_t)edge_count(ctx.rng, ctx.rng.chance(1, 2)) : ctx.rng.below((uint32_t)c.in.size());
		c.p[2] = ctx.rng.chance(2, 3) ? (int64_t)c.in.size() : ctx.rng.below((uint32_t)c.in.size() + 1);
		c.p[3] = ctx.rng.below(3);
		ctx.run(c);
		ctx.count("long paragraphs (nesting, runs or short texts at offsets around 2^8 or 2^16)");
	}
	// long repetitions between characters whose levels on the line depend on each other; the line is the paragraph or leaves
	// out a few characters at either end
	BidiRes m;
	std::vector<int8_t> lev;
	std::vector<cp_t> al = a;
	for (auto &x : al)
		if (U.mirror[x] != x)
			x = '!';
	for (int dir = 0; dir < 3; dir++)
		gen_distance(
			ctx, al, ctx.thorough ? 100 : 20, ctx.thorough ? 60 : 8, ctx.thorough ? 1000 : 100, ctx.thorough ? 800 : 60,
			[&](const std::vector<cp_t> &t, std::vector<uint8_t> &sig) {
				oracle_bidi(t.data(), t.size(), dir, m);
				oracle_line_levels(m, 0, m.len, lev);
				sig.assign(lev.begin(), lev.end());
				sig.resize(t.size(), 99);
			},
			[&](const std::vector<cp_t> &) { return log_length(ctx.rng, 6, ctx.rng.chance(1, 16) ? 13 : 12); },
			[&](const std::vector<cp_t> &t) {
				c.in = t;
				c.p[0] = dir;
				c.p[1] = ctx.rng.chance(1, 2) ? 0 : ctx.rng.below(4);
				c.p[2] = (int64_t)(t.size() - (ctx.rng.chance(1, 2) ? 0 : ctx.rng.below(4)));
				c.p[3] = ctx.rng.below(3);
				ctx.run(c);
			},
			focus_bidi(al));
}
static PropReg p16("G16", gen_g16,
                   "paragraph x direction x slice taken as a line (enumerated short ones, random and structured longer ones, long repetitions between dependent characters); the slice alone, flush with guard "
                   "pages, is given to the library; levels and reordered output are compared with L1, L2 and L4 of the model; non-trivial: some level above 0",
                   { R_L1_4, R_L2, R_L4 });
static void gen_g17(Ctx &ctx)
{
	Case c;
	c.op = op_id("bidi-contract");
	std::vector<cp_t> a = bidi_alpha();
	if (ctx.worker == 0) {
		c.in.clear();
		ctx.run(c);
	}
	for (int d = 1; d <= (ctx.thorough ? 4 : 3); d++) {
		c.p[0] = d % 3;
		enumerate(ctx, a, d, c.in, [&] { ctx.run(c); });
	}
	uint64_t n = (ctx.thorough ? 1500000 : 100000) / ctx.nworkers;
	for (uint64_t i = 0; i < n; i++) {
		c.p[0] = ctx.rng.below(3);
		c.p[1] = ctx.rng.below(1000);
		random_bidi(ctx, c.in, 90, 1);
		if (c.in.size() > 300 && !ctx.rng.chance(1, 8))
			c.in.resize(300);
		ctx.run(c);
	}
	for (uint64_t i = 0; i < (ctx.thorough ? 2000u : 80u); i++) {
		if (!ctx.mine(i))
			continue;
		c.p[0] = ctx.rng.below(3);
		c.p[1] = ctx.rng.below(1000);
		long_bidi(ctx, c.in);
		ctx.run(c);
		ctx.count("long paragraphs (nesting, runs or short texts at offsets around 2^8 or 2^16)");
	}
	c = Case();
	c.op = op_id("bidi-huge-buffers");
	for (uint64_t i = 0; i < (ctx.thorough ? 80000u : 8000u) / ctx.nworkers; i++) {
		c.p[0] = ctx.rng.below(3);
		c.p[1] = (int64_t)huge_count(ctx.rng);
		random_bidi(ctx, c.in, 60, 2);
		if (c.in.size() > 300)
			c.in.resize(300);
		ctx.run(c);
		ctx.count("lengths and capacities around 2^16, 2^31, 2^32 and 2^33");
	}
}
static PropReg p17("G17", gen_g17,
                   "paragraphs x direction; each is preprocessed into NULL and ten capacities with different previous contents, levels and reordering are "
                   "retrieved with every capacity from 0 to beyond the need; canaries and guard pages around every buffer; non-trivial: not empty", {});
