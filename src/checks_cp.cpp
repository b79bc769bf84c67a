// G19 (and, with other data, G20): every code point behaves as its properties say.
// The context strings are chosen at run time from the model: small sets under which the model itself tells
// apart every two classes that it can tell apart at all.
#include "gen.hpp"
#include <algorithm>
#include <unistd.h>
#include <map>

typedef size_t (*next_fn)(const uint_least32_t *, size_t);
static const next_fn NEXT[4] = { grapheme_next_character_break, grapheme_next_word_break, grapheme_next_sentence_break,
	grapheme_next_line_break };
static const char *const SEGNAME[4] = { "character", "word", "sentence", "line" };
typedef enum grapheme_bidirectional_direction Dir;

struct Probe {
	std::vector<cp_t> s;
	size_t pos; // where the code point under test goes
	int dir;    // bidi only
};
struct Probes {
	std::vector<Probe> p;
	std::vector<std::vector<uint64_t>> expect; // [kind][probe]
	std::vector<uint16_t> kind;                // of every code point
	size_t unresolved = 0;                     // pairs of kinds no candidate tells apart
};
static Probes PR[5]; // four segmentations, bidi

static uint64_t pack(const Bounds &b, size_t n)
{
	uint64_t m = 0;
	for (size_t i = 1; i < n; i++)
		m |= (uint64_t)(b[i] != 0) << i;
	return m;
}
static uint64_t pack_levels(const std::vector<int8_t> &l)
{
	uint64_t h = 1;
	for (int8_t x : l)
		h = h * 131 + (uint8_t)(x + 2);
	return h;
}
static uint64_t model(int f, const Probe &p, cp_t c)
{
	static std::vector<cp_t> s;
	static Bounds b;
	s = p.s;
	s[p.pos] = c;
	if (f < 4) {
		oracle_seg[f](s.data(), s.size(), b);
		return pack(b, s.size());
	}
	static BidiRes r;
	static std::vector<int8_t> l;
	oracle_bidi(s.data(), s.size(), p.dir, r);
	oracle_line_levels(r, 0, r.len, l);
	return pack_levels(l) * 2 + (uint64_t)r.para;
}
static uint64_t library(int f, const Probe &p, cp_t c)
{
	cp_t s[16];
	size_t n = p.s.size();
	std::copy(p.s.begin(), p.s.end(), s);
	s[p.pos] = c;
	if (f < 4) {
		uint64_t m = 0;
		for (size_t o = 0; o < n;) {
			size_t r = NEXT[f](s + o, n - o);
			if (r == 0 || r > n - o)
				return ~0ull;
			o += r;
			if (o < n)
				m |= 1ull << o;
		}
		return m;
	}
	cp_t d[16];
	int_least8_t l[16];
	Dir res;
	size_t r = grapheme_bidirectional_preprocess_paragraph(s, n, (Dir)p.dir, d, 16, &res);
	if (r > n)
		return ~0ull;
	grapheme_bidirectional_get_line_embedding_levels(d, r, l, r);
	static std::vector<int8_t> v;
	v.assign(l, l + r);
	return pack_levels(v) * 2 + (res == GRAPHEME_BIDIRECTIONAL_DIRECTION_RTL);
}

static void prepare(int f, bool thorough)
{
	Probes &P = PR[f];
	if (!P.p.empty())
		return;
	const Kinds &K = f < 4 ? K_seg[f] : K_bidi;
	size_t n = K.size();
	P.kind.assign(NCP, 0);
	for (size_t k = 0; k < n; k++)
		for (cp_t c : K.cps[k])
			P.kind[c] = (uint16_t)k;
	// contexts: representatives of all kinds (without brackets for bidi, their identity would matter)
	std::vector<cp_t> R;
	for (size_t k = 0; k < n; k++)
		if (f < 4 || !U.btype[K.rep(k)])
			R.push_back(K.rep(k));
	std::vector<Probe> cand;
	int dirs = f < 4 ? 1 : 3;
	auto add = [&](std::vector<cp_t> s, size_t pos) {
		for (int d = 0; d < dirs; d++)
			cand.push_back({ s, pos, d });
	};
	add({ 0 }, 0);
	for (cp_t a : R) {
		add({ a, 0 }, 1);
		add({ 0, a }, 0);
	}
	size_t fixed = cand.size(); // these are always used
	for (cp_t a : R)
		for (cp_t b : R) {
			add({ a, 0, b }, 1);
			add({ a, b, 0 }, 2);
			add({ 0, a, b }, 0);
		}
	size_t triples = cand.size();
	Rng r(f + 1);
	for (int i = 0; i < 6000; i++) {
		size_t len = 4 + r.below(4);
		std::vector<cp_t> s;
		for (size_t j = 0; j < len; j++)
			s.push_back(r.pick(R));
		size_t pos = r.below((uint32_t)len);
		s[pos] = 0;
		cand.push_back({ s, pos, (int)r.below((uint32_t)dirs) });
	}
	// signatures
	std::vector<std::vector<uint64_t>> sig(cand.size(), std::vector<uint64_t>(n));
	for (size_t i = 0; i < cand.size(); i++)
		for (size_t k = 0; k < n; k++)
			sig[i][k] = model(f, cand[i], K.rep(k));
	std::vector<uint8_t> told(n * n, 0);
	const int WANT = thorough ? 12 : 4;
	auto take = [&](size_t i) {
		for (size_t a = 0; a < n; a++)
			for (size_t b = a + 1; b < n; b++)
				if (sig[i][a] != sig[i][b] && told[a * n + b] < 200)
					told[a * n + b]++;
		P.p.push_back(cand[i]);
	};
	std::vector<uint8_t> used(cand.size(), 0);
	for (size_t i = 0; i < fixed || (thorough && i < triples); i++) {
		used[i] = 1;
		take(i);
	}
	for (;;) {
		size_t best = 0, bi = 0;
		for (size_t i = 0; i < cand.size(); i++) {
			if (used[i])
				continue;
			size_t g = 0;
			for (size_t a = 0; a < n; a++)
				for (size_t b = a + 1; b < n; b++)
					if (told[a * n + b] < WANT && sig[i][a] != sig[i][b])
						g++;
			if (g > best) {
				best = g;
				bi = i;
			}
		}
		if (best == 0)
			break;
		used[bi] = 1;
		take(bi);
	}
	P.unresolved = 0;
	for (size_t a = 0; a < n; a++)
		for (size_t b = a + 1; b < n; b++)
			if (!told[a * n + b])
				P.unresolved++;
	P.expect.resize(n);
	for (size_t k = 0; k < n; k++)
		for (auto &p : P.p)
			P.expect[k].push_back(model(f, p, K.rep(k)));
}

static std::string kind_name(int f, cp_t c)
{
	if (c >= NCP)
		return "beyond U+10FFFF";
	const Kinds &K = f < 4 ? K_seg[f] : K_bidi;
	return K.name[PR[f].kind[c]];
}
static void op_class(const Case &c, Verdict &v)
{
	int f = (int)c.p[0];
	cp_t x = c.in.empty() ? 0 : c.in[0];
	prepare(f, c.p[1]);
	Probes &P = PR[f];
	for (size_t i = 0; i < P.p.size(); i++) {
		uint64_t e = x < NCP ? P.expect[P.kind[x]][i] : model(f, P.p[i], x), g = library(f, P.p[i], x);
		if (e == g)
			continue;
		std::vector<cp_t> s = P.p[i].s;
		s[P.p[i].pos] = x;
		// which class does it behave as?
		std::string as;
		for (size_t k = 0; k < P.expect.size(); k++) {
			bool all = true;
			for (size_t j = 0; all && j < P.p.size(); j++)
				all = P.expect[k][j] == library(f, P.p[j], x);
			if (all)
				as += " " + (f < 4 ? K_seg[f] : K_bidi).name[k];
		}
		v.fail(f < 4 ? "break-class" : "bidi-class",
		       fmt("U+%04X is %s, but in the %s context [%s]%s the library does not treat it so%s%s", x, kind_name(f, x).c_str(),
		           f < 4 ? SEGNAME[f] : "bidi", hex(s).c_str(), f == 4 ? P.p[i].dir == 0 ? " (auto)" : P.p[i].dir == 1 ? " (ltr)" : " (rtl)" : "",
		           as.empty() ? "" : "; it behaves as", as.c_str()));
		return;
	}
	if (f == 0)
		for (cp_t k : reps(K_seg[0])) {
			cp_t s[2] = { x, k }, t[2] = { k, x };
			Bounds b;
			oracle_character(s, 2, b);
			bool e = b[1];
			oracle_character(t, 2, b);
			if (grapheme_is_character_break(x, k, nullptr) != e || grapheme_is_character_break(k, x, nullptr) != (bool)b[1]) {
				v.fail("break-class", fmt("U+%04X: grapheme_is_character_break with U+%04X is wrong", x, k));
				return;
			}
		}
	v.trivial = x < NCP && P.kind[x] == P.kind[0x10FFFD];
}
static OpReg r_class("code-point-class", op_class, false);

// case: mappings and casedness
static void op_cpcase(const Case &c, Verdict &v)
{
	typedef size_t (*to_fn)(const uint_least32_t *, size_t, uint_least32_t *, size_t);
	typedef bool (*is_fn)(const uint_least32_t *, size_t, size_t *);
	static const to_fn TO[3] = { grapheme_to_lowercase, grapheme_to_uppercase, grapheme_to_titlecase };
	static const is_fn IS[3] = { grapheme_is_lowercase, grapheme_is_uppercase, grapheme_is_titlecase };
	static const char *const CN[3] = { "lower", "upper", "title" };
	cp_t x = c.in.empty() ? 0 : c.in[0];
	static std::vector<cp_t> e;
	static std::vector<size_t> idx;
	const cp_t S = 0x3A3;
	cp_t strs[8][5] = { { x }, { 'A', S, x }, { x, S }, { 'A', x, S }, { 'A', S, x, 'A' }, { x, 'A' }, { 'A', x, 'A' }, { x, x, '.', S, x } };
	static const size_t lens[8] = { 1, 3, 2, 3, 4, 2, 3, 5 };
	v.trivial = true;
	for (int i = 0; i < 8; i++)
		for (int w = 0; w < 3; w++) {
			if (w == 1 && i > 0)
				continue; // no context
			cp_t d[64];
			oracle_case(strs[i], lens[i], w, e, idx);
			size_t r = TO[w](strs[i], lens[i], d, 64);
			bool same = r == e.size() && r < 64;
			for (size_t j = 0; same && j < r; j++)
				same = d[j] == e[j];
			std::vector<cp_t> in(strs[i], strs[i] + lens[i]);
			if (!same) {
				std::vector<cp_t> g(d, d + std::min<size_t>(r, 64));
				v.fail(i == 0 ? "mapping" : "casedness", fmt("U+%04X (%s%s): to_%scase of [%s] gives [%s], expected [%s]", x, U.is_cased(x) ? "Cased " : "",
				                                             U.is_ign(x) ? "Case_Ignorable" : "", CN[w], hex(in).c_str(), hex(g).c_str(), hex(e).c_str()));
				return;
			}
			if (IS[w](strs[i], lens[i], nullptr) != (e == in)) {
				v.fail("check", fmt("U+%04X: is_%scase of [%s] is %d", x, CN[w], hex(in).c_str(), e != in));
				return;
			}
			if (i == 0 && e != in)
				v.trivial = false;
		}
	if (U.is_cased(x) || U.is_ign(x))
		v.trivial = false;
}
static OpReg r_cpcase("code-point-case", op_cpcase, false);

// brackets and mirroring
static void op_bracket(const Case &c, Verdict &v)
{
	cp_t x = c.in.empty() ? 0 : c.in[0];
	static std::vector<cp_t> open, close;
	static cp_t R, L, RLO;
	if (!RLO) {
		for (cp_t i = 0; i < NCP; i++)
			if (U.btype[i] && U.canon[i] == i && U.bc[i] == B_ON)
				(U.btype[i] == 1 ? open : close).push_back(i);
		R = K_bidi.rep((size_t)std::max(0, K_bidi.find("R")));
		L = 'a';
		RLO = rep_of(K_bidi, "RLO");
	}
	static std::vector<cp_t> s;
	static BidiRes e;
	static std::vector<int8_t> want, got;
	v.trivial = x >= NCP || (U.btype[x] == 0 && U.mirror[x] == x);
	auto levels = [&](int dir) {
		oracle_bidi(s.data(), s.size(), dir, e);
		oracle_line_levels(e, 0, e.len, want);
		static std::vector<cp_t> d;
		d.assign(s.size(), 0);
		size_t r = grapheme_bidirectional_preprocess_paragraph(s.data(), s.size(), (Dir)dir, d.data(), d.size(), nullptr);
		if (r != e.len) {
			v.fail("bracket", fmt("U+%04X: paragraph length %zu instead of %zu", x, r, e.len));
			return false;
		}
		got.assign(r, 0);
		grapheme_bidirectional_get_line_embedding_levels(d.data(), r, got.data(), r);
		if (got != want) {
			size_t k = 0;
			while (got[k] == want[k])
				k++;
			v.fail("bracket", fmt("U+%04X (%s, pair U+%04X, canonical U+%04X): level %d instead of %d at %zu of [%s]", x,
			                      U.bt(x) == 1 ? "opening" : U.bt(x) == 2 ? "closing" : "no bracket", x < NCP ? U.bpair[x] : x, U.bcanon(x), got[k],
			                      want[k], k, hex(s, 200).c_str()));
			return false;
		}
		return true;
	};
	// as an opening bracket before every closing one, and the reverse; in parts, for the limit of 63
	for (int rev = 0; rev < 2; rev++) {
		const auto &other = rev ? open : close;
		size_t step = c.p[1] ? 1 : 24;
		for (size_t a = 0; a < other.size(); a += step) {
			s.clear();
			s.push_back(R);
			if (!rev)
				s.insert(s.end(), { x, R, L });
			for (size_t i = a; i < other.size() && i < a + step; i++)
				s.push_back(other[i]);
			if (rev)
				s.insert(s.end(), { L, R, x });
			s.push_back(R);
			if (!levels(c.p[1] ? 1 : (int)(a / step % 2) + 1))
				return;
		}
	}
	if (x >= NCP)
		return;
	// mirroring at an odd level
	s = { RLO, x, RLO };
	static std::vector<cp_t> ro, d;
	for (int dir = 1; dir < 3; dir++) {
		oracle_bidi(s.data(), s.size(), dir, e);
		d.assign(s.size(), 0);
		size_t r = grapheme_bidirectional_preprocess_paragraph(s.data(), s.size(), (Dir)dir, d.data(), d.size(), nullptr);
		if (r != e.len) {
			v.fail("mirror", "paragraph length");
			return;
		}
		oracle_line_levels(e, 0, e.len, want);
		oracle_reorder(s.data(), e, 0, e.len, false, ro);
		cp_t o[8];
		size_t m = grapheme_bidirectional_reorder_line(s.data(), d.data(), r, o, 8);
		if (m > 8 || std::vector<cp_t>(o, o + m) != ro) {
			bool odd = want[1] % 2 == 1;
			// replacement at even levels is the known deviation of G16
			oracle_reorder(s.data(), e, 0, e.len, true, ro);
			if (odd || m > 8 || std::vector<cp_t>(o, o + m) != ro) {
				v.fail("mirror", fmt("U+%04X (mirror U+%04X): reordering [%s] gives [%s], expected [%s]", x, U.mir(x), hex(s).c_str(),
				                     hex(std::vector<cp_t>(o, o + std::min<size_t>(m, 8))).c_str(), hex(ro).c_str()));
				return;
			}
		}
	}
}
static OpReg r_bracket("code-point-bracket", op_bracket, false);

extern std::string ucd_dir;
static void gen_cp(Ctx &ctx, bool all)
{
	for (int f = 0; f < 5; f++)
		prepare(f, ctx.thorough);
	if (ctx.worker == 0) {
		static const char *const pn[5] = { "probes_character", "probes_word", "probes_sentence", "probes_line", "probes_bidi" };
		static const char *const un[5] = { "class_pairs_no_probe_separates_character", "class_pairs_no_probe_separates_word",
			"class_pairs_no_probe_separates_sentence", "class_pairs_no_probe_separates_line", "class_pairs_no_probe_separates_bidi" };
		for (int f = 0; f < 5; f++) {
			ctx.count(pn[f], PR[f].p.size());
			ctx.count(un[f], PR[f].unresolved);
		}
	}
	std::vector<cp_t> beyond = { 0x110000, 0x110001, 0x11FFFF, 0x120000, 0x1FFFFF, 0x200000, 0x200041, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFE,
		0xFFFFFFFF };
	for (int i = 0; i < 40; i++) // values that alias real code points when truncated
		for (cp_t b : { 0x3A3u, 0x28u, 0x5D0u, 0x300u, 0x2Eu, 0x1F600u, 0x202Eu, 0xAC00u })
			beyond.push_back(b + (cp_t)(i < 11 ? 0x110000ull << i : i < 22 ? 1ull << (21 + i - 11) : 0x110000ull + ctx.rng.next() % 0xFFE00000ull));
	Case c;
	c.in.resize(1);
	c.p[1] = ctx.thorough;
	const size_t BLOCK = 256;
	auto one = [&](cp_t x) {
		c.in[0] = x;
		c.op = op_id("code-point-class");
		for (int f = 0; f < 5; f++) {
			c.p[0] = f;
			ctx.run(c);
		}
		c.p[0] = 0;
		c.op = op_id("code-point-case");
		ctx.run(c);
		c.op = op_id("code-point-bracket");
		// one bracket at a time where it matters or in a sample, groups of them elsewhere
		c.p[1] = ctx.thorough && (x >= NCP || U.btype[x] || x % 64 == 0);
		ctx.run(c);
		c.p[1] = ctx.thorough;
	};
	// code points to look at: all, or the changed ones, both sides of every border and a sample
	std::vector<uint8_t> want;
	if (!all) {
		want.assign(NCP, 0);
		FILE *f = fopen((ucd_dir + "/changed.txt").c_str(), "r");
		unsigned x;
		std::vector<cp_t> ch;
		while (f && fscanf(f, "%X", &x) == 1)
			if (x < NCP)
				ch.push_back(x);
		if (f)
			fclose(f);
		Rng r(ctx.seed * 77 + 5); // the same in every worker
		size_t limit = ctx.thorough ? 400000 : 60000;
		for (cp_t q : ch)
			if (ch.size() <= limit || r.below((uint32_t)ch.size()) < limit)
				want[q] = 1;
		size_t borders = 0;
		bool only = access((ucd_dir + "/changed-only").c_str(), F_OK) == 0;
		for (cp_t q = 1; q < NCP && !only; q++) {
			bool diff = false;
			for (int k = 0; k < 5; k++)
				diff = diff || PR[k].kind[q] != PR[k].kind[q - 1];
			diff = diff || U.map_of(0, q) || U.map_of(1, q) || U.map_of(2, q) || U.cased[q] != U.cased[q - 1] || U.ignorable[q] != U.ignorable[q - 1] ||
			       U.mirror[q] != q || U.btype[q];
			if (!diff)
				continue;
			borders++;
			if (ctx.thorough || r.chance(1, 2) || U.btype[q] || U.mirror[q] != q)
				want[q - 1] = want[q] = 1;
		}
		for (cp_t q = 0; q < NCP && !only; q++)
			if (r.below(ctx.thorough ? 8 : 64) == 0)
				want[q] = 1;
		if (ctx.worker == 0) {
			ctx.count("changed_code_points", ch.size());
			ctx.count("borders", borders);
		}
	}
	for (cp_t b = 0; b < NCP; b += BLOCK)
		if (ctx.mine(b / BLOCK))
			for (cp_t x = b; x < b + BLOCK; x++)
				if (all || want[x])
					one(x);
	for (size_t i = 0; i < beyond.size(); i++)
		if (beyond[i] >= NCP && ctx.mine(i))
			one(beyond[i]);
	// brackets: every one against each other one singly
	c.op = op_id("code-point-bracket");
	c.p[1] = 1;
	for (cp_t x = 0; x < NCP; x++)
		if (U.btype[x] && ctx.mine(x)) {
			c.in[0] = x;
			ctx.run(c);
		}
}
static PropReg p19("G19", [](Ctx &c) { gen_cp(c, true); },
                   "code point x facet (four break classes, bidi class, case mappings and casedness, brackets and mirroring): all 0x110000 code points and sampled "
                   "larger values, each inside a set of context strings under which the model separates all classes it can separate; non-trivial: the code point "
                   "has a property different from the default", {});
static PropReg p20("G20", [](Ctx &c) { gen_cp(c, false); },
                   "variation of the data files x code point x facet: a library generated and built from each variation is examined like in G19 for the changed code "
                   "points, both sides of borders between properties and a sample; generators also run twice and under ASan and UBSan; non-trivial: the code point "
                   "has a property different from the default", {});
