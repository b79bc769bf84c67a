// Workload generators shared by the checks.
#pragma once
#include "mon.hpp"
#include <unistd.h>

// a random string over kinds: themes of few kinds, runs, random members
inline void random_string(const Kinds &K, Rng &r, size_t maxlen, std::vector<cp_t> &out, int wild = 1)
{
	out.clear();
	size_t len;
	uint32_t t = r.below(100);
	if (t < 55)
		len = 1 + r.below(12);
	else if (t < 85)
		len = 8 + r.below(40);
	else if (t < 97)
		len = 40 + r.below(260);
	else
		len = 300 + r.below(1200);
	if (len > maxlen)
		len = 1 + r.below((uint32_t)maxlen);
	size_t theme[8], nt = 2 + r.below(7);
	bool all = r.chance(1, 4);
	for (size_t i = 0; i < nt && i < 8; i++)
		theme[i] = r.below((uint32_t)K.size());
	if (nt > 8)
		nt = 8;
	cp_t fixed[8];
	for (size_t i = 0; i < nt; i++)
		fixed[i] = K.any(theme[i], r);
	while (out.size() < len) {
		size_t i = r.below((uint32_t)nt);
		size_t k = all ? r.below((uint32_t)K.size()) : theme[i];
		size_t run = 1;
		uint32_t q = r.below(64);
		if (q == 0)
			run = 2 + r.below(300);
		else if (q < 8)
			run = 2 + r.below(5);
		for (size_t j = 0; j < run && out.size() < len; j++) {
			cp_t c = (!all && r.chance(1, 2)) ? fixed[i] : K.any(k, r);
			if (wild && r.chance(1, 200))
				c = wild == 1 ? (r.chance(1, 2) ? 0x110000 + r.below(0x100) : (cp_t)r.next()) : r.below(NCP);
			out.push_back(c);
		}
	}
}

// all strings of the given depth over the alphabet, partitioned over the workers
template <class F> void enumerate(Ctx &ctx, const std::vector<cp_t> &alpha, size_t depth, std::vector<cp_t> &s, F f)
{
	size_t n = alpha.size(), outer = 1, od = depth < 3 ? depth : 3;
	for (size_t i = 0; i < od; i++)
		outer *= n;
	s.resize(depth);
	std::vector<size_t> idx(depth, 0);
	for (size_t o = 0; o < outer; o++) {
		if (!ctx.mine(o))
			continue;
		size_t x = o;
		for (size_t i = 0; i < od; i++) {
			s[i] = alpha[x % n];
			x /= n;
		}
		for (size_t i = od; i < depth; i++) {
			idx[i] = 0;
			s[i] = alpha[0];
		}
		for (;;) {
			f();
			size_t i = depth;
			while (i > od && ++idx[i - 1] == n) {
				idx[i - 1] = 0;
				s[i - 1] = alpha[0];
				i--;
			}
			if (i == od)
				break;
			s[i - 1] = alpha[idx[i - 1]];
		}
	}
}
inline std::vector<cp_t> reps(const Kinds &K, Rng *r = nullptr)
{
	std::vector<cp_t> v;
	for (size_t k = 0; k < K.size(); k++)
		v.push_back(r ? K.any(k, *r) : K.rep(k));
	return v;
}
inline cp_t rep_of(const Kinds &K, const char *name)
{
	int i = K.find(name);
	if (i < 0) {
		fprintf(stderr, "no kind %s\n", name);
		_exit(2);
	}
	return K.rep((size_t)i);
}
inline std::vector<cp_t> reps_named(const Kinds &K, std::initializer_list<const char *> names)
{
	std::vector<cp_t> v;
	for (auto n : names)
		v.push_back(rep_of(K, n));
	return v;
}

// Decisions that depend on something far away.  prefix (unit)^n suffix: on a short repetition the model (eval: one value
// per element, how it is decided there) tells which suffixes change decisions before them and which prefixes change
// decisions at the suffix; those combinations are handed to use with long repetitions, so a limit on how far the library
// looks or remembers shows.  A: the alphabet; per: long repetitions per one-character unit; pairs: units of two
// characters; maxlen(n): a length in elements
template <class Eval, class Len, class Use>
void gen_distance(Ctx &ctx, const std::vector<cp_t> &A, size_t wide, int per, size_t pairs, int near, Eval eval, Len len, Use use,
                  const std::vector<std::vector<cp_t>> &focus = {})
{
	typedef std::vector<cp_t> S;
	size_t n = A.size(), item = 0;
	std::vector<uint8_t> sig;
	for (size_t q = 0; q < n + pairs; q++) {
		S unit = { A[q < n ? q : ctx.rng.below((uint32_t)n)] };
		if (q >= n)
			unit.push_back(A[ctx.rng.below((uint32_t)n)]);
		if (!ctx.mine(item++))
			continue;
		std::vector<S> pre, suf;
		for (cp_t a : A) {
			pre.push_back({ a });
			suf.push_back({ a });
		}
		for (size_t i = 0; i < wide; i++) {
			pre.push_back({ A[ctx.rng.below((uint32_t)n)], A[ctx.rng.below((uint32_t)n)] });
			suf.push_back({ A[ctx.rng.below((uint32_t)n)], A[ctx.rng.below((uint32_t)n)] });
		}
		pre.push_back({});
		S s;
		std::vector<std::pair<size_t, size_t>> ahead, behind;
		std::vector<std::vector<uint8_t>> tail(pre.size() * suf.size());
		for (size_t a = 0; a < pre.size(); a++) {
			std::vector<std::pair<std::vector<uint8_t>, std::vector<size_t>>> groups;
			for (size_t d = 0; d < suf.size(); d++) {
				s = pre[a];
				for (int k = 0; k < 4; k++)
					s.push_back(unit[(size_t)k % unit.size()]);
				size_t cut = s.size();
				s.insert(s.end(), suf[d].begin(), suf[d].end());
				eval(s, sig);
				tail[a * suf.size() + d].assign(sig.begin() + (ptrdiff_t)cut, sig.end());
				sig.resize(cut);
				size_t g = 0;
				while (g < groups.size() && groups[g].first != sig)
					g++;
				if (g == groups.size())
					groups.push_back({ sig, {} });
				groups[g].second.push_back(d);
			}
			if (groups.size() > 1)
				for (auto &g : groups)
					for (int k = 0; k < 2; k++)
						ahead.push_back({ a, ctx.rng.pick(g.second) });
		}
		for (size_t d = 0; d < suf.size(); d++) {
			std::vector<std::pair<std::vector<uint8_t>, std::vector<size_t>>> groups;
			for (size_t a = 0; a < pre.size(); a++) {
				auto &t = tail[a * suf.size() + d];
				size_t g = 0;
				while (g < groups.size() && groups[g].first != t)
					g++;
				if (g == groups.size())
					groups.push_back({ t, {} });
				groups[g].second.push_back(a);
			}
			if (groups.size() > 1)
				for (auto &g : groups)
					for (int k = 0; k < 2; k++)
						behind.push_back({ ctx.rng.pick(g.second), d });
		}
		ctx.count("units across which decisions depend on what follows", !ahead.empty());
		ctx.count("units across which decisions depend on what precedes", !behind.empty());
		for (int k = 0; k < (q < n ? per : per / 10 + 1); k++)
			for (auto *v : { &ahead, &behind }) {
				if (v->empty())
					continue;
				auto &x = ctx.rng.pick(*v);
				s = pre[x.first];
				size_t l = len(unit);
				for (size_t i = 0; i < l; i++)
					s.push_back(unit[i % unit.size()]);
				s.insert(s.end(), suf[x.second].begin(), suf[x.second].end());
				use(s);
				ctx.count("long repetitions between dependent characters");
			}
		// wider surroundings: one character on one side changes a decision on the other
		std::vector<uint8_t> sig2;
		int limit = q < n ? near : near / 10 + 1;
		std::vector<int> found(2 * (focus.size() + 1), 0);
		for (int k = 0; k < near * 60; k++) {
			size_t w = ctx.rng.below((uint32_t)focus.size() + 1);
			const S &B = w ? focus[w - 1] : A;
			bool far = ctx.rng.chance(1, 2);
			if (found[2 * w + far] * 2 * (int)(focus.size() + 1) >= limit)
				continue;
			S p(ctx.rng.below(5)), f(ctx.rng.below(5));
			for (auto &x : p)
				x = B[ctx.rng.below((uint32_t)B.size())];
			for (auto &x : f)
				x = B[ctx.rng.below((uint32_t)B.size())];
			bool left = ctx.rng.chance(1, 2);
			S &v = left ? p : f;
			if (v.empty() || (left ? f : p).empty())
				continue;
			// in a third of them something stands between two such repetitions
			S g, u2;
			bool two = ctx.rng.chance(1, 3);
			if (two) {
				g.resize(1 + ctx.rng.below(2));
				for (auto &x : g)
					x = B[ctx.rng.below((uint32_t)B.size())];
				u2 = { A[ctx.rng.below((uint32_t)n)] };
			}
			auto build = [&](size_t l, size_t l2) {
				s = p;
				for (size_t i = 0; i < l; i++)
					s.push_back(unit[i % unit.size()]);
				s.insert(s.end(), g.begin(), g.end());
				for (size_t i = 0; two && i < l2; i++)
					s.push_back(u2[0]);
				s.insert(s.end(), f.begin(), f.end());
			};
			size_t at = ctx.rng.below((uint32_t)v.size()), mid = two ? 8 + g.size() : 4;
			cp_t was = v[at], now = B[ctx.rng.below((uint32_t)B.size())];
			build(4, 4);
			eval(s, sig);
			v[at] = now;
			build(4, 4);
			eval(s, sig2);
			size_t from = left ? p.size() + (far ? mid : 0) : 0, to = left ? s.size() : p.size() + (far ? 0 : mid);
			if (std::equal(sig.begin() + (ptrdiff_t)from, sig.begin() + (ptrdiff_t)to, sig2.begin() + (ptrdiff_t)from))
				continue;
			found[2 * w + far]++;
			size_t l = len(unit), l2 = two ? len(u2) : 0;
			if (two && ctx.rng.chance(1, 2)) // one of them short
				(ctx.rng.chance(1, 2) ? l : l2) = ctx.rng.below(6);
			build(l, l2);
			use(s);
			v[at] = was;
			build(l, l2);
			use(s);
			if (two)
				ctx.count("two long repetitions between dependent surroundings", 2);
			ctx.count("long repetitions between dependent surroundings", 2);
		}
	}
}
// every pair of characters on one side of a long repetition and every single one on the other: where the pair depends on
// the single one (or the other way round) differently than its inner character alone would, long repetitions are tried
template <class Eval, class Len, class Use>
void gen_distance_pairs(Ctx &ctx, const std::vector<cp_t> &A, int per, size_t most, Eval eval, Len len, Use use)
{
	typedef std::vector<cp_t> S;
	typedef std::vector<uint8_t> Sig;
	size_t n = A.size(), item = 0;
	// v[i] = number of the group of equal signatures that i belongs to
	auto classes = [](const std::vector<Sig> &g, std::vector<size_t> &v) {
		std::vector<size_t> first;
		v.assign(g.size(), 0);
		for (size_t i = 0; i < g.size(); i++) {
			size_t k = 0;
			while (k < first.size() && g[first[k]] != g[i])
				k++;
			if (k == first.size())
				first.push_back(i);
			v[i] = k;
		}
		return first.size();
	};
	for (cp_t u : A) {
		if (!ctx.mine(item++))
			continue;
		struct Found {
			bool ahead;
			cp_t x, y;
			std::vector<size_t> v;
			size_t groups;
		};
		std::vector<Found> found;
		std::vector<Sig> g(n);
		std::vector<size_t> v, v0;
		S s;
		for (int ahead = 0; ahead < 2; ahead++)
			for (cp_t y : A) {
				auto part = [&](const S &near, std::vector<size_t> &out) {
					for (size_t z = 0; z < n; z++) {
						s.clear();
						if (ahead)
							s = near;
						else
							s.push_back(A[z]);
						s.insert(s.end(), 4, u);
						if (ahead)
							s.push_back(A[z]);
						else
							s.insert(s.end(), near.begin(), near.end());
						eval(s, g[z]);
						if (ahead)
							g[z].resize(s.size() - 1);
						else
							g[z].erase(g[z].begin(), g[z].begin() + 5);
					}
					return classes(g, out);
				};
				part({ y }, v0);
				for (cp_t x : A) {
					size_t k = part(ahead ? S{ x, y } : S{ y, x }, v);
					if (k > 1 && v != v0)
						found.push_back({ ahead == 1, x, y, v, k });
				}
			}
		ctx.count("pairs of characters that depend on what stands beyond a repetition", found.size());
		for (size_t i = 0; i < found.size(); i++) {
			if ((int)found.size() > per && !ctx.rng.chance((uint32_t)per, (uint32_t)found.size()))
				continue;
			Found &f = found[i];
			for (size_t k = 0; k < (most ? 5 : 4) * f.groups; k++) {
				size_t z = ctx.rng.below((uint32_t)n);
				while (f.v[z] != k % f.groups)
					z = (z + 1) % n;
				s.clear();
				if (f.ahead)
					s = { f.x, f.y };
				else
					s = { A[z] };
				s.insert(s.end(), k < 4 * f.groups ? len(S{ u }) : most, u);
				if (f.ahead)
					s.push_back(A[z]);
				else
					s.insert(s.end(), { f.y, f.x });
				use(s);
				ctx.count("long repetitions between a pair and a character that depend on each other");
			}
		}
	}
}
// a length between 2^lo and 2^hi, every magnitude equally likely, sometimes directly at a power of two
inline size_t log_length(Rng &r, unsigned lo, unsigned hi)
{
	unsigned k = lo + r.below(hi - lo);
	size_t v = (size_t)1 << k;
	return r.chance(1, 3) ? v * 2 + r.below(5) - 2 : v + r.below((uint32_t)v);
}

// hostile bytes: mixtures of valid sequences, broken ones and random bytes; no NUL unless allowed
inline void random_bytes(Rng &r, size_t maxlen, std::vector<uint32_t> &out, const Kinds *K, bool nul = true)
{
	out.clear();
	size_t len = r.chance(1, 8) ? 1 + r.below((uint32_t)maxlen) : 1 + r.below(24);
	while (out.size() < len) {
		uint32_t q = r.below(100);
		uint8_t b[4];
		if (q < 55) {
			cp_t c = K ? K->any(r.below((uint32_t)K->size()), r) : r.below(NCP);
			size_t l = oracle_encode(c, b);
			if (r.chance(1, 12) && l > 1)
				l = 1 + r.below((uint32_t)l - 1); // cut
			for (size_t i = 0; i < l; i++)
				out.push_back(b[i]);
		} else if (q < 70) {
			// any lead byte with some continuation bytes: overlong, surrogate, too large, too long
			static const uint8_t lead[] = { 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1, 0xF3, 0xF4,
				0xF5, 0xF7, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF };
			out.push_back(lead[r.below(sizeof lead)]);
			static const uint8_t cont[] = { 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF };
			for (uint32_t i = r.below(5); i > 0; i--)
				out.push_back(cont[r.below(6)]);
		} else if (q < 80) {
			out.push_back(0x80 + r.below(0x40));
		} else if (q < 90) {
			out.push_back(0x20 + r.below(0x5F));
		} else {
			out.push_back(r.below(256));
		}
	}
	if (!nul)
		for (auto &x : out)
			if (x == 0)
				x = 1;
}

// element counts around the widths a counter or index might wrongly be kept in
inline size_t edge_count(Rng &r, bool big)
{
	static const size_t small[] = { 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1024, 4096 };
	static const size_t large[] = { 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 66000 };
	return big ? large[r.below(sizeof large / sizeof *large)] : small[r.below(sizeof small / sizeof *small)];
}
// a long string: blocks that repeat one character, random characters of one kind or a short cycle, at least one of
// them of a length around 2^8 or 2^16.  any() gives a random character, like(c) another one of the same kind
template <class F, class G> void long_string(Rng &r, F any, G like, std::vector<uint32_t> &out)
{
	out.clear();
	uint32_t nb = 1 + r.below(5), special = r.below(nb);
	bool big = r.chance(1, 2);
	for (uint32_t b = 0; b < nb; b++) {
		for (uint32_t k = r.below(4); k > 0; k--)
			out.push_back(any());
		size_t len = edge_count(r, b == special ? big : r.chance(1, 16)), cyc = 1 + (r.chance(1, 2) ? 0 : r.below(4));
		uint32_t c[4];
		for (auto &x : c)
			x = any();
		bool vary = r.chance(1, 3);
		if (cyc > 1 && len < 40000 && r.chance(1, 2))
			len *= cyc; // so many periods instead of so many characters
		for (size_t k = 0; k < len; k++)
			out.push_back(vary ? like(c[k % cyc]) : c[k % cyc]);
	}
	for (uint32_t k = r.below(6); k > 0; k--)
		out.push_back(any());
}
inline void long_string(const Kinds &K, Rng &r, std::vector<uint32_t> &out)
{
	std::vector<std::pair<uint32_t, size_t>> seen; // the kind each character used was drawn from
	long_string(r, [&] {
		size_t k = r.below((uint32_t)K.size());
		uint32_t c = K.any(k, r);
		seen.push_back({ c, k });
		return c;
	}, [&](uint32_t c) {
		for (size_t i = seen.size(); i-- > 0;)
			if (seen[i].first == c)
				return K.any(seen[i].second, r);
		return c;
	}, out);
}

// declared lengths and capacities around the widths they might wrongly be kept in
inline size_t huge_count(Rng &r)
{
	static const unsigned sh[] = { 16, 31, 32, 32, 32, 33 };
	size_t v = (size_t)1 << sh[r.below(6)];
	static const int d[] = { -2, -1, 0, 0, 1, 2, 3, 4, 5, 7 };
	return v + (size_t)(ptrdiff_t)d[r.below(10)];
}

// decode as the model says.  An incomplete sequence at the end is dropped for explicit lengths and counts as
// one U+FFFD for NUL-terminated text.  off has one more element than cps.
inline void decode_all(const uint8_t *s, size_t n, bool nulmode, std::vector<cp_t> &cps, std::vector<size_t> &off)
{
	cps.clear();
	off.clear();
	size_t o = 0;
	while (o < n) {
		cp_t c;
		size_t l = oracle_decode(s + o, n - o, c);
		if (l > n - o) {
			if (!nulmode)
				break;
			c = 0xFFFD;
			l = n - o;
		}
		cps.push_back(c);
		off.push_back(o);
		o += l;
	}
	off.push_back(o);
}
