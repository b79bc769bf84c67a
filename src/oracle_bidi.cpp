#include "oracle.hpp"
#include <algorithm>
#include <utility>

#define HIT(r) (rule_hits[r]++)
static const int MAXD = 125;

static bool is_init(uint8_t c) { return c == B_LRI || c == B_RLI || c == B_FSI; }
static bool removed(uint8_t c)
{
	return c == B_RLE || c == B_LRE || c == B_RLO || c == B_LRO || c == B_PDF || c == B_BN;
}
static bool is_ni(uint8_t c) { return c == B_B || c == B_S || c == B_WS || c == B_ON || is_init(c) || c == B_PDI; }

// P2/P3 on [a, e): 0, 1 or -1 if no strong character was found
static int first_strong(const std::vector<uint8_t> &o, const std::vector<size_t> &match, size_t a, size_t e)
{
	for (size_t i = a; i < e; i++) {
		if (o[i] == B_L)
			return 0;
		if (o[i] == B_R || o[i] == B_AL)
			return 1;
		if (is_init(o[i])) {
			if (match[i] == SIZE_MAX)
				return -1;
			HIT(R_P2);
			i = match[i];
		}
	}
	return -1;
}

void oracle_bidi(const cp_t *s, size_t nn, int dir, BidiRes &R)
{
	size_t n = 0;
	auto &o = R.orig;
	o.clear();
	while (n < nn) {
		o.push_back(U.b(s[n]));
		n++;
		if (o.back() == B_B)
			break;
	}
	R.len = n;
	R.lev.assign(n, 0);
	// BD9
	static thread_local std::vector<size_t> match, stk;
	match.assign(n, SIZE_MAX);
	stk.clear();
	for (size_t i = 0; i < n; i++) {
		if (is_init(o[i])) {
			stk.push_back(i);
		} else if (o[i] == B_PDI && !stk.empty()) {
			match[stk.back()] = i;
			match[i] = stk.back();
			stk.pop_back();
		}
	}
	int para;
	if (dir == 1) {
		para = 0;
	} else if (dir == 2) {
		para = 1;
	} else {
		int f = first_strong(o, match, 0, n);
		HIT(R_P3);
		para = f == 1;
	}
	R.para = para;

	// X1-X8
	struct Ent {
		int level, ovr; // ovr: 0 neutral 1 L 2 R
		bool iso;
	};
	static thread_local std::vector<Ent> st;
	st.clear();
	st.push_back({ para, 0, false });
	size_t over_iso = 0, over_emb = 0, valid_iso = 0;
	static thread_local std::vector<uint8_t> t; // current types
	static thread_local std::vector<int> lev;
	t = o;
	lev.assign(n, para);
	auto next_level = [](int l, bool odd) { return odd ? (l + 1) | 1 : (l + 2) & ~1; };
	for (size_t i = 0; i < n; i++) {
		uint8_t c = o[i];
		if (c == B_RLE || c == B_LRE || c == B_RLO || c == B_LRO) {
			bool odd = c == B_RLE || c == B_RLO;
			int nl = next_level(st.back().level, odd);
			lev[i] = st.back().level;
			if (nl <= MAXD && over_iso == 0 && over_emb == 0) {
				HIT(R_X2_X5);
				st.push_back({ nl, c == B_RLO ? 2 : c == B_LRO ? 1 : 0, false });
			} else {
				HIT(R_XOVER);
				if (over_iso == 0)
					over_emb++;
			}
		} else if (is_init(c)) {
			bool odd = c == B_RLI;
			if (c == B_FSI)
				odd = first_strong(o, match, i + 1, match[i] == SIZE_MAX ? n : match[i]) == 1;
			lev[i] = st.back().level;
			if (st.back().ovr)
				t[i] = st.back().ovr == 1 ? B_L : B_R;
			int nl = next_level(st.back().level, odd);
			if (nl <= MAXD && over_iso == 0 && over_emb == 0) {
				HIT(R_X5a_c);
				valid_iso++;
				st.push_back({ nl, 0, true });
			} else {
				HIT(R_XOVER);
				over_iso++;
			}
		} else if (c == B_PDI) {
			if (over_iso > 0) {
				HIT(R_X6aover);
				over_iso--;
			} else if (valid_iso > 0) {
				HIT(R_X6a);
				over_emb = 0;
				while (!st.back().iso)
					st.pop_back();
				st.pop_back();
				valid_iso--;
			}
			lev[i] = st.back().level;
			if (st.back().ovr)
				t[i] = st.back().ovr == 1 ? B_L : B_R;
		} else if (c == B_PDF) {
			lev[i] = st.back().level;
			if (over_iso > 0) {
			} else if (over_emb > 0) {
				over_emb--;
			} else if (!st.back().iso && st.size() >= 2) {
				HIT(R_X7);
				st.pop_back();
			}
		} else if (c == B_B) {
			lev[i] = para;
		} else if (c == B_BN) {
			lev[i] = st.back().level;
		} else {
			lev[i] = st.back().level;
			if (st.back().ovr) {
				HIT(R_X6);
				t[i] = st.back().ovr == 1 ? B_L : B_R;
			}
		}
	}
	// X9
	static thread_local std::vector<size_t> v; // remaining characters
	v.clear();
	for (size_t i = 0; i < n; i++) {
		if (removed(o[i]))
			HIT(R_X9);
		else
			v.push_back(i);
	}
	// X10: level runs -> isolating run sequences (BD13)
	size_t m = v.size();
	static thread_local std::vector<size_t> run_of; // by position in v
	static thread_local std::vector<std::pair<size_t, size_t>> runs;
	static thread_local std::vector<size_t> pos; // original index -> position in v
	runs.clear();
	run_of.assign(m, 0);
	pos.assign(n, SIZE_MAX);
	for (size_t k = 0; k < m; k++) {
		pos[v[k]] = k;
		if (k == 0 || lev[v[k]] != lev[v[k - 1]])
			runs.push_back({ k, k });
		runs.back().second = k + 1;
		run_of[k] = runs.size() - 1;
	}
	static thread_local std::vector<size_t> q; // one isolating run sequence (original indices)
	static thread_local std::vector<int> base_lev;
	base_lev = lev;
	for (size_t r = 0; r < runs.size(); r++) {
		size_t f = v[runs[r].first];
		if (o[f] == B_PDI && match[f] != SIZE_MAX)
			continue; // not the first run of its sequence
		q.clear();
		size_t cur = r;
		for (;;) {
			for (size_t k = runs[cur].first; k < runs[cur].second; k++)
				q.push_back(v[k]);
			size_t l = q.back();
			if (is_init(o[l]) && match[l] != SIZE_MAX) {
				HIT(R_BD13);
				cur = run_of[pos[match[l]]];
			} else {
				break;
			}
		}
		int L = base_lev[q[0]];
		size_t kf = pos[q[0]], kl = pos[q.back()];
		int before = kf == 0 ? para : base_lev[v[kf - 1]];
		int after = kl + 1 == m || (is_init(o[q.back()]) && match[q.back()] == SIZE_MAX) ? para : base_lev[v[kl + 1]];
		uint8_t sos = std::max(L, before) % 2 ? B_R : B_L, eos = std::max(L, after) % 2 ? B_R : B_L;
		uint8_t edir = L % 2 ? B_R : B_L;
		size_t z = q.size();
		auto T = [&](size_t k) -> uint8_t & { return t[q[k]]; };
		// W1
		for (size_t k = 0; k < z; k++)
			if (T(k) == B_NSM) {
				HIT(R_W1);
				if (k == 0)
					T(k) = sos;
				else if (is_init(o[q[k - 1]]) || o[q[k - 1]] == B_PDI)
					// previous character is an isolate initiator or PDI: its type, if an
					// override changed it, is the overridden one (reference implementations)
					T(k) = is_init(T(k - 1)) || T(k - 1) == B_PDI ? (uint8_t)B_ON : T(k - 1);
				else
					T(k) = T(k - 1);
			}
		// W2
		uint8_t strong = sos;
		for (size_t k = 0; k < z; k++) {
			if (T(k) == B_L || T(k) == B_R || T(k) == B_AL)
				strong = T(k);
			else if (T(k) == B_EN && strong == B_AL) {
				HIT(R_W2);
				T(k) = B_AN;
			}
		}
		// W3
		for (size_t k = 0; k < z; k++)
			if (T(k) == B_AL) {
				HIT(R_W3);
				T(k) = B_R;
			}
		// W4
		for (size_t k = 1; k + 1 < z; k++) {
			if (T(k) == B_ES && T(k - 1) == B_EN && T(k + 1) == B_EN) {
				HIT(R_W4);
				T(k) = B_EN;
			} else if (T(k) == B_CS && T(k - 1) == T(k + 1) && (T(k - 1) == B_EN || T(k - 1) == B_AN)) {
				HIT(R_W4);
				T(k) = T(k - 1);
			}
		}
		// W5
		for (size_t k = 0; k < z; k++)
			if (T(k) == B_ET) {
				size_t e = k;
				while (e < z && T(e) == B_ET)
					e++;
				if ((k > 0 && T(k - 1) == B_EN) || (e < z && T(e) == B_EN)) {
					HIT(R_W5);
					for (size_t x = k; x < e; x++)
						T(x) = B_EN;
				}
				k = e - 1;
			}
		// W6
		for (size_t k = 0; k < z; k++)
			if (T(k) == B_ES || T(k) == B_ET || T(k) == B_CS) {
				HIT(R_W6);
				T(k) = B_ON;
			}
		// W7
		strong = sos;
		for (size_t k = 0; k < z; k++) {
			if (T(k) == B_L || T(k) == B_R)
				strong = T(k);
			else if (T(k) == B_EN && strong == B_L) {
				HIT(R_W7);
				T(k) = B_L;
			}
		}
		// BD16
		static thread_local std::vector<std::pair<cp_t, size_t>> bs;
		static thread_local std::vector<std::pair<size_t, size_t>> pairs;
		bs.clear();
		pairs.clear();
		for (size_t k = 0; k < z; k++) {
			if (T(k) != B_ON)
				continue;
			cp_t c = s[q[k]];
			int bt = U.bt(c);
			if (bt == 1) {
				if (bs.size() == 63) {
					HIT(R_BD16over);
					break;
				}
				bs.push_back({ U.bcanon(U.bpair[c]), k });
			} else if (bt == 2) {
				cp_t cc = U.bcanon(c);
				for (size_t d = bs.size(); d-- > 0;)
					if (bs[d].first == cc) {
						pairs.push_back({ bs[d].second, k });
						bs.resize(d);
						break;
					}
			}
		}
		std::sort(pairs.begin(), pairs.end());
		auto strongtype = [](uint8_t c) -> uint8_t {
			return c == B_L ? B_L : (c == B_R || c == B_EN || c == B_AN) ? B_R : B_ON;
		};
		for (auto &pr : pairs) {
			bool e = false, opp = false;
			for (size_t k = pr.first + 1; k < pr.second; k++) {
				uint8_t x = strongtype(T(k));
				if (x == edir)
					e = true;
				else if (x != B_ON)
					opp = true;
			}
			uint8_t nt;
			if (e) {
				HIT(R_N0b);
				nt = edir;
			} else if (opp) {
				uint8_t ctx = sos;
				for (size_t k = pr.first; k-- > 0;)
					if (strongtype(T(k)) != B_ON) {
						ctx = strongtype(T(k));
						break;
					}
				if (ctx != edir) {
					HIT(R_N0c1);
					nt = ctx;
				} else {
					HIT(R_N0c2);
					nt = edir;
				}
			} else {
				HIT(R_N0d);
				continue;
			}
			T(pr.first) = T(pr.second) = nt;
			for (size_t k = pr.first + 1; k < z && o[q[k]] == B_NSM; k++) {
				HIT(R_N0nsm);
				T(k) = nt;
			}
			for (size_t k = pr.second + 1; k < z && o[q[k]] == B_NSM; k++) {
				HIT(R_N0nsm);
				T(k) = nt;
			}
		}
		// N1, N2
		for (size_t k = 0; k < z; k++)
			if (is_ni(T(k))) {
				size_t e = k;
				while (e < z && is_ni(T(e)))
					e++;
				uint8_t a = k == 0 ? sos : strongtype(T(k - 1)), c = e == z ? eos : strongtype(T(e));
				if (a == c)
					HIT(R_N1);
				else
					HIT(R_N2);
				uint8_t nt = a == c ? a : edir;
				for (size_t x = k; x < e; x++)
					T(x) = nt;
				k = e - 1;
			}
		// I1, I2
		for (size_t k = 0; k < z; k++) {
			uint8_t c = T(k);
			int &l = lev[q[k]];
			if (L % 2 == 0) {
				if (c == B_R)
					l = L + 1, HIT(R_I1);
				else if (c == B_AN || c == B_EN)
					l = L + 2, HIT(R_I1);
			} else if (c == B_L || c == B_AN || c == B_EN) {
				l = L + 1, HIT(R_I2);
			}
		}
	}
	for (size_t i = 0; i < n; i++)
		R.lev[i] = removed(o[i]) ? -1 : (int8_t)lev[i];
	// L1, parts 1-3
	for (size_t i = n; i-- > 0;) {
		if (o[i] != B_S && o[i] != B_B)
			continue;
		HIT(R_L1_12);
		R.lev[i] = (int8_t)para;
		for (size_t k = i; k-- > 0;) {
			if (removed(o[k]))
				continue;
			if (o[k] != B_WS && !is_init(o[k]) && o[k] != B_PDI)
				break;
			HIT(R_L1_3);
			R.lev[k] = (int8_t)para;
		}
	}
}

void oracle_line_levels(const BidiRes &r, size_t a, size_t e, std::vector<int8_t> &lev)
{
	lev.assign(r.lev.begin() + a, r.lev.begin() + e);
	for (size_t k = e; k-- > a;) {
		uint8_t c = r.orig[k];
		if (removed(c))
			continue;
		if (c != B_WS && !is_init(c) && c != B_PDI)
			break;
		if (lev[k - a] != r.para)
			HIT(R_L1_4);
		lev[k - a] = (int8_t)r.para;
	}
}

void oracle_reorder(const cp_t *s, const BidiRes &r, size_t a, size_t e, bool mirror_all, std::vector<cp_t> &out)
{
	std::vector<int8_t> lv, l2;
	oracle_line_levels(r, a, e, lv);
	out.clear();
	int hi = 0;
	for (size_t i = a; i < e; i++) {
		int8_t l = lv[i - a];
		if (l == -1)
			continue;
		cp_t c = s[i];
		if ((l & 1) || mirror_all) {
			if (U.mir(c) != c)
				HIT(R_L4);
			c = U.mir(c);
		}
		out.push_back(c);
		l2.push_back(l);
		hi = std::max(hi, (int)l);
	}
	// reversing all runs at or above each level down to 1 gives L2: for levels without an odd level at or
	// below them the standard stops at the lowest odd level on the line
	int lo = 127;
	for (int8_t l : l2)
		if (l & 1)
			lo = std::min(lo, (int)l);
	for (int lvl = hi; lvl >= lo; lvl--)
		for (size_t i = 0; i < out.size();) {
			if (l2[i] < lvl) {
				i++;
				continue;
			}
			size_t j = i;
			while (j < out.size() && l2[j] >= lvl)
				j++;
			std::reverse(out.begin() + i, out.begin() + j);
			std::reverse(l2.begin() + i, l2.begin() + j);
			HIT(R_L2);
			i = j;
		}
}
