#include "oracle.hpp"

const char *const rule_name[R_COUNT] = {
	"GB1/2", "GB3", "GB4", "GB5", "GB6", "GB7", "GB8", "GB9", "GB9a", "GB9b", "GB11", "GB12/13", "GB999",
	"WB3", "WB3a", "WB3b", "WB3c", "WB3d", "WB4", "WB5", "WB6", "WB7", "WB7a", "WB7b", "WB7c", "WB8", "WB9", "WB10",
	"WB11", "WB12", "WB13", "WB13a", "WB13b", "WB15/16", "WB999",
	"SB3", "SB4", "SB5", "SB6", "SB7", "SB8", "SB8a", "SB9", "SB10", "SB11", "SB998",
	"LB4", "LB5", "LB6", "LB7", "LB8", "LB8a", "LB9", "LB11", "LB12", "LB12a", "LB13", "LB14", "LB15", "LB16", "LB17",
	"LB18", "LB19", "LB20", "LB21", "LB21a", "LB21b", "LB22", "LB23", "LB23a", "LB24", "LB25", "LB26", "LB27", "LB28",
	"LB29", "LB30", "LB30a", "LB30b", "LB31",
	"P2", "P3", "X2-X5", "X5a-c", "X-overflow", "X6", "X6a", "X6a-overflow", "X7", "X9", "W1", "W2", "W3", "W4", "W5", "W6", "W7",
	"N0b", "N0c1", "N0c2", "N0d", "N0-NSM", "BD16-overflow", "N1", "N2", "I1", "I2", "L1.1-2", "L1.3", "L1.4", "L2", "L4",
	"BD13-joined",
	"CASE", "CASE-special", "FINAL-SIGMA", "NONFINAL-SIGMA", "SIGMA-beside-both", "TITLE",
};
uint64_t rule_hits[R_COUNT];
Ucd U;
#define HIT(r) (rule_hits[r]++)
#define NO(r) { HIT(r); b[i] = 0; continue; }
#define YES(r) { HIT(r); b[i] = 1; continue; }

const oracle_seg_fn oracle_seg[4] = { oracle_character, oracle_word, oracle_sentence, oracle_line };

void oracle_character(const cp_t *s, size_t n, Bounds &b)
{
	b.assign(n + 1, 1);
	static thread_local std::vector<uint8_t> p;
	p.resize(n);
	for (size_t i = 0; i < n; i++)
		p[i] = U.g(s[i]);
	for (size_t i = 1; i < n; i++) {
		uint8_t l = p[i - 1], r = p[i];
		if (l == G_CR && r == G_LF)
			NO(R_GB3);
		if (l == G_CN || l == G_CR || l == G_LF)
			YES(R_GB4);
		if (r == G_CN || r == G_CR || r == G_LF)
			YES(R_GB5);
		if (l == G_L && (r == G_L || r == G_V || r == G_LV || r == G_LVT))
			NO(R_GB6);
		if ((l == G_LV || l == G_V) && (r == G_V || r == G_T))
			NO(R_GB7);
		if ((l == G_LVT || l == G_T) && r == G_T)
			NO(R_GB8);
		if (r == G_EX || r == G_ZWJ)
			NO(R_GB9);
		if (r == G_SM)
			NO(R_GB9a);
		if (l == G_PP)
			NO(R_GB9b);
		if (l == G_ZWJ && U.ep(s[i])) {
			size_t k = i - 1;
			while (k > 0 && p[k - 1] == G_EX)
				k--;
			if (k > 0 && U.ep(s[k - 1]))
				NO(R_GB11);
		}
		if (l == G_RI && r == G_RI) {
			size_t cnt = 0, k = i;
			while (k > 0 && p[k - 1] == G_RI)
				k--, cnt++;
			if (cnt % 2 == 1)
				NO(R_GB12_13);
		}
		YES(R_GB999);
	}
}

void oracle_word(const cp_t *s, size_t n, Bounds &b)
{
	b.assign(n + 1, 1);
	static thread_local std::vector<uint8_t> p;
	static thread_local std::vector<size_t> nx, ri; // next non-ignored after i; RIs before element
	p.resize(n);
	nx.resize(n + 1);
	ri.resize(n + 1);
	for (size_t i = 0; i < n; i++)
		p[i] = U.w(s[i]);
	auto skip = [](uint8_t c) { return c == W_Extend || c == W_Format || c == W_ZWJ; };
	// nx[i]: index of the first non-ignored element at or after i
	size_t last = SIZE_MAX;
	for (size_t i = n; i-- > 0;) {
		nx[i + 1] = last;
		if (!skip(p[i]))
			last = i;
	}
	nx[0] = last;
	size_t p1 = SIZE_MAX, p2 = SIZE_MAX; // previous and second previous non-ignored elements
	size_t run = 0;                      // number of consecutive RIs ending at p1
	for (size_t i = 1; i < n; i++) {
		if (!skip(p[i - 1])) {
			p2 = p1;
			p1 = i - 1;
			run = p[i - 1] == W_RI ? run + 1 : 0;
		}
		{
			uint8_t l = p[i - 1], r = p[i];
			if (l == W_CR && r == W_LF)
				NO(R_WB3);
			if (l == W_NL || l == W_CR || l == W_LF)
				YES(R_WB3a);
			if (r == W_NL || r == W_CR || r == W_LF)
				YES(R_WB3b);
			if (l == W_ZWJ && U.ep(s[i]))
				NO(R_WB3c);
			if (l == W_WSeg && r == W_WSeg)
				NO(R_WB3d);
			if (skip(r))
				NO(R_WB4);
			uint8_t a = p1 == SIZE_MAX ? (uint8_t)W_XX : p[p1];
			uint8_t a2 = p2 == SIZE_MAX ? (uint8_t)W_XX : p[p2];
			uint8_t c2 = nx[i + 1] == SIZE_MAX ? (uint8_t)W_XX : p[nx[i + 1]];
			auto ahl = [](uint8_t c) { return c == W_AL || c == W_HL; };
			auto mnlq = [](uint8_t c) { return c == W_MB || c == W_SQ; };
			if (ahl(a) && ahl(r))
				NO(R_WB5);
			if (ahl(a) && (r == W_ML || mnlq(r)) && ahl(c2))
				NO(R_WB6);
			if (ahl(a2) && (a == W_ML || mnlq(a)) && ahl(r))
				NO(R_WB7);
			if (a == W_HL && r == W_SQ)
				NO(R_WB7a);
			if (a == W_HL && r == W_DQ && c2 == W_HL)
				NO(R_WB7b);
			if (a2 == W_HL && a == W_DQ && r == W_HL)
				NO(R_WB7c);
			if (a == W_NU && r == W_NU)
				NO(R_WB8);
			if (ahl(a) && r == W_NU)
				NO(R_WB9);
			if (a == W_NU && ahl(r))
				NO(R_WB10);
			if (a2 == W_NU && (a == W_MN || mnlq(a)) && r == W_NU)
				NO(R_WB11);
			if (a == W_NU && (r == W_MN || mnlq(r)) && c2 == W_NU)
				NO(R_WB12);
			if (a == W_Kata && r == W_Kata)
				NO(R_WB13);
			if ((ahl(a) || a == W_NU || a == W_Kata || a == W_ENL) && r == W_ENL)
				NO(R_WB13a);
			if (a == W_ENL && (ahl(r) || r == W_NU || r == W_Kata))
				NO(R_WB13b);
			if (a == W_RI && r == W_RI && run % 2 == 1)
				NO(R_WB15_16);
			YES(R_WB999);
		}
	}
}

void oracle_sentence(const cp_t *s, size_t n, Bounds &b)
{
	b.assign(n + 1, 0);
	if (n == 0) {
		b[0] = 1;
		return;
	}
	b[0] = b[n] = 1;
	// SB3-SB5 on the raw text; the elements that SB5 does not ignore go to f
	static thread_local std::vector<uint8_t> p;
	static thread_local std::vector<size_t> f;
	static thread_local std::vector<uint8_t> lowahead;
	p.resize(n);
	f.clear();
	for (size_t i = 0; i < n; i++)
		p[i] = U.s(s[i]);
	auto parasep = [](uint8_t c) { return c == S_Sep || c == S_CR || c == S_LF; };
	auto skip = [](uint8_t c) { return c == S_Extend || c == S_Format; };
	auto saterm = [](uint8_t c) { return c == S_AT || c == S_ST; };
	for (size_t i = 0; i < n; i++)
		if (i == 0 || parasep(p[i - 1]) || !skip(p[i]))
			f.push_back(i);
	size_t m = f.size();
	auto P = [&](size_t k) { return p[f[k]]; };
	// lowahead[k]: from element k on, ( not (OLetter|Upper|Lower|ParaSep|SATerm) )* Lower
	lowahead.assign(m + 1, 0);
	for (size_t k = m; k-- > 0;) {
		uint8_t c = P(k);
		if (c == S_LO)
			lowahead[k] = 1;
		else if (c == S_OL || c == S_UP || parasep(c) || saterm(c))
			lowahead[k] = 0;
		else
			lowahead[k] = lowahead[k + 1];
	}
	rule_hits[R_SB5] += n - m;
	// the state of the context to the left: SATerm Close* Sp* ParaSep?
	for (size_t k = 1; k < m; k++) {
		size_t i = f[k];
		uint8_t l = P(k - 1), r = P(k);
		if (l == S_CR && r == S_LF && f[k] == f[k - 1] + 1)
			NO(R_SB3);
		if (parasep(l))
			YES(R_SB4);
		if (l == S_AT && r == S_NU)
			NO(R_SB6);
		if (k >= 2 && (P(k - 2) == S_UP || P(k - 2) == S_LO) && l == S_AT && r == S_UP)
			NO(R_SB7);
		{
			// walk left: Sp* then Close* then SATerm
			size_t j = k;
			bool sp = false, cl = false;
			while (j > 0 && P(j - 1) == S_Sp)
				j--, sp = true;
			while (j > 0 && P(j - 1) == S_CL)
				j--, cl = true;
			bool hit = j > 0 && saterm(P(j - 1));
			uint8_t t = hit ? P(j - 1) : (uint8_t)S_XX;
			(void)cl;
			if (t == S_AT && lowahead[k])
				NO(R_SB8);
			if (hit && (r == S_SC || saterm(r)))
				NO(R_SB8a);
			if (hit && !sp && (r == S_CL || r == S_Sp || parasep(r)))
				NO(R_SB9);
			if (hit && (r == S_Sp || parasep(r)))
				NO(R_SB10);
			if (hit)
				YES(R_SB11);
		}
		NO(R_SB998);
	}
}

void oracle_line(const cp_t *s, size_t n, Bounds &b)
{
	b.assign(n + 1, 0);
	b[n] = 1;
	b[0] = 1;
	static thread_local std::vector<uint8_t> p;
	static thread_local std::vector<size_t> f; // units: bases (LB9) and orphaned marks (LB10)
	static thread_local std::vector<uint8_t> q; // class of the unit
	p.resize(n);
	f.clear();
	q.clear();
	for (size_t i = 0; i < n; i++)
		p[i] = U.l(s[i]);
	for (size_t i = 0; i < n; i++) {
		uint8_t c = p[i];
		bool mark = c == L_CM || c == L_ZWJ;
		if (mark) {
			// attached to the unit before it unless that is one of BK CR LF NL SP ZW or sot
			if (!f.empty()) {
				uint8_t x = p[f.back()];
				if (x != L_BK && x != L_CR && x != L_LF && x != L_NL && x != L_SP && x != L_ZW) {
					HIT(R_LB9);
					continue;
				}
			}
			f.push_back(i);
			q.push_back(L_AL); // LB10
		} else {
			f.push_back(i);
			q.push_back(c);
		}
	}
	size_t m = f.size();
	for (size_t k = 1; k < m; k++) {
		size_t i = f[k];
		uint8_t l = q[k - 1], r = q[k];
		uint8_t lraw = p[f[k - 1]];
		auto eastop = [&](size_t x) { return U.ea(s[f[x]]); };
		if (l == L_BK)
			YES(R_LB4);
		if (l == L_CR && r == L_LF)
			NO(R_LB5);
		if (l == L_CR || l == L_LF || l == L_NL)
			YES(R_LB5);
		if (r == L_BK || r == L_CR || r == L_LF || r == L_NL)
			NO(R_LB6);
		if (r == L_SP || r == L_ZW)
			NO(R_LB7);
		size_t j = k; // first unit of the space run directly before k
		while (j > 0 && q[j - 1] == L_SP)
			j--;
		uint8_t before = j > 0 ? q[j - 1] : (uint8_t)L_N; // class before the spaces
		if (before == L_ZW)
			YES(R_LB8);
		if (p[i - 1] == L_ZWJ)
			NO(R_LB8a);
		(void)lraw;
		if (r == L_WJ || l == L_WJ)
			NO(R_LB11);
		if (l == L_GL)
			NO(R_LB12);
		if (r == L_GL && l != L_SP && l != L_BA && l != L_HY)
			NO(R_LB12a);
		if (r == L_CL || r == L_CP || r == L_EX || r == L_IS || r == L_SY)
			NO(R_LB13);
		if (before == L_OP)
			NO(R_LB14);
		if (before == L_QU && r == L_OP)
			NO(R_LB15);
		if ((before == L_CL || before == L_CP) && r == L_NS)
			NO(R_LB16);
		if (before == L_B2 && r == L_B2)
			NO(R_LB17);
		if (l == L_SP)
			YES(R_LB18);
		if (r == L_QU || l == L_QU)
			NO(R_LB19);
		if (r == L_CB || l == L_CB)
			YES(R_LB20);
		if (r == L_BA || r == L_HY || r == L_NS || l == L_BB)
			NO(R_LB21);
		if (k >= 2 && q[k - 2] == L_HL && (l == L_HY || l == L_BA))
			NO(R_LB21a);
		if (l == L_SY && r == L_HL)
			NO(R_LB21b);
		if (r == L_IN)
			NO(R_LB22);
		{
			bool lal = l == L_AL || l == L_HL, ral = r == L_AL || r == L_HL;
			bool lid = l == L_ID || l == L_EB || l == L_EM, rid = r == L_ID || r == L_EB || r == L_EM;
			bool lh = l == L_JL || l == L_JV || l == L_JT || l == L_H2 || l == L_H3;
			bool rh = r == L_JL || r == L_JV || r == L_JT || r == L_H2 || r == L_H3;
			if ((lal && r == L_NU) || (l == L_NU && ral))
				NO(R_LB23);
			if ((l == L_PR && rid) || (lid && r == L_PO))
				NO(R_LB23a);
			if (((l == L_PR || l == L_PO) && ral) || (lal && (r == L_PR || r == L_PO)))
				NO(R_LB24);
			// LB25 as in example 7 of section 8: (PR|PO) x (OP|HY)? NU
			if (l == L_PR || l == L_PO) {
				if (r == L_NU)
					NO(R_LB25);
				if ((r == L_OP || r == L_HY) && k + 1 < m && q[k + 1] == L_NU)
					NO(R_LB25);
			}
			if ((l == L_OP || l == L_HY) && r == L_NU)
				NO(R_LB25);
			// NU (NU|SY|IS)* x (NU|SY|IS|CL|CP), NU (NU|SY|IS)* (CL|CP)? x (PO|PR)
			{
				size_t t = k;
				if ((r == L_PO || r == L_PR) && t > 0 && (q[t - 1] == L_CL || q[t - 1] == L_CP))
					t--;
				bool ok = r == L_NU || r == L_SY || r == L_IS || r == L_CL || r == L_CP || r == L_PO || r == L_PR;
				if (ok) {
					while (t > 0 && (q[t - 1] == L_SY || q[t - 1] == L_IS))
						t--;
					if (t > 0 && q[t - 1] == L_NU)
						NO(R_LB25);
				}
			}
			if (l == L_JL && (r == L_JL || r == L_JV || r == L_H2 || r == L_H3))
				NO(R_LB26);
			if ((l == L_JV || l == L_H2) && (r == L_JV || r == L_JT))
				NO(R_LB26);
			if ((l == L_JT || l == L_H3) && r == L_JT)
				NO(R_LB26);
			if ((lh && r == L_PO) || (l == L_PR && rh))
				NO(R_LB27);
			if (lal && ral)
				NO(R_LB28);
			if (l == L_IS && ral)
				NO(R_LB29);
			if ((lal || l == L_NU) && r == L_OP && !eastop(k))
				NO(R_LB30);
			if (l == L_CP && !eastop(k - 1) && (ral || r == L_NU))
				NO(R_LB30);
		}
		if (l == L_RI && r == L_RI) {
			size_t t = k, cnt = 0;
			while (t > 0 && q[t - 1] == L_RI)
				t--, cnt++;
			if (cnt % 2 == 1)
				NO(R_LB30a);
		}
		if (l == L_EB && r == L_EM)
			NO(R_LB30b);
		if (r == L_EM && U.epcn(s[f[k - 1]]))
			NO(R_LB30b);
		YES(R_LB31);
	}
}
